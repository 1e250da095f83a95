------------------------------ MODULE SM9Trace ------------------------------
(***************************************************************************)
(* Recorded runs of SM9: key objects (drivers/sm9.cpp) and the fields,     *)
(* groups and pairing (drivers/sm9int.cpp).  objs holds per name           *)
(* [kind, h, k, pub, d]: kind "master", "pub" or "user", the hash          *)
(* function, master key, master public key, user key (<<>> when not set).  *)
(***************************************************************************)
EXTENDS SM9, PrimeField, TraceIO
VARIABLE objs
Put(id, o) == [x \in DOMAIN objs \cup {id} |-> IF x = id THEN o ELSE objs[x]]
Keep == UNCHANGED objs
Fresh(kind, h) == [kind |-> kind, h |-> h, k |-> <<>>, pub |-> <<>>, d |-> <<>>]
Err(e) == e.err = "runtime_error"
Fine(e) == e.err = ""
Bytes2(Q) == XBytes(Q[1]) \o XBytes(Q[2])

TNew(e) == Accept(e.ss >= 97 /\ e.ss < 1000, "room for a signature", objs' = Put(e.o, Fresh(e.kind, e.h)))
TSetMaster(e) ==
    LET o == objs[e.o] IN
    IF MasterOk(e.in) THEN Accept(Fine(e), <<"accepted">>, objs' = Put(e.o, [o EXCEPT !.k = e.in, !.pub = TLCEval(MasterPub(e.in))]))
    ELSE Accept(Err(e), <<"refused">>, Keep)
TGenMaster(e) ==
    LET o == objs[e.o]
        Id(k) == k
        d == After(Id, e.rnd, N9Minus(1))
    IN  IF e.starve THEN Accept(~Fine(e) /\ Starved(Id, e.rnd, N9Minus(1)), <<"no randomness">>, Keep)
        ELSE Accept(Fine(e) /\ d # Redo, <<"generated">>, objs' = Put(e.o, [o EXCEPT !.k = d, !.pub = TLCEval(MasterPub(d))]))
TSetPub(e) ==
    LET o == objs[e.o]  ok == TLCEval(Pub9Ok(e.x, e.y)) IN
    Accept(IF ok THEN Fine(e) ELSE Err(e), IF ok THEN "accepted" ELSE "refused",
           objs' = IF ok THEN Put(e.o, [o EXCEPT !.pub = <<XOfBytes(e.x), XOfBytes(e.y)>>]) ELSE objs)
\* a user key from outside: a refused one changes nothing
TSetUser(e) ==
    LET o == objs[e.o]
        ok == TLCEval(OnCurve(SM9Curve, <<e.px, e.py>>) /\ Pub9Ok(e.x, e.y))
    IN  Accept(IF ok THEN Fine(e) ELSE Err(e), IF ok THEN "accepted" ELSE "refused",
               objs' = IF ok THEN Put(e.o, [o EXCEPT !.d = <<e.px, e.py>>, !.pub = <<XOfBytes(e.x), XOfBytes(e.y)>>]) ELSE objs)
TPubOf(e) == Accept(TRUE, "", objs' = Put(e.o, [Fresh("pub", objs[e.from].h) EXCEPT !.pub = objs[e.from].pub]))
TCopy(e) == Accept(TRUE, "", objs' = Put(e.o, objs[e.from]))
TExtract(e) ==
    LET m == objs[e.from]
        d == TLCEval(UserKey(m.h, m.k, e.id, e.hid))
    IN  IF d = NoKey THEN Accept(Err(e), "no key for this identity", Keep)
        ELSE Accept(Fine(e), <<"user key", d>>, objs' = Put(e.o, [Fresh("user", m.h) EXCEPT !.pub = m.pub, !.d = d]))
\* an object without a key may say anything
TGet(e) == LET o == objs[e.o] IN
    Accept(/\ e.guard
           /\ o.k # <<>> => e.k = o.k
           /\ o.d # <<>> => <<e.px, e.py>> = o.d
           /\ o.pub # <<>> => e.x \o e.y = Bytes2(o.pub), <<o.k, o.d, o.pub>>, Keep)
GOf(o) == Pairing(SM9G1, o.pub)
TSign(e) ==
    LET o == objs[e.o]
        g == TLCEval(GOf(o))
        Try(r) == Sign9With(o.h, g, o.d, e.msg, e.form, r)
        s == TLCEval(After(Try, e.rnd, N9Minus(1)))
    IN  IF e.starve THEN Accept(~Fine(e) /\ Starved(Try, e.rnd, N9Minus(1)), <<"no randomness">>, Keep)
        ELSE Accept(Fine(e) /\ e.guard /\ s # Redo /\ e.sig = s /\ e.outl = Sig9Len(e.form), <<"signature", s>>, Keep)
TVerify(e) ==
    LET o == objs[e.o]
        ok == TLCEval(Verify9(o.h, o.pub, GOf(o), e.id, e.hid, e.msg, e.sig))
    IN  Accept(e.err = "" /\ e.ret = ok, <<"verify", ok>>, Keep)

\* ---- fields: operands and results in bytes ----
FieldOp(e) ==
    LET d == e.deg  a == XOfBytes(e.a)  b == IF e.b = <<>> THEN <<>> ELSE XOfBytes(e.b)
        Bool(x) == <<IF x THEN 1 ELSE 0>>
    IN  CASE e.f = "add" -> XBytes(XAdd(a, b))
          [] e.f = "sub" -> XBytes(XSub(a, b))
          [] e.f = "neg" -> XBytes(XNeg(a))
          [] e.f = "dbl" -> XBytes(XAdd(a, a))
          [] e.f = "tpl" -> XBytes(XAdd(XAdd(a, a), a))
          \* b may be of a subfield
          [] e.f = "mul" -> XBytes(XMul(a, XEmb(b, d, 0)))
          [] e.f = "sqr" -> XBytes(XMul(a, a))
          [] e.f = "inv" -> XBytes(XInv(a))
          \* times u in degree 2, v in degree 4
          [] e.f = "mulx" -> XBytes(XMul(a, XEmb(<<One32>>, d, 1)))
          [] e.f = "pow" -> XBytes(XPow(a, e.b))
          [] e.f = "cpy" -> e.a
          [] e.f = "eq" -> Bool(a = b)
          [] e.f = "is0" -> Bool(a = XZero(d))
          [] e.f = "is1" -> Bool(a = XOne(d))
          [] e.f = "set0" -> XBytes(XZero(d))
          [] e.f = "set1" -> XBytes(XOne(d))
TField(e) == LET r == TLCEval(FieldOp(e)) IN Accept(e.out = r /\ e.guard, <<"field", r>>, Keep)
\* ---- groups: g = 1 or 2; points as bytes of both coordinates, empty for infinity ----
Pt(g, b) == IF b = <<>> THEN <<>> ELSE IF g = 1 THEN <<SubSeq(b, 1, 32), SubSeq(b, 33, 64)>> ELSE <<XOfBytes(SubSeq(b, 1, 64)), XOfBytes(SubSeq(b, 65, 128))>>
PtB(g, P) == IF P = <<>> THEN <<>> ELSE IF g = 1 THEN P[1] \o P[2] ELSE Bytes2(P)
TAdd(e) == LET r == TLCEval(PtB(e.g, IF e.g = 1 THEN ECAdd(SM9Curve, Pt(1, e.p), Pt(1, e.q)) ELSE XPtAdd(Pt(2, e.p), Pt(2, e.q)))) IN Accept(e.out = r, <<"sum", r>>, Keep)
TNeg(e) == LET r == PtB(e.g, IF e.g = 1 THEN ECNeg(SM9Curve, Pt(1, e.p)) ELSE XPtNeg(Pt(2, e.p))) IN Accept(e.out = r, <<"opposite", r>>, Keep)
TMul(e) == LET r == TLCEval(PtB(e.g, IF e.g = 1 THEN SM9Mul1(e.k, Pt(1, e.p)) ELSE SM9Mul2(e.k, Pt(2, e.p)))) IN Accept(e.out = r, <<"multiple", r>>, Keep)
TEq(e) == Accept(e.out = (e.p = e.q), <<"equal", e.p = e.q>>, Keep)
TOn(e) == LET r == IF e.g = 1 THEN OnCurve(SM9Curve, Pt(1, e.p)) ELSE OnTwist(Pt(2, e.p)) IN Accept(e.out = r, <<"on the curve", r>>, Keep)
TEnc(e) == LET r == IF e.g = 1 THEN EncPoint(e.form, Pt(1, e.p)) ELSE Enc2(e.form, Pt(2, e.p)) IN Accept(e.out = r /\ e.guard, <<"encoding", r>>, Keep)
TDec(e) ==
    IF e.g = 1
    THEN LET P == TLCEval(DecPoint(SM9Curve, e.in))
         IN  Accept(IF P = NoPoint THEN ~e.ok ELSE e.ok /\ e.p = PtB(1, P) /\ e.n = EncLen(SM9Curve, e.in[1]), <<"point", P>>, Keep)
    ELSE LET P == TLCEval(Dec2(e.in))
         IN  Accept(IF P # NoPoint2 THEN e.ok /\ e.p = PtB(2, P) /\ e.n = 129
                    ELSE ~e.ok \/ (e.n = 65 /\ OnTwist(Pt(2, e.p)) /\ Len(e.in) >= 65 /\ Enc2("c", Pt(2, e.p)) = SubSeq(e.in, 1, 65)), <<"point", P>>, Keep)
TPair(e) == LET r == TLCEval(XBytes(Pairing(Pt(1, e.p), Pt(2, e.q)))) IN Accept(e.out = r, <<"pairing", r>>, Keep)
\* e([a]P1, [b]P2) = e(P1, P2)^(ab), each side from the code
TBilinear(e) == LET r == TLCEval(XBytes(XPow(XOfBytes(e.g), BMod(BMul(e.a, e.b), SM9N)))) IN Accept(e.out = r, <<"bilinear", r>>, Keep)
THn(e) == LET r == TLCEval(Hn(e.h, e.tag, e.z1 \o e.z2)) IN Accept(e.out = r, <<"hash to range", r>>, Keep)
TPrime(e) == Accept(PrimeOk(e, SM9P, SM9N), <<"field", e.f>>, Keep)

TraceInit == TraceStart /\ objs = [x \in {} |-> 0]
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "new" -> TNew(e)
             [] e.op = "msetpriv" -> TSetMaster(e)
             [] e.op = "mgenpriv" -> TGenMaster(e)
             [] e.op = "setpub" -> TSetPub(e)
             [] e.op = "usetpriv" -> TSetUser(e)
             [] e.op = "pubof" -> TPubOf(e)
             [] e.op = "copy" -> TCopy(e)
             [] e.op = "extract" -> TExtract(e)
             [] e.op = "get" -> TGet(e)
             [] e.op = "sign" -> TSign(e)
             [] e.op = "verify" -> TVerify(e)
             [] e.op = "field" -> TField(e)
             [] e.op = "add" -> TAdd(e)
             [] e.op = "neg" -> TNeg(e)
             [] e.op = "mul" -> TMul(e)
             [] e.op = "eq" -> TEq(e)
             [] e.op = "on" -> TOn(e)
             [] e.op = "enc" -> TEnc(e)
             [] e.op = "dec" -> TDec(e)
             [] e.op = "pair" -> TPair(e)
             [] e.op = "bil" -> TBilinear(e)
             [] e.op = "hn" -> THn(e)
             [] e.op = "pf" -> TPrime(e)
             [] OTHER -> Reject(e.op)
=============================================================================
