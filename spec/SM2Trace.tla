------------------------------ MODULE SM2Trace ------------------------------
(***************************************************************************)
(* Recorded runs of SM2 key objects (drivers/sm2.cpp).  objs holds, per    *)
(* name, [kind, h, d, pub]: kind "priv" or "pub", the hash function, the   *)
(* private key and the public point (<<>> before a key is set).            *)
(***************************************************************************)
EXTENDS SM2, PrimeField, TraceIO
VARIABLE objs
Bound(id) == id \in DOMAIN objs
Put(id, o) == [x \in DOMAIN objs \cup {id} |-> IF x = id THEN o ELSE objs[x]]
Keep == UNCHANGED objs
Fresh(kind, h) == [kind |-> kind, h |-> h, d |-> <<>>, pub |-> <<>>]
Err(e) == e.err = "runtime_error"
Fine(e) == e.err = ""

\* key objects
TNew(e) == Accept(e.ss = 64, "signature size", objs' = Put(e.o, Fresh(e.kind, e.h)))
\* a private key from bytes; a constructor or set_priv.  A refused key leaves the object as it was
TSetPriv(e) ==
    LET o == objs[e.o] IN
    IF KeyOk(e.in) THEN Accept(Fine(e), <<"accepted">>, objs' = Put(e.o, [o EXCEPT !.d = e.in, !.pub = TLCEval(PubOf(e.in))]))
    ELSE Accept(Err(e), <<"refused">>, Keep)
TGenPriv(e) ==
    LET o == objs[e.o]
        Id(k) == k
        d == After(Id, e.rnd, NMinus(2))
    IN  IF e.starve THEN Accept(~Fine(e) /\ Starved(Id, e.rnd, NMinus(2)), <<"no randomness">>, Keep)
        ELSE Accept(Fine(e) /\ d # Redo, <<"generated">>, objs' = Put(e.o, [o EXCEPT !.d = d, !.pub = TLCEval(PubOf(d))]))
TSetPub(e) ==
    LET o == objs[e.o]  ok == TLCEval(PubOk(e.x, e.y)) IN
    Accept(IF ok THEN Fine(e) ELSE Err(e), IF ok THEN "accepted" ELSE "refused", objs' = IF ok THEN Put(e.o, [o EXCEPT !.pub = <<e.x, e.y>>]) ELSE objs)
TPubOf(e) == Accept(TRUE, "", objs' = Put(e.o, [Fresh("pub", objs[e.from].h) EXCEPT !.pub = objs[e.from].pub]))
TCopy(e) == Accept(TRUE, "", objs' = Put(e.o, objs[e.from]))
\* an object without a key may say anything
TGet(e) == LET o == objs[e.o] IN Accept(IF o.pub = <<>> THEN TRUE ELSE e.d = o.d /\ <<e.x, e.y>> = o.pub /\ e.guard, <<o.d, o.pub>>, Keep)

\* signatures
TSign(e) ==
    LET o == objs[e.o]
        dg == TLCEval(EOf(o.h, e.id, o.pub, e.msg))
        F(k) == SignWith(o.d, dg, k)
        s == TLCEval(After(F, e.rnd, NMinus(1)))
    IN  IF ~IdOk(e.id) THEN Accept(Err(e), "identity too long", Keep)
        ELSE IF e.starve THEN Accept(~Fine(e) /\ Starved(F, e.rnd, NMinus(1)), <<"no randomness">>, Keep)
        ELSE Accept(Fine(e) /\ e.guard /\ s # Redo /\ e.sig = s, <<"signature", s>>, Keep)
TVerify(e) ==
    LET o == objs[e.o]
        ok == TLCEval(IdOk(e.id) /\ VerifyOk(o.pub, EOf(o.h, e.id, o.pub, e.msg), e.sig))
    IN  Accept(e.err = "" /\ e.ret = ok, <<"verify", ok>>, Keep)
\* the same with identities and messages of any length n, written in 8 bytes.
\* An identity that fits ENTL is short enough to write down; of the message
\* the hash functions used here see no more than the tail
HugeId(e) == BCmp(e.idn, <<31, 255>>) > 0
IdLen(b) == FoldLeft(LAMBDA a, x : 256 * a + x, 0, b)
HugeE(e) == EOf(objs[e.o].h, Fill(97, IdLen(e.idn)), objs[e.o].pub, Fill(98, 64) \o e.tail)
TSignHuge(e) ==
    LET o == objs[e.o]
        dg == TLCEval(HugeE(e))
        F(k) == SignWith(o.d, dg, k)
        s == TLCEval(After(F, e.rnd, NMinus(1)))
    IN  IF HugeId(e) THEN Accept(Err(e), "identity too long", Keep)
        ELSE Accept(o.h \in {"tail20", "tail32", "tail64"} /\ Fine(e) /\ e.guard /\ s # Redo /\ e.sig = s, <<"signature", s>>, Keep)
TVerifyHuge(e) ==
    LET ok == TLCEval(IF HugeId(e) THEN FALSE ELSE VerifyOk(objs[e.o].pub, HugeE(e), e.sig))
    IN  Accept(e.err = "" /\ e.ret = ok, <<"verify", ok>>, Keep)

\* encryption
\* announced lengths of n bytes, the first of which is given
TLens(e) ==
    LET h == objs[e.o].h
        head == EncLen(SM2Curve, e.first) + HashLen(h)
        bad == EncLen(SM2Curve, e.first) = 0 \/ BLt(e.n, BInt(head))
    IN  Accept(/\ BEq(e.clen, BAdd(e.n, BInt(CipherLen(h, 0, e.form))))
               /\ IF bad THEN Err(e) ELSE Fine(e) /\ BEq(e.plen, BSub(e.n, BInt(head))), <<"lengths", bad>>, Keep)
TEncrypt(e) ==
    LET o == objs[e.o]
        F(k) == EncryptWith(o.h, o.pub, e.msg, e.form, k)
        c == TLCEval(After(F, e.rnd, NMinus(1)))
    IN  IF e.starve THEN Accept(~Fine(e) /\ Starved(F, e.rnd, NMinus(1)), <<"no randomness">>, Keep)
        ELSE Accept(Fine(e) /\ e.guard /\ e.clen = CipherLen(o.h, Len(e.msg), e.form) /\ c # Redo /\ e.out = c /\ e.outl = Len(c), <<"ciphertext", c>>, Keep)
TDecrypt(e) ==
    LET o == objs[e.o]
        n == PlainLen(o.h, e.in)
        m == TLCEval(Decrypt(o.h, o.d, e.in))
    IN  Accept(/\ IF n < 0 THEN e.plerr = "runtime_error" ELSE e.plerr = "" /\ e.plen = n
               /\ IF m = NoPlain THEN Err(e) ELSE Fine(e) /\ e.out = m /\ e.outl = Len(m)
               /\ e.guard, <<"plaintext", n, m>>, Keep)

\* encryption of n copies of one byte, observed at the head and in windows.
\* The key stream is not zero as soon as one window is not
TEncBig(e) ==
    LET o == objs[e.o]
        hl == Len(EncPoint(e.form, SM2G))
        k == Nonce(Draw(e.rnd, 1), NMinus(1))
        Q == TLCEval(SM2Mul(k, o.pub))
        w == TLCEval(KdfWin(o.h, Q[1] \o Q[2], e.offs[1]))
        expect == [head |-> EncPoint(e.form, SM2Mul(k, SM2G)) \o SM3Long(Q[1], e.byte, e.n, Q[2]),
                   win |-> FlattenSeq([i \in 1..Len(e.offs) |-> XorB(KdfWin(o.h, Q[1] \o Q[2], e.offs[i]), Fill(e.byte, 32))])]
    IN  Accept(/\ Fine(e) /\ e.guard /\ Len(e.rnd) = 32 /\ BLt(e.rnd, NMinus(1)) /\ w # Zeros(32)
               /\ e.clen = hl + 32 + e.n /\ e.outl = e.clen /\ e.head = expect.head /\ e.win = expect.win,
               expect, objs' = Put("@", [byte |-> e.byte, n |-> e.n, pub |-> o.pub]))
TDecBig(e) ==
    LET m == objs["@"]
    IN  Accept(/\ e.guard /\ e.plen = m.n
               /\ IF e.changed \/ objs[e.o].pub # m.pub THEN Err(e)
                  ELSE Fine(e) /\ e.outl = m.n /\ e.runs = <<<<m.byte, m.n>>>>, <<"plaintext", m>>, Keep)

\* more than 2^32 bytes under a hash function whose value is the tail of its data (64 bytes)
TEncHuge(e) ==
    LET o == objs[e.o]
        hl == HashLen(o.h)
        hd == CipherLen(o.h, 0, e.form)
        k == Nonce(Draw(e.rnd, 1), NMinus(1))
        Q == TLCEval(SM2Mul(k, o.pub))
        head == EncPoint(e.form, SM2Mul(k, SM2G)) \o HashOf(o.h, Fill(e.byte, hl) \o Q[2])
        blocks == BDivMod(BAdd(e.n, BInt(hl - 1)), BInt(hl))[1]  \* how many
    IN  Accept(/\ o.h = "tail64" /\ Fine(e) /\ e.guard /\ Len(e.rnd) = 32
               /\ BEq(e.clen, BAdd(e.n, BInt(hd))) /\ BEq(e.outl, e.clen) /\ e.head = head
               /\ Len(e.at) = Len(e.wins) /\ Len(e.at) > 1 /\ BEq(BInt(e.at[Len(e.at)]), blocks)
               /\ (\A i \in 1..Len(e.at) : LET ks == HashOf(o.h, Q[1] \o Q[2] \o IntBE(e.at[i], 4))
                                             IN  /\ (i < Len(e.at) => Len(e.wins[i]) = hl)
                                                 /\ Len(e.wins[i]) > 0
                                                 /\ e.wins[i] = XorB(Fill(e.byte, Len(e.wins[i])), Take(ks, Len(e.wins[i])))),
               <<"ciphertext", head>>, objs' = Put("@", [byte |-> e.byte, n |-> e.n, pub |-> o.pub]))
TDecHuge(e) ==
    LET m == objs["@"]
    IN  Accept(/\ e.guard /\ BEq(e.plen, m.n)
               /\ IF e.changed \/ objs[e.o].pub # m.pub THEN Err(e) ELSE Fine(e) /\ e.other = 0 /\ e.byte = m.byte /\ BEq(e.outl, m.n),
               <<"plaintext", m>>, Keep)
\* the counter of the key stream has 32 bits: 2^32 - 1 blocks and more are refused
TBound(e) ==
    LET max == BMul(<<255, 255, 255, 255>>, BInt(HashLen(objs[e.o].h)))
    IN  Accept(BLe(max, e.n) /\ Err(e), <<"too long">>, Keep)

\* points of the curve (internal interface)
TMul(e) == LET Q == TLCEval(SM2Mul(e.k, e.p)) IN Accept(e.out = Q, <<"multiple", Q>>, Keep)
TAdd(e) == LET Q == TLCEval(ECAdd(SM2Curve, e.p, e.q)) IN Accept(e.out = Q, <<"sum", Q>>, Keep)
TDec(e) == LET P == TLCEval(DecPoint(SM2Curve, e.in))
           IN  Accept(IF P = NoPoint THEN ~e.ok ELSE e.ok /\ e.p = P /\ e.n = EncLen(SM2Curve, e.in[1]), <<"point", P>>, Keep)
TEnc(e) == LET r == EncPoint(e.form, e.p) IN Accept(e.out = r /\ e.guard, <<"encoding", r>>, Keep)
TNeg(e) == LET r == ECNeg(SM2Curve, e.p) IN Accept(e.out = r, <<"opposite", r>>, Keep)
TEq(e) == Accept(e.out = (e.p = e.q), <<"equal", e.p = e.q>>, Keep)
TOn(e) == LET r == OnCurve(SM2Curve, e.p) IN Accept(e.out = r, <<"on the curve", r>>, Keep)
TPrime(e) == Accept(PrimeOk(e, SM2P, SM2N), <<"field", e.f>>, Keep)

TraceInit == TraceStart /\ objs = [x \in {} |-> 0]
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "new" -> TNew(e)
             [] e.op = "setpriv" -> TSetPriv(e)
             [] e.op = "genpriv" -> TGenPriv(e)
             [] e.op = "setpub" -> TSetPub(e)
             [] e.op = "pubof" -> TPubOf(e)
             [] e.op = "copy" -> TCopy(e)
             [] e.op = "get" -> TGet(e)
             [] e.op = "sign" -> TSign(e)
             [] e.op = "verify" -> TVerify(e)
             [] e.op = "signhuge" -> TSignHuge(e)
             [] e.op = "verifyhuge" -> TVerifyHuge(e)
             [] e.op = "lens" -> TLens(e)
             [] e.op = "enchuge" -> TEncHuge(e)
             [] e.op = "dechuge" -> TDecHuge(e)
             [] e.op = "bound" -> TBound(e)
             [] e.op = "enc" -> TEncrypt(e)
             [] e.op = "dec" -> TDecrypt(e)
             [] e.op = "encbig" -> TEncBig(e)
             [] e.op = "decbig" -> TDecBig(e)
             [] e.op = "mul" -> TMul(e)
             [] e.op = "add" -> TAdd(e)
             [] e.op = "pdec" -> TDec(e)
             [] e.op = "penc" -> TEnc(e)
             [] e.op = "neg" -> TNeg(e)
             [] e.op = "eq" -> TEq(e)
             [] e.op = "on" -> TOn(e)
             [] e.op = "pf" -> TPrime(e)
             [] OTHER -> Reject(e.op)
=============================================================================
