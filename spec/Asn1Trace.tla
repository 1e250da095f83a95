----------------------------- MODULE Asn1Trace -----------------------------
(* Recorded calls of the ASN.1 encoders, decoders and the dump. *)
EXTENDS ASN1, TraceIO
TNone == UNCHANGED <<>>

\* ---- decoders: every one of them on the same input ----
\* a result is <<rc, ...>>; the rest only counts when rc = 0
Agrees(r, d, fields) == IF d.ok THEN r[1] = 0 /\ Tail(r) = fields ELSE r[1] # 0
TDec(e) ==
    LET in == e.in
        x == Elem(in)
        b == DecBool(in)  i == DecInt(in)  bs == DecBits(in)  o == DecOctets(in)
        n == DecNull(in)  sq == DecOf(IdSeq, in)  st == DecOf(IdSet, in)
        open == MayRefuse(in)
        place(d) == IF d.ok THEN <<d.off, d.len, d.size>> ELSE <<>>
        bad == {k \in {"tlv", "bool", "int", "bits", "octets", "null", "seq", "set"} :
            ~(CASE k = "tlv" -> Agrees(e.tlv, x, IF x.ok THEN <<x.cls, x.pc, x.num, x.off, x.len, x.size>> ELSE <<>>)
                [] k = "bool" -> Agrees(e.bool, b, IF b.ok THEN <<IF b.v THEN 1 ELSE 0, b.size>> ELSE <<>>)
                [] k = "int" -> Agrees(e.int, i, place(i))
                [] k = "bits" -> Agrees(e.bits, bs, IF bs.ok THEN <<bs.off, bs.len, bs.bits, bs.size>> ELSE <<>>)
                                 \/ (open /\ e.bits[1] # 0)
                [] k = "octets" -> Agrees(e.octets, o, place(o)) \/ (open /\ e.octets[1] # 0)
                [] k = "null" -> Agrees(e.null, n, IF n.ok THEN <<n.size>> ELSE <<>>)
                [] k = "seq" -> Agrees(e.seq, sq, place(sq))
                [] k = "set" -> Agrees(e.set, st, place(st)))}
    IN  Accept(bad = {} /\ e.guard, <<"decode", bad, x>>, TNone)

\* ---- encoders ----
Enc(e, r, back) == Accept(e.out = r /\ e.outl = Len(r) /\ e.said = Len(r) /\ e.max >= Len(r) /\ e.guard /\ back, <<"encoding", Len(r), Take(r, IF Len(r) < 40 THEN Len(r) ELSE 40)>>, TNone)
TEnc(e) ==
    LET r == CASE e.op = "ebool" -> DER(IdBool, BoolContent(e.v))
               [] e.op = "eint" -> DER(IdInt, IntContent(e.in))
               [] e.op = "ebits" -> DER(IdBits, BitsContent(e.in, e.bits))
               [] e.op = "eoct" -> DER(IdOctets, e.in)
        \* decoding the result gives the value back
        back == CASE e.op = "ebool" -> e.back = (IF e.v THEN <<1>> ELSE <<0>>)
                  [] e.op = "eint" -> e.back = (IF Norm(e.in) = <<>> THEN <<0>> ELSE Norm(e.in))
                  [] OTHER -> e.back = e.in
    IN  Enc(e, r, back)
\* tag and length of a string or collection of the given size (8 bytes)
TTl(e) ==
    LET id == CASE e.kind = "bits" -> 35 [] e.kind = "octets" -> 36 [] e.kind = "seq" -> IdSeq [] e.kind = "set" -> IdSet
        r == TL(id, Norm(e.n))
    IN  Accept(e.out = r /\ e.outl = Len(r) /\ e.guard, <<"tag and length", r>>, TNone)
\* announced sizes for contents of the given size
TOutl(e) ==
    LET r == Pad(ElemSize(Norm(e.n)), 8)
    IN  Accept(e.tlv = r /\ e.octets = r /\ e.seq = r /\ e.set = r /\ e.bits = Pad(ElemSize(BAdd(Norm(e.nb), BOne)), 8), <<"size", r>>, TNone)

\* ---- more than 2^32 bytes ----
HugeKinds == {"tlv", "int", "bits", "octets", "seq", "set"}
HugeBad(e, h, b, n) == {k \in HugeKinds : ~(e[k] = HugeDec(k, h, b, n) \/ (k \in {"bits", "octets"} /\ h[1] >= 32 /\ e[k] = <<>>))}
THugeDec(e) == LET bad == HugeBad(e, e.h, e.b, e.n) IN Accept(bad = {}, <<"decode", bad, [k \in bad |-> HugeDec(k, e.h, e.b, e.n)]>>, TNone)
THugeEnc(e) ==
    LET h == HugeHead(e.kind, e.b, e.u, e.n)
        size == B8(BAdd(BInt(Len(h)), Norm(e.n)))
        head == h \o [i \in 1..(40 - Len(h)) |-> e.b]
    IN  Accept(/\ e.head = head /\ e.tail = [i \in 1..64 |-> e.b] /\ e.said = size /\ e.outl = size /\ BLe(size, e.max) /\ e.guard
               /\ HugeBad(e, head, e.b, size) = {}, <<"encoding", size, head>>, TNone)

\* ---- SM2 structures ----
TSm2Enc(e) ==
    LET r == CASE e.kind = "priv" -> EncPriv(e.f[1]) [] e.kind = "pub" -> EncPub(e.f[1])
               [] e.kind = "sig" -> EncSig(e.f[1], e.f[2]) [] e.kind = "cipher" -> EncCipher(e.f[1], e.f[2], e.f[3], e.f[4])
    IN  Accept(e.out = r /\ e.outl = Len(r) /\ e.said = Len(r) /\ e.max >= Len(r) /\ e.guard, <<"structure", Len(r), r>>, TNone)
TSm2Dec(e) ==
    LET d == CASE e.kind = "priv" -> DecPriv(e.in) [] e.kind = "pub" -> DecPub(e.in)
               [] e.kind = "sig" -> DecSig(e.in) [] e.kind = "cipher" -> DecCipher(e.in)
    IN  IF d.ok /\ d.short /\ e.rc # 0
        THEN Known("sm2-asn1-leading-zero", e.guard, TNone)
        ELSE Accept(e.guard /\ IF d.ok THEN (d.open /\ e.rc # 0) \/ (e.rc = 0 /\ e.f = d.f /\ e.size = d.size) ELSE e.rc # 0,
                    <<"decode", d>>, TNone)

\* ---- dump ----
TDump(e) ==
    LET d == DumpLines(e.in, 0)
    IN  Accept(e.guard /\ IF d.ok THEN e.rc = 0 /\ e.lines = Append(d.v, "") ELSE e.rc # 0, <<"dump", d.ok, d.v>>, TNone)
\* a deep chain: e.ind is the indentation of each line, e.rest the rest of it; the innermost holds
\* primitive elements of at most eight bytes
TDeep(e) ==
    LET c == TLCEval(DumpChain(e.in, e.depth))
        d == TLCEval(DumpLines(c.in, 0))
        n == e.depth
        Right == e.rc = 0 /\ e.nl /\ Len(e.rest) = n + Len(d.v) /\ Len(e.ind) = Len(e.rest)
                 /\ SubSeq(e.rest, 1, n) = c.v /\ (\A i \in 1..n : e.ind[i] = i - 1)
                 /\ (\A j \in 1..Len(d.v) : Indent(e.ind[n + j] - n) \o e.rest[n + j] = d.v[j])
    IN  Accept(c.ok /\ e.guard /\ (IF d.ok THEN Right ELSE e.rc # 0), <<"deep dump", c.ok, d.ok>>, TNone)

TraceInit == TraceStart
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "dec" -> TDec(e)
             [] e.op \in {"ebool", "eint", "ebits", "eoct"} -> TEnc(e)
             [] e.op = "dhuge" -> THugeDec(e)
             [] e.op = "ehuge" -> THugeEnc(e)
             [] e.op = "tl" -> TTl(e)
             [] e.op = "outl" -> TOutl(e)
             [] e.op = "s2e" -> TSm2Enc(e)
             [] e.op = "s2d" -> TSm2Dec(e)
             [] e.op = "adump" -> TDump(e)
             [] e.op = "adeep" -> TDeep(e)
             [] OTHER -> Reject(e.op)
=============================================================================
