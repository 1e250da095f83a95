-------------------------------- MODULE ASN1 --------------------------------
(***************************************************************************)
(* X.690: identifier, length and contents octets of the types the library  *)
(* handles, encoding (DER) and decoding; and the text of an ASN.1 dump.    *)
(* Lengths are naturals; a length that does not fit TLC's integers is a    *)
(* byte string (BigNum) until it has been compared with the input.         *)
(***************************************************************************)
EXTENDS BigNum

\* ---- encoding ----
\* length octets of a length given as a big number
LenOctets(l) == IF BCmp(l, <<128>>) < 0 THEN Pad(l, 1) ELSE <<128 + Len(Norm(l))>> \o Norm(l)
TL(id, l) == <<id>> \o LenOctets(l)
DER(id, content) == TL(id, BInt(Len(content))) \o content
\* the size of an element with contents of the given (big) size
ElemSize(l) == BAdd(BInt(1 + Len(LenOctets(l))), l)

IdBool == 1  IdInt == 2  IdBits == 3  IdOctets == 4  IdNull == 5  IdSeq == 48  IdSet == 49
BoolContent(v) == <<IF v THEN 255 ELSE 0>>
\* a non-negative integer: minimal two's complement
IntContent(d) == LET n == Norm(d) IN IF n = <<>> \/ n[1] >= 128 THEN <<0>> \o n ELSE n
\* bits: the number of bits; the data has (bits + 7) div 8 bytes
BitsContent(d, bits) == <<(8 - (bits % 8)) % 8>> \o d

\* ---- decoding one element ----
Bad == [ok |-> FALSE]
Elem(in) ==
    IF Len(in) < 2 \/ in[1] % 32 = 31 \/ in[2] = 128 THEN Bad
    ELSE LET k == IF in[2] < 128 THEN 0 ELSE in[2] - 128
             l == IF in[2] < 128 THEN <<in[2]>> ELSE SubSeq(in, 3, 2 + k)
             h == 2 + k
         IN  IF k > 8 \/ Len(in) < h \/ BCmp(l, BInt(Len(in) - h)) > 0 THEN Bad
             ELSE [ok |-> TRUE, cls |-> 64 * (in[1] \div 64), pc |-> 32 * ((in[1] \div 32) % 2), num |-> in[1] % 32,
                   id |-> in[1], off |-> h, len |-> BEInt(Norm(l)), size |-> h + BEInt(Norm(l))]
Content(in, e) == SubSeq(in, e.off + 1, e.off + e.len)
Constructed(e) == e.pc = 32
Universal(e) == e.cls = 0

\* typed decoders: [ok, off, len] of the value inside the input, and the size
Fit(e, off, len) == [ok |-> TRUE, off |-> off, len |-> len, size |-> e.size]
DecBool(in) == LET e == Elem(in) IN
    IF e.ok /\ e.id = IdBool /\ e.len = 1 THEN [ok |-> TRUE, v |-> in[e.off + 1] # 0, size |-> e.size] ELSE Bad
DecInt(in) == LET e == Elem(in)  c == Content(in, e) IN
    IF ~e.ok THEN Bad
    ELSE IF e.id # IdInt \/ e.len = 0 THEN Bad
    ELSE IF e.len > 1 /\ ((c[1] = 0 /\ c[2] < 128) \/ (c[1] = 255 /\ c[2] >= 128)) THEN Bad
    ELSE IF e.len > 1 /\ c[1] = 0 THEN Fit(e, e.off + 1, e.len - 1) ELSE Fit(e, e.off, e.len)
\* the primitive form; the constructed form is left open (MayRefuse)
DecBits(in) == LET e == Elem(in)  c == Content(in, e) IN
    IF ~e.ok THEN Bad
    ELSE IF ~Universal(e) \/ e.num # IdBits \/ e.len = 0 THEN Bad
    ELSE IF c[1] > 7 \/ (e.len = 1 /\ c[1] # 0) THEN Bad
    ELSE [ok |-> TRUE, off |-> e.off + 1, len |-> e.len - 1, bits |-> 8 * (e.len - 1) - c[1], size |-> e.size]
DecOctets(in) == LET e == Elem(in) IN
    IF ~e.ok THEN Bad
    ELSE IF ~Universal(e) \/ e.num # IdOctets THEN Bad ELSE Fit(e, e.off, e.len)
MayRefuse(in) == LET e == Elem(in) IN e.ok /\ Constructed(e)
DecNull(in) == LET e == Elem(in) IN IF ~e.ok THEN Bad ELSE IF e.id # IdNull \/ e.len # 0 THEN Bad ELSE Fit(e, e.off, 0)
DecOf(id, in) == LET e == Elem(in) IN IF ~e.ok THEN Bad ELSE IF e.id # id THEN Bad ELSE Fit(e, e.off, e.len)

\* ---- inputs of any size: n bytes (big), of which the first are h and all others b ----
\* results as above with sizes as big numbers of 8 bytes; Len(h) >= 12
At(h, b, i) == IF i <= Len(h) THEN h[i] ELSE b
HugeElem(h, b, n) ==
    IF h[1] % 32 = 31 \/ h[2] = 128 THEN Bad
    ELSE LET k == IF h[2] < 128 THEN 0 ELSE h[2] - 128
             l == IF h[2] < 128 THEN <<h[2]>> ELSE SubSeq(h, 3, 2 + k)
             s == BAdd(BInt(2 + k), l)
         IN  IF k > 8 \/ BCmp(s, n) > 0 THEN Bad ELSE [ok |-> TRUE, id |-> h[1], off |-> 2 + k, len |-> l, size |-> s]
B8(x) == Pad(x, 8)
HugePlace(e, skip) == <<B8(BInt(e.off + skip)), B8(BSub(e.len, BInt(skip))), B8(e.size)>>
\* <<>> for a refusal
HugeDec(kind, h, b, n) ==
    LET e == HugeElem(h, b, n)
        c1 == At(h, b, e.off + 1)  c2 == At(h, b, e.off + 2)
        univ == e.id < 64
    IN  IF ~e.ok THEN <<>>
        ELSE CASE kind = "tlv" -> HugePlace(e, 0)
               [] kind = "int" -> IF e.id # IdInt \/ (c1 = 0 /\ c2 < 128) \/ (c1 = 255 /\ c2 >= 128) THEN <<>> ELSE HugePlace(e, IF c1 = 0 THEN 1 ELSE 0)
               [] kind = "bits" -> IF ~univ \/ e.id % 32 # IdBits \/ c1 > 7 THEN <<>>
                                   ELSE LET p == HugePlace(e, 1) IN <<p[1], p[2], B8(BSub(BMul(p[2], <<8>>), BInt(c1))), p[3]>>
               [] kind = "octets" -> IF ~univ \/ e.id % 32 # IdOctets THEN <<>> ELSE HugePlace(e, 0)
               [] kind = "seq" -> IF e.id # IdSeq THEN <<>> ELSE HugePlace(e, 0)
               [] kind = "set" -> IF e.id # IdSet THEN <<>> ELSE HugePlace(e, 0)
\* contents of n bytes of b (b # 0), the bit string without its last u bits
HugeContentHead(kind, b, u) == CASE kind = "int" -> (IF b >= 128 THEN <<0>> ELSE <<>>) [] kind = "bits" -> <<u>> [] kind = "octets" -> <<>>
HugeHead(kind, b, u, n) ==
    LET p == HugeContentHead(kind, b, u)
        l == BAdd(Norm(n), BInt(Len(p)))
    IN  TL(CASE kind = "int" -> IdInt [] kind = "bits" -> IdBits [] kind = "octets" -> IdOctets, l) \o p

\* ---- the SM2 structures ----
\* a list of elements that must fill the input: <<value, ...>> or failure
RECURSIVE Elems(_)
Elems(in) == IF in = <<>> THEN [ok |-> TRUE, v |-> <<>>]
             ELSE LET e == Elem(in) IN
                  IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>]
                  ELSE LET r == Elems(Drop(in, e.size)) IN [ok |-> r.ok, v |-> <<Take(in, e.size)>> \o r.v]
\* an INTEGER of at most 256 bits, as 32 bytes; short: it has leading zeros
UInt256(x) == LET d == DecInt(x) IN
    IF ~d.ok THEN [ok |-> FALSE, neg |-> FALSE]
    ELSE LET v == SubSeq(x, d.off + 1, d.off + d.len)
             e == Elem(x)
             neg == x[e.off + 1] >= 128
         IN  [ok |-> d.len <= 32, neg |-> neg, v |-> Pad(v, 32), short |-> d.len < 32]
Octets(x) == LET d == DecOctets(x) IN IF ~d.ok THEN Bad ELSE [ok |-> TRUE, v |-> SubSeq(x, d.off + 1, d.off + d.len), open |-> MayRefuse(x)]

EncPriv(v) == DER(IdInt, IntContent(v))
EncPub(v) == DER(IdBits, BitsContent(v, 520))
EncSig(r, s) == DER(IdSeq, DER(IdInt, IntContent(r)) \o DER(IdInt, IntContent(s)))
EncCipher(x, y, h, ct) == DER(IdSeq, DER(IdInt, IntContent(x)) \o DER(IdInt, IntContent(y)) \o DER(IdOctets, h) \o DER(IdOctets, ct))

\* results: ok, fields, size; open: either verdict is allowed (negative
\* integers, constructed strings); short: an integer has leading zero bytes
DecPriv(in) == LET e == Elem(in) IN
    IF ~e.ok THEN Bad
    ELSE LET u == UInt256(Take(in, e.size)) IN
         IF ~u.ok THEN Bad ELSE [ok |-> TRUE, f |-> <<u.v>>, size |-> e.size, open |-> u.neg, short |-> u.short]
DecPub(in) == LET d == DecBits(in) IN
    IF ~d.ok THEN Bad
    ELSE IF d.len # 65 \/ d.bits # 520 THEN Bad
    ELSE LET v == SubSeq(in, d.off + 1, d.off + 65)
         IN  [ok |-> TRUE, f |-> <<v>>, size |-> d.size, open |-> MayRefuse(in) \/ v[1] # 4, short |-> FALSE]
DecSig(in) == LET d == DecOf(IdSeq, in) IN
    IF ~d.ok THEN Bad
    ELSE LET l == Elems(SubSeq(in, d.off + 1, d.off + d.len)) IN
         IF ~l.ok \/ Len(l.v) # 2 THEN Bad
         ELSE LET r == UInt256(l.v[1])  s == UInt256(l.v[2]) IN
              IF ~r.ok \/ ~s.ok THEN Bad
              ELSE [ok |-> TRUE, f |-> <<r.v, s.v>>, size |-> d.size, open |-> r.neg \/ s.neg, short |-> r.short \/ s.short]
DecCipher(in) == LET d == DecOf(IdSeq, in) IN
    IF ~d.ok THEN Bad
    ELSE LET l == Elems(SubSeq(in, d.off + 1, d.off + d.len)) IN
         IF ~l.ok \/ Len(l.v) # 4 THEN Bad
         ELSE LET x == UInt256(l.v[1])  y == UInt256(l.v[2])  h == Octets(l.v[3])  c == Octets(l.v[4]) IN
              IF ~x.ok \/ ~y.ok \/ ~h.ok \/ ~c.ok THEN Bad
              ELSE [ok |-> TRUE, f |-> <<x.v, y.v, h.v, c.v>>, size |-> d.size,
                    open |-> x.neg \/ y.neg \/ h.open \/ c.open, short |-> x.short \/ y.short]

\* ---- the dump ----
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexText(b) == HexDigit[(b \div 16) + 1] \o HexDigit[(b % 16) + 1] \o " "
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))
HexLine(bs) == Concat([i \in 1..Len(bs) |-> HexText(bs[i])])
Indent(n) == Concat([i \in 1..n |-> "   "])
ClassName(c) == CASE c = 0 -> "UNIVERSAL" [] c = 64 -> "APPLICATION" [] c = 128 -> "CONTEXT_SPECIFIC" [] c = 192 -> "PRIVATE"
TagName == [n \in 0..30 |->
    CASE n = 0 -> "END_OF_CONTENTS" [] n = 1 -> "BOOLEAN" [] n = 2 -> "INTEGER" [] n = 3 -> "BIT_STRING"
      [] n = 4 -> "OCTET_STRING" [] n = 5 -> "NULL" [] n = 6 -> "OBJECT_IDENTIFIER" [] n = 7 -> "OBJECT_DESCRIPTOR"
      [] n = 8 -> "EXTERNAL" [] n = 9 -> "REAL" [] n = 10 -> "ENUMERATED" [] n = 12 -> "UTF8_STRING"
      [] n = 16 -> "SEQUENCE" [] n = 17 -> "SET" [] n = 18 -> "NUMERIC_STRING" [] n = 19 -> "PRINTABLE_STRING"
      [] n = 20 -> "TELETEX_STRING" [] n = 21 -> "VIDEOTEX_STRING" [] n = 22 -> "IA5_STRING" [] n = 23 -> "UTC_TIME"
      [] n = 24 -> "GENERALIZED_TIME" [] n = 25 -> "GRAPHIC_STRING" [] n = 26 -> "VISIBLE_STRING" [] n = 27 -> "GENERAL_STRING"
      [] n = 28 -> "UNIVERSAL_STRING" [] n = 30 -> "BMP_STRING" [] OTHER -> "UNKNOWN"]
\* the line of an element, not indented
DumpHead(in, e) ==
    HexLine(Take(in, e.off)) \o Indent(IF e.off < 9 THEN 9 - e.off ELSE 0)
      \o ";  " \o TagName[e.num] \o "(length = " \o ToString(e.len) \o " Bytes," \o ClassName(e.cls)
      \o (IF Constructed(e) THEN ",CONSTRUCTED)" ELSE ",PRIMITIVE)")
\* the lines of a dump, or failure
RECURSIVE DumpLines(_, _)
DumpLines(in, depth) ==
    IF in = <<>> THEN [ok |-> TRUE, v |-> <<>>]
    ELSE LET e == Elem(in) IN
    IF ~e.ok THEN [ok |-> FALSE, v |-> <<>>]
    ELSE LET head == Indent(depth) \o DumpHead(in, e)
             c == Content(in, e)
             rows == (e.len + 7) \div 8
             body == IF Constructed(e) THEN DumpLines(c, depth + 1)
                     ELSE [ok |-> TRUE, v |-> [i \in 1..rows |->
                            Indent(depth + 1) \o HexLine(SubSeq(c, 8 * i - 7, IF 8 * i < e.len THEN 8 * i ELSE e.len))]]
             rest == IF body.ok THEN DumpLines(Drop(in, e.size), depth) ELSE body
         IN  [ok |-> body.ok /\ rest.ok, v |-> <<head>> \o body.v \o rest.v]
\* the same for an input that is one element inside another, depth times: the lines without
\* their indentation (one step more for each), and what the innermost holds
DumpChain(in, depth) ==
    FoldLeft(LAMBDA st, i :
        LET e == Elem(st.in)
        IN  IF st.ok /\ e.ok /\ Constructed(e) /\ e.size = Len(st.in)
            THEN [ok |-> TRUE, in |-> Content(st.in, e), v |-> Append(st.v, DumpHead(st.in, e))]
            ELSE [st EXCEPT !.ok = FALSE], [ok |-> TRUE, in |-> in, v |-> <<>>], [i \in 1..depth |-> i])
=============================================================================
