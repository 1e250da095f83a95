----------------------------- MODULE Asn1Model -----------------------------
(***************************************************************************)
(* Every byte string over Alphabet up to MaxLen, grown byte by byte, and   *)
(* the decoders on it; every integer and bit string the string denotes,    *)
(* encoded and decoded again.                                              *)
(***************************************************************************)
EXTENDS ASN1, Json, FiniteSets
CONSTANTS Alphabet, MaxLen, Emit
VARIABLE s
AInit == s = <<>>
ANext == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
ASpec == AInit /\ [][ANext]_s

\* an accepted element lies within the input; what follows does not matter
Inside == LET e == Elem(s) IN e.ok =>
    /\ e.off + e.len = e.size /\ e.size <= Len(s)
    /\ Elem(Take(s, e.size)) = e /\ ~Elem(Take(s, e.size - 1)).ok
    /\ \A d \in {DecInt(s), DecOctets(s), DecBits(s)} : d.ok => d.off >= e.off /\ d.off + d.len <= e.size
\* at most one type accepts, and DER content is the only content of a value
Types == Cardinality({i \in 1..7 : <<DecBool(s), DecInt(s), DecBits(s), DecOctets(s), DecNull(s), DecOf(IdSeq, s), DecOf(IdSet, s)>>[i].ok}) <= 1
Canonical == LET e == Elem(s)  d == DecInt(s) IN
    (d.ok /\ s[e.off + 1] < 128 /\ LenOctets(BInt(e.len)) = SubSeq(s, 2, e.off))
        => DER(IdInt, IntContent(SubSeq(s, d.off + 1, d.off + d.len))) = Take(s, e.size)
\* encode, then decode
RoundTrip ==
    /\ LET x == DER(IdInt, IntContent(s))  d == DecInt(x) IN
         d.ok /\ d.size = Len(x) /\ BCmp(SubSeq(x, d.off + 1, d.off + d.len), s) = 0
    /\ LET x == DER(IdOctets, s)  d == DecOctets(x) IN d.ok /\ SubSeq(x, d.off + 1, d.off + d.len) = s
    /\ \A u \in 0..7 : (u = 0 \/ s # <<>>) =>
         LET x == DER(IdBits, BitsContent(s, 8 * Len(s) - u))  d == DecBits(x) IN
             d.ok /\ d.bits = 8 * Len(s) - u /\ SubSeq(x, d.off + 1, d.off + d.len) = s
    /\ LET x == DER(IdSeq, s) IN DecOf(IdSeq, x).ok /\ DumpLines(x, 0).ok = DumpLines(s, 1).ok
    /\ BCmp(ElemSize(BInt(Len(s))), BInt(Len(DER(IdOctets, s)))) = 0
\* the structure decoders accept what the encoders make
Structure == LET v == Pad(s, 32)  w == RevB(v)  x == EncSig(v, w) IN
    /\ DecSig(x).ok /\ DecSig(x).f = <<v, w>> /\ DecSig(x).size = Len(x) /\ ~DecSig(x).open
    /\ DecPriv(EncPriv(v)).f = <<v>>
    /\ ~DecSig(x \o s).ok \/ DecSig(x \o s).size = Len(x)
    /\ ~DecSig(DER(IdSeq, Drop(x, 2) \o <<5, 0>>)).ok
    /\ LET c == EncCipher(v, w, s, v) IN DecCipher(c).f = <<v, w, s, v>> /\ ~DecSig(c).ok
Emitted == Emit => PrintT("BEH " \o ToJson([s |-> s]))
Inv == Inside /\ Types /\ Canonical /\ RoundTrip /\ Structure /\ Emitted
=============================================================================
