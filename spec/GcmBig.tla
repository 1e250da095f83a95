------------------------------- MODULE GcmBig -------------------------------
(***************************************************************************)
(* GCM on messages too long to write down: additional data and plaintext   *)
(* that repeat one byte, up to 2^31 blocks, over the toy cipher, whose     *)
(* output is a sum of functions of the single counter bytes.  GHASH of the *)
(* whole is then found by composing affine maps y -> y*p + a.              *)
(* GcmBigCheck compares this with the definitions for small lengths.       *)
(***************************************************************************)
EXTENDS BlockModes

GOne == <<128>> \o Zeros(15)
App(f, y) == XorB(GMul(y, f.p), f.a)
\* absorbing n blocks x
RECURSIVE RepMap(_, _, _)
RepMap(h, x, n) ==
    IF n = 0 THEN [p |-> GOne, a |-> Zeros(16)]
    ELSE LET f == TLCEval(RepMap(h, x, n \div 2))
             d == TLCEval([p |-> GMul(f.p, f.p), a |-> XorB(GMul(f.a, f.p), f.a)])
         IN  IF n % 2 = 0 THEN d ELSE [p |-> GMul(d.p, h), a |-> GMul(XorB(d.a, x), h)]
\* GHASH of nb blocks and r bytes, all of value b, padded
GRep(y, h, b, nb, r) ==
    LET y1 == TLCEval(App(RepMap(h, Fill(b, 16), nb), y))
    IN  IF r = 0 THEN y1 ELSE GMul(XorB(y1, Fill(b, r) \o Zeros(16 - r)), h)

\* the cipher output for the counter block pre || ctr (pre: 12 bytes)
Ks(c, key, pre, ctr) == BlkE(c, EncKS(c, key), pre \o IntBE(ctr, 4))
\* its part that depends on counter byte j (0: the lowest)
Part(c, key, pre, j, d) == XorB(Ks(c, key, pre, 0), BlkE(c, EncKS(c, key), pre \o [i \in 1..4 |-> IF i = 4 - j THEN d ELSE 0]))
Parts(c, key, pre) == TLCEval([j \in 0..3 |-> TLCEval([d \in 0..255 |-> TLCEval(Part(c, key, pre, j, d))])])

\* level l: 256^l counters from a multiple of it.  y -> y*p + w + k*g where k
\* is the sum of the plaintext block, the constant part and the higher parts
Lvl0(h) == [p |-> h, g |-> h, w |-> Zeros(16)]
Up(L, T) ==
    LET step(s, d1) ==
            [p |-> TLCEval(GMul(s.p, L.p)),
             g |-> TLCEval(XorB(GMul(s.g, L.p), L.g)),
             w |-> TLCEval(XorB(GMul(s.w, L.p), XorB(L.w, GMul(T[d1 - 1], L.g))))]
    IN  FoldLeft(step, [p |-> GOne, g |-> Zeros(16), w |-> Zeros(16)], [i \in 1..256 |-> i])
Levels(h, P) == LET l0 == Lvl0(h)  l1 == TLCEval(Up(l0, P[0]))  l2 == TLCEval(Up(l1, P[1]))  l3 == TLCEval(Up(l2, P[2]))
                IN  <<l0, l1, l2, l3>>
Pow256(l) == CASE l = 0 -> 1 [] l = 1 -> 256 [] l = 2 -> 65536 [] l = 3 -> 16777216
Digit(x, j) == (x \div Pow256(j)) % 256
\* absorb the ciphertext blocks of the counters lo .. hi - 1
RECURSIVE CtrSum(_, _, _, _, _, _)
CtrSum(L, P, k0, y, lo, hi) ==
    IF lo >= hi THEN y
    ELSE LET l == CHOOSE l \in 0..3 : /\ lo % Pow256(l) = 0 /\ lo + Pow256(l) <= hi
                                      /\ \A m \in (l + 1)..3 : lo % Pow256(m) # 0 \/ lo + Pow256(m) > hi
             X(acc, j) == IF j < l THEN acc ELSE XorB(acc, P[j][Digit(lo, j)])
             k == TLCEval(FoldLeft(X, k0, <<0, 1, 2, 3>>))
             f == L[l + 1]
         IN  CtrSum(L, P, k0, TLCEval(XorB(GMul(y, f.p), XorB(f.w, GMul(k, f.g)))), lo + Pow256(l), hi)

\* everything about one message: 12-byte IV, aad = ab repeated (anb blocks and ar bytes),
\* plaintext b repeated (nb blocks and r bytes)
BigText(c, key, iv, b, i) == XorB(Ks(c, key, iv, 2 + i), Fill(b, 16)) \* ciphertext block i, from 0
Bits(nb, r) == Shl(AddBE(Shl(IntBE(nb, 8), 4), IntBE(r, 8)), 3)
BigTag(c, key, iv, ab, anb, ar, b, nb, r) ==
    LET h == TLCEval(GcmH(c, key))
        P == Parts(c, key, iv)
        L == TLCEval(Levels(h, P))
        y0 == TLCEval(GRep(Zeros(16), h, ab, anb, ar))
        y1 == TLCEval(CtrSum(L, P, XorB(Ks(c, key, iv, 0), Fill(b, 16)), y0, 2, 2 + nb))
        y2 == IF r = 0 THEN y1 ELSE GMul(XorB(y1, Take(BigText(c, key, iv, b, nb), r) \o Zeros(16 - r)), h)
        s == GMul(XorB(y2, Bits(anb, ar) \o Bits(nb, r)), h)
    IN  XorB(s, Ks(c, key, iv, 1))

\* the counter block for an IV of nb blocks and r bytes b (not twelve bytes)
LongJ0(h, b, nb, r) == GMul(XorB(GRep(Zeros(16), h, b, nb, r), Zeros(8) \o Bits(nb, r)), h)
=============================================================================
