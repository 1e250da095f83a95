---------------------------- MODULE GcmBigCheck ----------------------------
(* GcmBig agrees with the definitions of SP 800-38D on short messages. *)
EXTENDS GcmBig
VARIABLE i
C == "toy16p2"
Key(k) == [j \in 1..16 |-> (k * 57 + 13 * j) % 256]
Iv(k) == [j \in 1..12 |-> (k * 101 + 7 * j) % 256]
Sizes == <<0, 1, 2, 253, 254, 255, 256, 509, 510, 511, 513, 780>>
Agree(k) ==
    LET nb == Sizes[1 + (k % Len(Sizes))]  r == (k * 5) % 16  anb == (k * 3) % 40  ar == (k * 11) % 16
        b == (k * 31) % 256  ab == (k * 17) % 256
        m == Fill(b, 16 * nb + r)
        h == GcmH(C, Key(k))
        ct == TLCEval(StdGcmText(C, Key(k), Iv(k), m))
    IN  /\ 16 * anb + ar \in {0, 12} \/ LongJ0(h, ab, anb, ar) = GcmJ0(h, Fill(ab, 16 * anb + ar))
        /\ \A j \in {0, nb \div 2, nb - 1} : j < 0 \/ j >= nb \/ Block(ct, 16, j + 1) = BigText(C, Key(k), Iv(k), b, j)
        /\ BigTag(C, Key(k), Iv(k), ab, anb, ar, b, nb, r) = StdGcmTag(C, Key(k), Iv(k), Fill(ab, 16 * anb + ar), ct)
\* the step from one level to the next is the same at every level: level 2 against 256 steps of level 1
UpAgrees == LET h == GcmH(C, Key(1))  P == Parts(C, Key(1), Iv(1))  L == TLCEval(Levels(h, P))
                k0 == Ks(C, Key(1), Iv(1), 0)
                X(y, d) == CtrSum(L, P, k0, y, 65536 + 256 * (d - 1), 65536 + 256 * d)
            IN  FoldLeft(X, Zeros(16), [d \in 1..256 |-> d]) = CtrSum(L, P, k0, Zeros(16), 65536, 131072)
GInit == i \in 1..24
GNext == UNCHANGED <<i, objs>>
Spec == GInit /\ objs = <<>> /\ [][GNext]_<<i, objs>>
Inv == Agree(i) /\ (i = 1 => UpAgrees)
=============================================================================
