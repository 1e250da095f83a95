--------------------------------- MODULE EC ---------------------------------
(***************************************************************************)
(* The group of an elliptic curve y^2 = x^3 + a x + b over the integers    *)
(* modulo a prime p > 3, in affine coordinates.  A curve is the record     *)
(* [p, a, b]; a point is <<x, y>> with coordinates of the length of p, and *)
(* <<>> is the point at infinity.                                          *)
(***************************************************************************)
EXTENDS BigNum

ECInf == <<>>
OnCurve(c, P) ==
    \/ P = ECInf
    \/ /\ BLt(P[1], c.p) /\ BLt(P[2], c.p)
       /\ BEq(MMul(P[2], P[2], c.p), MAdd(MMul(MAdd(MMul(P[1], P[1], c.p), c.a, c.p), P[1], c.p), c.b, c.p))
ECNeg(c, P) == IF P = ECInf THEN P ELSE <<P[1], Pad(MSub(BZero, P[2], c.p), Len(c.p))>>
\* chord and tangent
ECThird(c, P, Q, s) ==
    LET x == MSub(MSub(MMul(s, s, c.p), P[1], c.p), Q[1], c.p)
        y == MSub(MMul(s, MSub(P[1], x, c.p), c.p), P[2], c.p)
    IN  <<Pad(x, Len(c.p)), Pad(y, Len(c.p))>>
ECAddDef(c, P, Q) ==
    IF P = ECInf THEN Q
    ELSE IF Q = ECInf THEN P
    ELSE IF P[1] = Q[1]
         THEN IF P[2] # Q[2] \/ BIsZero(P[2]) THEN ECInf
              ELSE ECThird(c, P, Q, MMul(MAdd(MMul(<<3>>, MMul(P[1], P[1], c.p), c.p), c.a, c.p), MInv(MAdd(P[2], P[2], c.p), c.p), c.p))
         ELSE ECThird(c, P, Q, MMul(MSub(Q[2], P[2], c.p), MInv(MSub(Q[1], P[1], c.p), c.p), c.p))
ECAdd(c, P, Q) == ECAddDef(c, P, Q)
\* double and add over the bits of k, most significant first
RECURSIVE ECMulBits(_, _, _, _, _)
ECMulBits(c, k, P, j, acc) ==
    IF j = 8 * Len(k) THEN acc
    ELSE LET d == ECAddDef(c, acc, acc)
         IN  ECMulBits(c, k, P, j + 1, IF BitAt(k, j) = 1 THEN ECAddDef(c, d, P) ELSE d)
ECMulDef(c, k, P) == ECMulBits(c, k, P, 0, ECInf)
ECMul(c, k, P) == ECMulDef(c, k, P)

\* a square root modulo p, or <<>> (not a number below p of that length) if there is none;
\* p = 3 modulo 4 or p = 5 modulo 8
NoRoot == <<>>
RootCandidate(x, p) ==
    IF p[Len(p)] % 4 = 3 THEN MExp(x, BDivMod(BAdd(p, BOne), <<4>>)[1], p)
    ELSE LET x2 == MAdd(x, x, p)
             g == MExp(x2, BDivMod(BSub(p, <<5>>), <<8>>)[1], p)
             i == MMul(x2, MMul(g, g, p), p)
         IN  MMul(MMul(x, g, p), MSub(i, BOne, p), p)
Sqrt(x, p) == LET r == Pad(RootCandidate(x, p), Len(p)) IN IF BEq(MMul(r, r, p), BMod(x, p)) THEN r ELSE NoRoot

\* ---- encodings of points: 0x04/0x06/0x07 X Y, 0x02/0x03 X ----
Odd(v) == v[Len(v)] % 2
EncUncompressed(P) == <<4>> \o P[1] \o P[2]
EncCompressed(P) == <<2 + Odd(P[2])>> \o P[1]
EncHybrid(P) == <<6 + Odd(P[2])>> \o P[1] \o P[2]
EncPoint(form, P) == CASE form = "u" -> EncUncompressed(P) [] form = "c" -> EncCompressed(P) [] form = "h" -> EncHybrid(P)
NoPoint == <<-1>>
\* the length the first byte announces; 0 if it announces none
EncLen(c, tag) == IF tag \in {2, 3} THEN 1 + Len(c.p) ELSE IF tag \in {4, 6, 7} THEN 1 + 2 * Len(c.p) ELSE 0
\* the point at the start of in, or NoPoint
DecPoint(c, in) ==
    LET n == Len(c.p) IN
    IF Len(in) = 0 THEN NoPoint
    ELSE IF EncLen(c, in[1]) = 0 \/ Len(in) < EncLen(c, in[1]) THEN NoPoint
    ELSE LET x == SubSeq(in, 2, n + 1) IN
         IF ~BLt(x, c.p) THEN NoPoint
         ELSE IF in[1] \in {2, 3}
         THEN LET y == Sqrt(MAdd(MMul(MAdd(MMul(x, x, c.p), c.a, c.p), x, c.p), c.b, c.p), c.p)
              IN  IF y = NoRoot THEN NoPoint
                  ELSE IF Odd(y) = in[1] - 2 THEN <<x, y>>
                  ELSE IF BIsZero(y) THEN NoPoint
                  ELSE <<x, Pad(BSub(c.p, y), n)>>
         ELSE LET y == SubSeq(in, n + 2, 2 * n + 1)
              IN  IF ~BLt(y, c.p) \/ ~OnCurve(c, <<x, y>>) THEN NoPoint
                  ELSE IF in[1] # 4 /\ Odd(y) # in[1] - 6 THEN NoPoint
                  ELSE <<x, y>>
=============================================================================
