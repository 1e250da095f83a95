------------------------------ MODULE SM9Field ------------------------------
(***************************************************************************)
(* GB/T 38635.1: the fields, the two groups and the R-ate pairing of SM9.  *)
(*                                                                         *)
(* The tower F_p2 = F_p[u]/(u^2+2), F_p4 = F_p2[v]/(v^2-u), F_p12 =        *)
(* F_p4[w]/(w^3-v) is the chain of rings F_p[X]/(X^d + 2), d = 2, 4, 12:   *)
(* u = v^2 = w^6.  An element is the tuple of its d coefficients (32-byte  *)
(* strings, constant term first), so one product serves every d.           *)
(*                                                                         *)
(* A point over such a field is <<x, y>>, and <<>> is infinity.            *)
(***************************************************************************)
EXTENDS EC

SM9P == <<182,64,0,0,2,163,166,241,214,3,171,79,245,142,199,69,33,242,147,75,26,122,238,219,229,111,155,39,227,81,69,125>>
SM9N == <<182,64,0,0,2,163,166,241,214,3,171,79,245,142,199,68,73,242,147,75,24,234,139,238,229,110,225,156,214,158,207,37>>
SM9G1 == <<<<147,222,5,29,98,191,113,143,245,237,7,4,72,125,1,214,225,228,8,105,9,220,50,128,232,196,228,129,124,102,221,221>>,
           <<33,254,141,218,79,33,230,7,99,16,101,18,92,57,91,188,28,28,0,203,250,96,36,53,12,70,76,215,10,62,166,22>>>>
SM9G2 == <<<<<<55,34,117,82,146,19,11,8,210,170,185,127,211,78,193,32,238,38,89,72,209,156,23,171,249,183,33,59,175,130,214,91>>,
             <<133,174,243,208,120,100,12,152,89,123,96,39,180,65,160,31,241,221,44,25,15,94,147,196,84,128,108,17,216,128,97,65>>>>,
           <<<<167,207,40,213,25,190,61,166,95,49,112,21,61,39,143,242,71,239,186,152,167,26,8,17,98,21,187,165,201,153,167,199>>,
             <<23,80,155,9,46,132,92,18,102,186,13,38,44,190,230,237,7,54,169,111,163,71,200,189,133,109,199,107,132,235,235,150>>>>>>
SM9Curve == [p |-> SM9P, a |-> Zeros(32), b |-> Pad(<<5>>, 32)]
\* 6t + 2 for the parameter t of the curve
SM9Loop == <<2,64,0,0,0,2,21,217,62>>

\* ---- fields ----
F32(x) == Pad(x, 32)
Zero32 == Zeros(32)
One32 == F32(<<1>>)
XOf(x, d) == [k \in 1..d |-> IF k = 1 THEN F32(x) ELSE Zero32]
XOne(d) == XOf(<<1>>, d)
XZero(d) == [k \in 1..d |-> Zero32]
XAdd(a, b) == [k \in 1..Len(a) |-> F32(MAdd(a[k], b[k], SM9P))]
XSub(a, b) == [k \in 1..Len(a) |-> F32(MSub(a[k], b[k], SM9P))]
XNeg(a) == XSub(XZero(Len(a)), a)
\* the coefficient of X^(k-1) in a b, modulo X^d + 2
RECURSIVE XCoef(_, _, _, _)
XCoef(a, b, k, i) ==
    IF i > Len(a) THEN BZero
    ELSE LET d == Len(a)
             j == k + 1 - i
             t == IF j >= 1 THEN MMul(a[i], b[j], SM9P)
                  ELSE MSub(BZero, MMul(<<2>>, MMul(a[i], b[j + d], SM9P), SM9P), SM9P)
         IN  MAdd(t, XCoef(a, b, k, i + 1), SM9P)
XMulDef(a, b) == [k \in 1..Len(a) |-> F32(XCoef(a, b, k, 1))]
XMul(a, b) == XMulDef(a, b)
\* the inverse is the element whose product with a is one (evaluated by java/gm, the product checked)
XInv(a) == CHOOSE x \in [1..Len(a) -> [1..32 -> 0..255]] : XMul(a, x) = XOne(Len(a))
RECURSIVE XPowBits(_, _, _, _)
XPowBits(a, e, j, acc) ==
    IF j = 8 * Len(e) THEN acc
    ELSE LET q == XMul(acc, acc) IN XPowBits(a, e, j + 1, IF BitAt(e, j) = 1 THEN XMul(q, a) ELSE q)
XPowDef(a, e) == XPowBits(a, e, 0, XOne(Len(a)))
XPow(a, e) == XPowDef(a, e)
\* X^i times an element of the subfield of degree e, in the field of degree d
XEmb(x, d, i) == LET s == d \div Len(x)
                 IN  [k \in 1..d |-> IF (k - 1 - i) % s = 0 /\ (k - 1 - i) \div s \in 0..(Len(x) - 1) THEN x[((k - 1 - i) \div s) + 1] ELSE Zero32]

\* ---- bytes: high coefficients of the tower first ----
Order(d) == CASE d = 1 -> <<0>> [] d = 2 -> <<1, 0>> [] d = 4 -> <<3, 1, 2, 0>> [] d = 12 -> <<11, 5, 8, 2, 10, 4, 7, 1, 9, 3, 6, 0>>
XOfBytes(in) == LET d == Len(in) \div 32
                    o == Order(d)
                IN  TLCEval([k \in 1..d |-> LET j == CHOOSE i \in 1..d : o[i] = k - 1 IN SubSeq(in, 32 * (j - 1) + 1, 32 * j)])
RECURSIVE XCat(_, _, _)
XCat(x, o, i) == IF i > Len(o) THEN <<>> ELSE x[o[i] + 1] \o XCat(x, o, i + 1)
XBytes(x) == XCat(x, Order(Len(x)), 1)

\* ---- the curve y^2 = x^3 + b over a field of degree d ----
XOnCurve(P, b) == P = <<>> \/ XMul(P[2], P[2]) = XAdd(XMul(XMul(P[1], P[1]), P[1]), b)
XPtNeg(P) == IF P = <<>> THEN P ELSE <<P[1], XNeg(P[2])>>
XSlope(P, Q) == IF P = Q THEN LET s == XMul(P[1], P[1]) IN XMul(XAdd(XAdd(s, s), s), XInv(XAdd(P[2], P[2])))
                ELSE XMul(XSub(Q[2], P[2]), XInv(XSub(Q[1], P[1])))
XPtAddDef(P, Q) ==
    IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
    ELSE IF P[1] = Q[1] /\ (P[2] # Q[2] \/ P[2] = XZero(Len(P[2]))) THEN <<>>
    ELSE LET s == XSlope(P, Q)
             x == XSub(XSub(XMul(s, s), P[1]), Q[1])
         IN  <<x, XSub(XMul(s, XSub(P[1], x)), P[2])>>
XPtAdd(P, Q) == XPtAddDef(P, Q)
RECURSIVE XPtMulBits(_, _, _, _)
XPtMulBits(k, P, j, acc) ==
    IF j = 8 * Len(k) THEN acc
    ELSE LET t == XPtAddDef(acc, acc) IN XPtMulBits(k, P, j + 1, IF BitAt(k, j) = 1 THEN XPtAddDef(t, P) ELSE t)
XPtMulDef(k, P) == XPtMulBits(k, P, 0, <<>>)
XPtMul(k, P) == XPtMulDef(k, P)

\* G1 over F_p, G2 on the twist y^2 = x^3 + 5u over F_p2
SM9Mul1(k, P) == ECMul(SM9Curve, k, P)
TwistB == <<Zero32, F32(<<5>>)>>
OnTwist(P) == XOnCurve(P, TwistB)
SM9Mul2(k, P) == XPtMul(k, P)

\* ---- encodings of points of G2: one prefix byte, then the coordinates.  A compressed
\* point may be refused (the library cannot read them) ----
Enc2(form, P) == LET x == XBytes(P[1])  y == XBytes(P[2])
                 IN  CASE form = "u" -> <<4>> \o x \o y [] form = "c" -> <<2 + Odd(y)>> \o x [] form = "h" -> <<6 + Odd(y)>> \o x \o y
NoPoint2 == <<-1>>
Coord2(in, i) == SubSeq(in, 2 + 64 * i, 65 + 64 * i)
InField2(b) == BLt(SubSeq(b, 1, 32), SM9P) /\ BLt(SubSeq(b, 33, 64), SM9P)
Dec2(in) ==
    IF Len(in) < 129 \/ in[1] \notin {4, 6, 7} THEN NoPoint2
    ELSE LET P == <<XOfBytes(Coord2(in, 0)), XOfBytes(Coord2(in, 1))>>
         IN  IF ~InField2(Coord2(in, 0)) \/ ~InField2(Coord2(in, 1)) THEN NoPoint2
             ELSE IF ~OnTwist(P) \/ (in[1] # 4 /\ Odd(P[2][1]) # in[1] - 6) THEN NoPoint2 ELSE P

\* ---- the pairing, on the curve over F_p12 ----
\* the point of the curve for a point of the twist: (x w^-2, y w^-3)
Untwist(Q) == LET h == XMul(XEmb(Q[1], 12, 0), XInv(XEmb(<<One32>>, 12, 2)))
                  k == XMul(XEmb(Q[2], 12, 0), XInv(XEmb(<<One32>>, 12, 3)))
              IN  <<TLCEval(h), TLCEval(k)>>
\* the line through U and V (the tangent if they are one), at P
LineAt(U, V, P) == XAdd(XSub(XMul(XSlope(U, V), XSub(P[1], V[1])), P[2]), V[2])
RECURSIVE Miller(_, _, _, _, _)
Miller(P, Q, j, T, f) ==
    IF j = 8 * Len(SM9Loop) THEN <<T, f>>
    ELSE LET g == TLCEval(XMul(XMul(f, f), LineAt(T, T, P)))
             U == TLCEval(XPtAddDef(T, T))
         IN  IF BitAt(SM9Loop, j) = 0 THEN Miller(P, Q, j + 1, U, g)
             ELSE Miller(P, Q, j + 1, TLCEval(XPtAddDef(U, Q)), TLCEval(XMul(g, LineAt(U, Q, P))))
Frobenius(Q) == <<TLCEval(XPow(Q[1], SM9P)), TLCEval(XPow(Q[2], SM9P))>>
P2_ == BMul(SM9P, SM9P)
P4_ == BMul(P2_, P2_)
P12_ == BMul(BMul(P4_, P4_), P4_)
SM9FinalExp == BDivMod(BSub(P12_, BOne), SM9N)[1]
PairingDef(P1, Q2) ==
    LET P == <<XEmb(<<P1[1]>>, 12, 0), XEmb(<<P1[2]>>, 12, 0)>>
        Q == Untwist(Q2)
        \* the leading bit of 6t + 2 is bit 6 of the first byte
        m == Miller(P, Q, 7, Q, XOne(12))
        R1 == Frobenius(Q)
        R2 == XPtNeg(Frobenius(R1))
        f1 == TLCEval(XMul(m[2], LineAt(m[1], R1, P)))
        T1 == TLCEval(XPtAddDef(m[1], R1))
    IN  XPowDef(XMul(f1, LineAt(T1, R2, P)), SM9FinalExp)
Pairing(P, Q) == PairingDef(P, Q)
=============================================================================
