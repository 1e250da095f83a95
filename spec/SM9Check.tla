------------------------------ MODULE SM9Check ------------------------------
(***************************************************************************)
(* SM9Field on itself: the evaluated forms of its operators (java/gm) agree*)
(* with their definitions; the pairing as defined gives the constant of    *)
(* GB/T 38635.2, is bilinear and not degenerate, and both groups have the  *)
(* order n.                                                                *)
(***************************************************************************)
EXTENDS SM9Field, IOUtils
VARIABLE i
N == atoi(IOEnv.GM_N)
Deep == atoi(IOEnv.GM_DEEP)
Seed == atoi(IOEnv.GM_SEED) % 30000
RECURSIVE Rnd(_, _)
Rnd(x, n) == IF n = 0 THEN <<>> ELSE LET y == (x * 75 + 74) % 65537 IN <<y % 256>> \o Rnd(y, n - 1)
El(j, k) == LET r == TLCEval(Rnd((j * 911 + k * 37 + Seed + 1) % 65537, 32))
            IN  F32(CASE (j + k) % 5 = 0 -> <<(j + k) % 3>> [] (j + k) % 7 = 1 -> BSub(SM9P, <<1 + (k % 2)>>) [] OTHER -> BMod(r, SM9P))
Elem(j, d) == TLCEval([k \in 1..d |-> El(j, k)])
Scalar(j) == BMod(Rnd((j * 517 + Seed) % 65537, 32), SM9N)
One12 == XOne(12)
Fields(j, d) ==
    LET a == Elem(j, d)  b == Elem(j + 17, d)  e == <<j % 256, 7>> IN
    /\ XMul(a, b) = XMulDef(a, b) /\ XMul(a, b) = XMul(b, a)
    /\ a # XZero(d) => XMulDef(a, XInv(a)) = XOne(d)
    /\ XPow(a, e) = XPowDef(a, e)
    /\ XOfBytes(XBytes(a)) = a
Points(j) ==
    LET P == XPtMul(<<(j % 200) + 1>>, SM9G2)  Q == XPtMul(<<(j % 7) + 1, 3>>, SM9G2) IN
    /\ OnTwist(P) /\ OnTwist(Q)
    /\ P = XPtMulDef(<<(j % 200) + 1>>, SM9G2)
    /\ XPtAdd(P, Q) = XPtAddDef(P, Q) /\ XPtAdd(P, P) = XPtAddDef(P, P)
    /\ XPtAdd(P, XPtNeg(P)) = <<>> /\ XPtAdd(P, <<>>) = P /\ XPtAdd(<<>>, P) = P
    /\ j % 8 = 1 => LET k == Scalar(j) IN XPtMul(k, P) = XPtMulDef(k, P)
    /\ XOnCurve(Untwist(P), XOf(<<5>>, 12))
    /\ Dec2(Enc2("u", P)) = P /\ Dec2(Enc2("h", P)) = P
PairDef(j) ==
    LET P == SM9Mul1(Scalar(j), SM9G1)  Q == XPtMul(Scalar(j + 1), SM9G2) IN Pairing(P, Q) = PairingDef(P, Q)
Bilinear(j) ==
    LET a == Scalar(j)  b == Scalar(j + 5)
        g == Pairing(SM9G1, SM9G2)
    IN  /\ Pairing(SM9Mul1(a, SM9G1), XPtMul(b, SM9G2)) = XPow(g, BMul(a, b))
        /\ g # One12 /\ XPow(g, SM9N) = One12
\* the example of GB/T 38635.2: a master key and the first numbers of e(P1, Ppub)
ExampleKey == <<0,1,48,231,132,89,215,133,69,203,84,197,135,224,44,244,128,206,11,102,52,15,49,159,52,138,29,91,31,45,197,244>>
ExampleG == <<78,55,143,181,86,28,208,102,143,144,107,115,26,197,143,238,37,115,142,223,9,202,220,122,41,192,171,192,23,122,234,109,
              40,179,64,74,97,144,143,93,97,152,129,92,153,175,25,144,200,175,56,101,89,48,5,140,40,194,27,181,57,206,0,0>>
Example == LET g == XBytes(Pairing(SM9G1, XPtMul(ExampleKey, SM9G2))) IN SubSeq(g, 1, 64) = ExampleG
Orders == /\ SM9Mul1(SM9N, SM9G1) = <<>> /\ XPtMul(SM9N, SM9G2) = <<>>
          /\ OnCurve(SM9Curve, SM9G1) /\ OnTwist(SM9G2)
Init == i \in -8..-1
Next == IF i < 0 THEN i' = -i ELSE i + 8 <= N /\ i' = i + 8
Ok == i > 0 =>
    /\ Fields(i, 1) /\ Fields(i, 2) /\ Fields(i, 4) /\ Fields(i, 12)
    /\ Points(i) /\ Bilinear(i)
    /\ i = 1 => Example /\ Orders
    /\ i <= Deep => PairDef(i)
=============================================================================
