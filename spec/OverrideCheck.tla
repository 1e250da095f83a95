--------------------------- MODULE OverrideCheck ---------------------------
(***************************************************************************)
(* The evaluated forms (java/gm) of the operators of Bytes, BigNum, EC,    *)
(* GHASH and SM3 agree with their definitions.  Operands come from a       *)
(* pseudo-random byte generator written here, with runs of 0 and 255.      *)
(***************************************************************************)
EXTENDS SM2, GHASH, AES, IOUtils

VARIABLE i
N == atoi(IOEnv.GM_N)
Seed == atoi(IOEnv.GM_SEED) % 30000

\* n bytes from the state x
RECURSIVE Rnd(_, _)
Rnd(x, n) == IF n = 0 THEN <<>> ELSE LET y == (x * 75 + 74) % 65537 IN <<y % 256>> \o Rnd(y, n - 1)
Shape(x, n) == LET r == Rnd((x * 31 + Seed) % 65537, n)
               IN  TLCEval(CASE x % 5 = 0 -> [k \in 1..n |-> 255]
                     [] x % 5 = 1 -> [k \in 1..n |-> IF k % 4 = 1 THEN r[k] ELSE 0]
                     [] x % 5 = 2 -> [k \in 1..n |-> IF k % 8 < 6 THEN 255 ELSE r[k]]
                     [] OTHER -> r)

Agree(j) ==
    LET n == j % 7
        a == Shape(j, n)  b == Shape(j + 3, n)
        p == Shape(3 * j + 1, j % 9)  q == Shape(7 * j + 2, j % 6)
        m == <<1 + (j % 255)>> \o Shape(j + 2, j % 5)
        pm == BModDef(p, m)  qm == BModDef(q, m)
    IN  /\ XorB(a, b) = XorBDef(a, b) /\ AndB(a, b) = AndBDef(a, b) /\ OrB(a, b) = OrBDef(a, b)
        /\ NotB(a) = NotBDef(a) /\ AddBE(a, b) = AddBEDef(a, b)
        /\ Zeros(n) = [k \in 1..n |-> 0] /\ Fill(7, n) = [k \in 1..n |-> 7]
        /\ n > 0 => RotL(a, j % (8 * n)) = RotLDef(a, j % (8 * n))
        /\ Shl(a, j % 17) = ShlDef(a, j % 17) /\ Shr(a, j % 17) = ShrDef(a, j % 17)
        /\ Norm(p) = NormDef(p) /\ BCmp(p, q) = BCmpDef(p, q) /\ BCmp(p, p) = 0
        /\ BAdd(p, q) = BAddDef(p, q) /\ BMul(p, q) = BMulDef(p, q)
        /\ BCmpDef(p, q) >= 0 => BSub(p, q) = BSubDef(p, q)
        /\ BDivMod(p, m) = BDivModDef(p, m) /\ BMod(p, m) = BModDef(p, m)
        /\ MAdd(pm, qm, m) = MAddDef(pm, qm, m) /\ MSub(pm, qm, m) = MSubDef(pm, qm, m)
        /\ MMul(pm, qm, m) = MMulDef(pm, qm, m)
        /\ MExp(pm, Shape(j, n % 3), m) = MExpDef(pm, Shape(j, n % 3), m)
        /\ LET pr == <<251>> IN MInv(pm, pr) = MInvDef(BMod(pm, pr), pr)
        /\ IntBE(j, 3) = <<(j \div 65536) % 256, (j \div 256) % 256, j % 256>>
        /\ BEInt(IntBE(j, 4)) = j
        /\ RevB(a) = [k \in 1..n |-> a[n + 1 - k]]
AgreeBig(j) ==
    LET x == Shape(j, 16)  y == Shape(j + 3, 16)
        blk == Shape(j, 64)
        v == TLCEval([k \in 1..8 |-> Shape(j + k, 4)])
    IN  /\ GMul(x, y) = GMulDef(x, y)
        /\ SM3Compress(v, blk) = SM3CompressDef(v, blk)
        /\ SM3Repeat(v, blk, j % 3) = SM3RepeatDef(v, blk, j % 3)
        /\ LET key == Shape(j + 5, 16 + 8 * (j % 3))  at == <<0, 1 + (j % 3), 1 + (j % 3), 5>>
           IN  AESChain(key, x, y, at) = AESChainDef(key, x, y, at)

AgreeLong(j) ==
    LET z == Shape(j, 32)  y == Shape(j + 9, 32)  b == (j * 37) % 256  n == 32 + ((j * 29) % 400)
        ks == TLCEval(KDF("sm3", z \o y, 400, 1))
        off == (j * 13) % 369
    IN  /\ SM3Long(z, b, n, y) = SM3Hash(z \o Fill(b, n) \o y)
        /\ KdfWin("sm3", z \o y, off) = SubSeq(ks, off + 1, off + 32)

\* a small curve; points from a walk over x
Small == [p |-> <<251>>, a |-> <<7>>, b |-> <<3>>]
RECURSIVE PointFrom(_, _)
PointFrom(c, x) == LET v == MAdd(MMul(MAdd(MMul(x, x, c.p), c.a, c.p), x, c.p), c.b, c.p)
                       ys == {y \in 0..255 : BEq(MMul(<<y>>, <<y>>, c.p), v)}
                   IN  IF ys = {} THEN PointFrom(c, <<(x[1] + 1) % 251>>) ELSE <<x, <<CHOOSE y \in ys : y < 251>>>>
AgreeEC(j) ==
    LET P == PointFrom(Small, <<(j * 7 + Seed) % 251>>)
        Q == PointFrom(Small, <<(j * 11 + 5) % 251>>)
        k == Shape(j, 1 + (j % 2))
    IN  /\ OnCurve(Small, P) /\ OnCurve(Small, Q)
        /\ ECAdd(Small, P, Q) = ECAddDef(Small, P, Q) /\ ECAdd(Small, P, P) = ECAddDef(Small, P, P)
        /\ ECAdd(Small, P, ECNeg(Small, P)) = ECInf /\ ECAdd(Small, P, ECInf) = P /\ ECAdd(Small, ECInf, Q) = Q
        /\ ECMul(Small, k, P) = ECMulDef(Small, k, P)
        /\ ECMul(Small, <<j % 251>>, Q) = ECMulDef(Small, <<j % 251>>, Q)
        /\ OnCurve(Small, ECMul(Small, k, P))
        /\ j % 10 = 1 => LET q == Shape(j + 4, 32) IN ECMul(SM2Curve, q, SM2G) = ECMulDef(SM2Curve, q, SM2G)

Init == i \in -8..-1
Next == IF i < 0 THEN i' = -i ELSE i + 8 <= N /\ i' = i + 8
Ok == i > 0 => (Agree(i) /\ AgreeBig(i) /\ AgreeLong(i) /\ AgreeEC(i))
=============================================================================
