------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Natural numbers of any size as big-endian byte strings without leading  *)
(* zeros (zero is the empty string).  Operators accept leading zeros.  As  *)
(* in Bytes.tla, XxxDef is the definition and Xxx its evaluated form       *)
(* (java/gm/BigNumOverride.java).                                          *)
(***************************************************************************)
EXTENDS Bytes

RECURSIVE NormDef(_)
NormDef(a) == IF a = <<>> \/ a[1] # 0 THEN a ELSE NormDef(Tail(a))
Norm(a) == NormDef(a)

BZero == <<>>
BOne == <<1>>
BInt(x) == Norm(IntBE(x, 4))

\* pad (or cut) to n bytes
Pad(a, n) == IF Len(a) >= n THEN LastN(a, n) ELSE Zeros(n - Len(a)) \o a

RECURSIVE CmpEq(_, _)
CmpEq(a, b) == IF a = <<>> THEN 0
               ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1
               ELSE CmpEq(Tail(a), Tail(b))
BCmpDef(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                 IN CmpEq(Pad(a, n), Pad(b, n))
BCmp(a, b) == BCmpDef(a, b)
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BEq(a, b) == BCmp(a, b) = 0
BIsZero(a) == BCmp(a, BZero) = 0
BIsOdd(a) == Len(a) > 0 /\ a[Len(a)] % 2 = 1

BAddDef(a, b) == LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
                 IN Norm(AddBE0(Pad(a, n), Pad(b, n), 0))
BAdd(a, b) == BAddDef(a, b)
\* a - b for a >= b: complement addition
BSubDef(a, b) == LET n == Len(a)
                     d == AddBE0(a, NotBDef(Pad(Norm(b), n)), 1)
                 IN Norm(d)
BSub(a, b) == BSubDef(a, b)

RECURSIVE MulByte(_, _, _)
MulByte(a, d, c) == \* a * d + c, d and c bytes
    IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET n == Len(a)  s == a[n] * d + c
         IN  Append(MulByte(SubSeq(a, 1, n - 1), d, s \div 256), s % 256)
RECURSIVE BMulDef0(_, _)
BMulDef0(a, b) ==
    IF b = <<>> THEN <<>>
    ELSE LET n == Len(b)
         IN BAddDef(Append(BMulDef0(a, SubSeq(b, 1, n - 1)), 0), MulByte(a, b[n], 0))
BMulDef(a, b) == NormDef(BMulDef0(a, b))
BMul(a, b) == BMulDef(a, b)

\* <<quotient, remainder>>, m # 0
RECURSIVE DivDigit(_, _, _)
DivDigit(r, m, q) == IF BCmpDef(r, m) < 0 THEN <<q, r>> ELSE DivDigit(BSubDef(r, m), m, q + 1)
RECURSIVE BDivModDef0(_, _)
BDivModDef0(a, m) ==
    IF a = <<>> THEN <<(<<>>), (<<>>)>>
    ELSE LET n == Len(a)
             hi == BDivModDef0(SubSeq(a, 1, n - 1), m)
             d == DivDigit(NormDef(Append(hi[2], a[n])), m, 0)
         IN  <<Append(hi[1], d[1]), d[2]>>
BDivModDef(a, m) == LET r == BDivModDef0(a, m) IN <<NormDef(r[1]), NormDef(r[2])>>
BDivMod(a, m) == BDivModDef(a, m)
BModDef(a, m) == BDivModDef(a, m)[2]
BMod(a, m) == BModDef(a, m)

\* ---- arithmetic modulo m; operands below m ----
MAddDef(a, b, m) == BModDef(BAddDef(a, b), m)
MAdd(a, b, m) == MAddDef(a, b, m)
MSubDef(a, b, m) == BModDef(BSubDef(BAddDef(a, m), b), m)
MSub(a, b, m) == MSubDef(a, b, m)
MMulDef(a, b, m) == BModDef(BMulDef(a, b), m)
MMul(a, b, m) == MMulDef(a, b, m)
MNeg(a, m) == MSub(BZero, a, m)
MDbl(a, m) == MAdd(a, a, m)
MSqr(a, m) == MMul(a, a, m)

\* square and multiply over the bits of e, most significant first
RECURSIVE MExpBits(_, _, _, _, _)
MExpBits(acc, a, e, j, m) ==
    IF j = 8 * Len(e) THEN acc
    ELSE LET s == MMulDef(acc, acc, m)
         IN MExpBits(IF BitAt(e, j) = 1 THEN MMulDef(s, a, m) ELSE s, a, e, j + 1, m)
MExpDef(a, e, m) == MExpBits(BModDef(BOne, m), a, e, 0, m)
MExp(a, e, m) == MExpDef(a, e, m)
\* inverse modulo a prime m
MInvDef(a, m) == MExpDef(a, BSubDef(m, <<2>>), m)
MInv(a, m) == MInvDef(a, m)

\* 2^n
BPow2(n) == Norm(<<2 ^ (n % 8)>> \o Zeros(n \div 8))
\* bit j of the number (0 = least significant)
BBit(a, j) == IF j >= 8 * Len(a) THEN 0 ELSE BitAt(a, 8 * Len(a) - 1 - j)
RECURSIVE BitLenOfByte(_)
BitLenOfByte(x) == IF x = 0 THEN 0 ELSE 1 + BitLenOfByte(x \div 2)
BBitLen(a) == LET n == Norm(a) IN IF n = <<>> THEN 0 ELSE 8 * (Len(n) - 1) + BitLenOfByte(n[1])
=============================================================================
