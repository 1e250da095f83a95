------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings: sequences over 0..255.  All words, blocks, keys, digests  *)
(* and field elements of the specification are byte strings (TLC integers  *)
(* are 32 bits wide).  Each operator whose name ends in Def is the         *)
(* defining text; the operator without Def equals it and is evaluated by   *)
(* java/gm/BytesOverride.java when that class is on TLC's class path.      *)
(* OverrideCheck.tla checks that the two agree.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Byte == 0..255

Zeros(n) == [i \in 1..n |-> 0]
Fill(b, n) == [i \in 1..n |-> b]

\* a[from .. from+n-1], 1-based
Slice(a, from, n) == SubSeq(a, from, from + n - 1)
Take(a, n) == SubSeq(a, 1, n)
Drop(a, n) == SubSeq(a, n + 1, Len(a))
LastN(a, n) == SubSeq(a, Len(a) - n + 1, Len(a))

\* ---- single bytes ----
RECURSIVE Bit8Def(_, _, _, _)
\* op: 0 = and, 1 = or, 2 = xor
Bit8Def(op, a, b, n) ==
    IF n = 0 THEN 0
    ELSE LET x == a % 2
             y == b % 2
             z == CASE op = 0 -> IF x = 1 /\ y = 1 THEN 1 ELSE 0
                    [] op = 1 -> IF x = 1 \/ y = 1 THEN 1 ELSE 0
                    [] op = 2 -> IF x # y THEN 1 ELSE 0
         IN z + 2 * Bit8Def(op, a \div 2, b \div 2, n - 1)

\* ---- bytewise operations on strings of equal length ----
XorBDef(a, b) == [i \in 1..Len(a) |-> Bit8Def(2, a[i], b[i], 8)]
AndBDef(a, b) == [i \in 1..Len(a) |-> Bit8Def(0, a[i], b[i], 8)]
OrBDef(a, b)  == [i \in 1..Len(a) |-> Bit8Def(1, a[i], b[i], 8)]
NotBDef(a)    == [i \in 1..Len(a) |-> 255 - a[i]]
XorB(a, b) == XorBDef(a, b)
AndB(a, b) == AndBDef(a, b)
OrB(a, b)  == OrBDef(a, b)
NotB(a)    == NotBDef(a)

\* ---- a byte string as a big-endian bit string ----
BitAt(a, j) == \* bit j (0 = most significant)
    (a[(j \div 8) + 1] \div (2 ^ (7 - (j % 8)))) % 2
FromBits(n, B(_)) == \* n bytes whose bit j is B(j)
    [i \in 1..n |->
        LET b(k) == B(8 * (i - 1) + k)
        IN  128*b(0) + 64*b(1) + 32*b(2) + 16*b(3) + 8*b(4) + 4*b(5) + 2*b(6) + b(7)]
RotLDef(a, n) ==
    LET w == 8 * Len(a)  B(j) == BitAt(a, (j + n) % w) IN FromBits(Len(a), B)
RotL(a, n) == RotLDef(a, n)
ShlDef(a, n) ==
    LET w == 8 * Len(a)  B(j) == IF j + n < w THEN BitAt(a, j + n) ELSE 0
    IN  FromBits(Len(a), B)
Shl(a, n) == ShlDef(a, n)
ShrDef(a, n) ==
    LET B(j) == IF j >= n THEN BitAt(a, j - n) ELSE 0 IN FromBits(Len(a), B)
Shr(a, n) == ShrDef(a, n)

\* ---- addition modulo 256^Len, big endian ----
RECURSIVE AddBE0(_, _, _)
AddBE0(a, b, c) ==
    IF a = <<>> THEN <<>>
    ELSE LET n == Len(a)
             s == a[n] + b[n] + c
         IN  Append(AddBE0(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1), s \div 256), s % 256)
AddBEDef(a, b) == AddBE0(a, b, 0)
AddBE(a, b) == AddBEDef(a, b)

\* ---- table substitution ----
SubstDef(table, a) == [i \in 1..Len(a) |-> table[a[i] + 1]]
Subst(table, a) == SubstDef(table, a)

\* ---- integers ----
RECURSIVE IntBE(_, _)
IntBE(x, n) == \* x >= 0 as n bytes, big endian (excess high bytes dropped)
    IF n = 0 THEN <<>> ELSE Append(IntBE(x \div 256, n - 1), x % 256)
RECURSIVE BEInt(_)
BEInt(a) == \* value of a byte string (must fit 31 bits)
    IF a = <<>> THEN 0 ELSE 256 * BEInt(SubSeq(a, 1, Len(a) - 1)) + a[Len(a)]

\* bit length of a string of n bytes as a 64-bit big-endian count (n < 2^31)
BitLen64(n) == Shl(IntBE(n, 8), 3)

RevB(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]

\* blocks of n bytes
NumBlocks(a, n) == Len(a) \div n
Block(a, n, i) == SubSeq(a, (i - 1) * n + 1, i * n)

\* Concatenation of F(1) .. F(n)
ConcatF(F(_), n) == FlattenSeq([i \in 1..n |-> F(i)])
=============================================================================
