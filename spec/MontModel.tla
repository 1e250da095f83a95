----------------------------- MODULE MontModel -----------------------------
(***************************************************************************)
(* Design model of Montgomery arithmetic in base Base with L limbs, for    *)
(* every odd modulus with the top digit set and all reduced operands:      *)
(* the product row by row with its reduction digit, the final subtraction, *)
(* and addition, subtraction, negation, doubling, tripling and halving as  *)
(* the carry-aware forms; plus square-and-multiply exponentiation.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Base, L, PowModuli
VARIABLES p, a, b, op, t, i, out
vars == <<p, a, b, op, t, i, out>>
Big == Base ^ L
Moduli == {x \in 0..(Big - 1) : x % 2 = 1 /\ 2 * x >= Big}
\* -1/p modulo the base
NPrime(q) == CHOOSE n \in 0..(Base - 1) : (n * q) % Base = Base - 1
Ops == {"mul", "add", "sub", "neg", "dbl", "tpl", "half", "pow"}
MMInit ==
    /\ p \in Moduli /\ a \in 0..(p - 1) /\ b \in 0..(p - 1) /\ op \in Ops
    /\ (op \in {"neg", "dbl", "tpl", "half"} => b = 0)
    /\ (op = "pow" => p \in PowModuli)
    /\ t = (IF op = "mul" THEN a * b ELSE IF op = "pow" THEN Big % p ELSE 0)
    /\ i = (IF op = "pow" THEN L ELSE 0) /\ out = -1
\* one reduction row: t is the whole accumulator, digit i is cleared
Digit(x, k) == (x \div (Base ^ k)) % Base
Row == /\ op = "mul" /\ i < L
       /\ LET m == (Digit(t, i) * NPrime(p)) % Base IN t' = t + m * p * (Base ^ i)
       /\ i' = i + 1 /\ UNCHANGED <<p, a, b, op, out>>
Cond(x) == IF x >= p THEN x - p ELSE x
Redc(x) == \* x * Big^-1 mod p, by definition
    CHOOSE y \in 0..(p - 1) : (y * Big) % p = x % p
Finish ==
    /\ out = -1
    /\ CASE op = "mul" -> i = L /\ out' = Cond(t \div Big)
         [] op = "add" -> out' = Cond(a + b)
         [] op = "sub" -> out' = IF a >= b THEN a - b ELSE (a - b + p)
         [] op = "neg" -> out' = IF a = 0 THEN 0 ELSE p - a
         [] op = "dbl" -> out' = Cond(2 * a)
         [] op = "tpl" -> out' = Cond(Cond(3 * a))
         [] op = "half" -> out' = (IF a % 2 = 1 THEN a + p ELSE a) \div 2
         [] op = "pow" -> i = 0 /\ out' = t
    /\ UNCHANGED <<p, a, b, op, t, i>>
\* exponent b, L bits from the top: t = a^(top bits) in Montgomery form
Sq == /\ op = "pow" /\ i > 0
      /\ LET s == Redc(t * t)
         IN t' = IF (b \div 2 ^ (i - 1)) % 2 = 1 THEN Redc(s * a) ELSE s
      /\ i' = i - 1 /\ UNCHANGED <<p, a, b, op, out>>
MMNext == Row \/ Sq \/ Finish
MMSpec == MMInit /\ [][MMNext]_vars
\* the low digits are gone, and the accumulator never exceeds p^2 + Big * p
RowOK == op = "mul" => t % (Base ^ i) = 0 /\ t < p * p + Big * p /\ (t - a * b) % p = 0
RECURSIVE PowOf(_, _)
PowOf(x, k) == IF k = 0 THEN Big % p ELSE Redc(PowOf(x, k - 1) * x)
Right == out # -1 =>
    /\ out \in 0..(p - 1)
    /\ CASE op = "mul" -> (out * Big - a * b) % p = 0
         [] op = "add" -> (out - a - b) % p = 0
         [] op = "sub" -> (out - a + b) % p = 0
         [] op = "neg" -> (out + a) % p = 0
         [] op = "dbl" -> (out - 2 * a) % p = 0
         [] op = "tpl" -> (out - 3 * a) % p = 0
         [] op = "half" -> (2 * out - a) % p = 0
         [] op = "pow" -> out = PowOf(a, b % 2 ^ L)
Inv == RowOK /\ Right
=============================================================================
