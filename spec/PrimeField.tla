----------------------------- MODULE PrimeField -----------------------------
(***************************************************************************)
(* The prime fields behind a curve, as the internal helpers of SM2 and SM9 *)
(* offer them (drivers/prime.h): w is "p" for the coordinates, "n" for the *)
(* scalars, "b" for plain 256-bit numbers.                                 *)
(***************************************************************************)
EXTENDS EC
P32(x) == Pad(x, 32)
PBool(x) == <<IF x THEN 1 ELSE 0>>
\* one subtraction of the bound, as the reduction of nearly reduced numbers
Once(a, m) == IF BLt(a, m) THEN P32(a) ELSE P32(BSub(a, m))
PrimeRes(w, f, a, b, p, n) ==
    LET m == IF w = "p" THEN p ELSE n
        o == IF w = "p" THEN n ELSE p
    IN  CASE f = "add" -> P32(MAdd(a, b, m))
          [] f = "sub" -> P32(MSub(a, b, m))
          [] f = "mul" -> P32(MMul(a, b, m))
          [] f = "sqr" -> P32(MMul(a, a, m))
          [] f = "neg" -> P32(MNeg(a, m))
          [] f = "dbl" -> P32(MAdd(a, a, m))
          [] f = "tpl" -> P32(MAdd(MAdd(a, a, m), a, m))
          [] f = "inv" -> P32(MInv(a, m))
          [] f \in {"cpy", "tobn"} -> a
          [] f \in {"frombn", "fromex"} -> P32(BMod(a, m))
          [] f = "conv" -> P32(BMod(a, o))
          [] f = "set0" -> P32(BZero)
          [] f = "set1" -> P32(BOne)
          [] f = "is0" -> PBool(BIsZero(a))
          [] f = "is1" -> PBool(BEq(a, BOne))
          [] f = "eq" -> PBool(BEq(a, b))
          [] f = "check" -> PBool(BLt(a, p))
          [] f = "cmp" -> <<IF BLt(a, b) THEN 255 ELSE IF BEq(a, b) THEN 0 ELSE 1>>
          [] f = "msub1" -> Once(a, BSub(n, <<1>>))
          [] f = "msub2" -> Once(a, BSub(n, <<2>>))
          [] f = "msub3" -> Once(a, BSub(n, <<3>>))
          [] f = "msub1ex" -> P32(BMod(a, BSub(n, <<1>>)))
\* a square root: either of the two, <<>> when there is none; for zero, which
\* neither curve asks for (both have prime order), also <<>>
PrimeOk(e, p, n) ==
    IF e.f = "sqrt"
    THEN IF e.out = <<>> THEN BIsZero(e.a) \/ BEq(MExp(e.a, BDivMod(BSub(p, <<1>>), <<2>>)[1], p), BSub(p, <<1>>))
         ELSE BLt(e.out, p) /\ BEq(MMul(e.out, e.out, p), e.a)
    ELSE e.out = PrimeRes(e.w, e.f, e.a, e.b, p, n)
=============================================================================
