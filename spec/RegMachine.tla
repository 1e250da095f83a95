---------------------------- MODULE RegMachine ----------------------------
(***************************************************************************)
(* Registers of fixed size (n bytes; numbers below 256^n) and wide         *)
(* registers of twice the size, and what each integer or Montgomery call   *)
(* does to them.  A call names a destination and sources, which may be the *)
(* same register.  Step(m, e) is the record                                *)
(*    d   register written (0-based), or -1                                *)
(*    v   the bytes it then holds                                          *)
(*    r   the value returned (carry, borrow, truth value, remainder bytes) *)
(* Montgomery registers hold x * R mod p for the number x, R = 256^32.     *)
(***************************************************************************)
EXTENDS BigNum

NoRet == "none"
Hi(x, n) == LET z == Norm(x) IN Norm(IF Len(z) > n THEN Take(z, Len(z) - n) ELSE <<>>)
Lo(x, n) == Pad(x, n)
Reg(m, i) == m.reg[i + 1]
Res(d, v, r) == [d |-> d, v |-> v, r |-> r]

AddR(m, d, x, y) == LET s == BAdd(x, y) IN Res(d, Lo(s, m.n), BEInt(Hi(s, m.n)))
SubR(m, d, x, y) == IF BLe(y, x) THEN Res(d, Lo(BSub(x, y), m.n), 0)
                    ELSE Res(d, Lo(BSub(BAdd(x, <<1>> \o Zeros(m.n)), y), m.n), -1)
CmpR(x, y) == Res(-1, <<>>, BCmp(x, y))
Bool(b) == Res(-1, <<>>, b)
One(n) == Pad(BOne, n)

\* Montgomery form
RMod(p) == BMod(<<1>> \o Zeros(32), p)
ToMont(p, x) == Pad(MMul(BMod(x, p), RMod(p), p), 32)
FromMont(p, x) == Pad(MMul(x, MInv(RMod(p), p), p), 32)
RedcMul(p, x, y) == FromMont(p, MMul(x, y, p))
\* half of x modulo odd p
Half(p, x) == BDivMod(IF BIsOdd(x) THEN BAdd(x, p) ELSE x, <<2>>)[1]

Step(m, e) ==
    LET op == e.op
        a == Reg(m, e.a)  b == Reg(m, e.b)  mm == Reg(m, e.m)
        n == m.n  p == m.p
    IN CASE op \in {"raw", "set", "Zset"} -> Res(e.d, e.in, NoRet)
         [] op = "add" -> AddR(m, e.d, a, b)
         [] op = "sub" -> SubR(m, e.d, a, b)
         [] op = "dbl" -> AddR(m, e.d, a, a)
         [] op = "tpl" -> AddR(m, e.d, a, BAdd(a, a))
         [] op \in {"mul", "Zmul"} -> Res(e.d, Pad(BMul(a, b), 2 * n), NoRet)
         [] op = "sqr" -> Res(e.d, Pad(BMul(a, a), 2 * n), NoRet)
         [] op = "addw" -> AddR(m, e.d, a, e.w)
         [] op = "subw" -> SubR(m, e.d, a, e.w)
         [] op = "mulw" -> LET q == BMul(a, e.w) IN Res(e.d, Lo(q, n), Pad(Hi(q, n), 8))
         [] op = "divw" -> LET q == BDivMod(a, e.w) IN Res(e.d, Pad(q[1], n), Pad(q[2], 8))
         [] op = "cmpw" -> CmpR(a, e.w)
         [] op = "setw" -> Res(e.d, Pad(e.w, n), NoRet)
         [] op = "madd" -> Res(e.d, Pad(MAdd(a, b, mm), n), NoRet)
         [] op = "msub" -> Res(e.d, Pad(MSub(a, b, mm), n), NoRet)
         [] op = "mod" -> Res(e.d, Pad(BMod(e.in, mm), n), NoRet)
         [] op \in {"cmp", "Zcmp"} -> CmpR(a, b)
         [] op \in {"eq", "Meq"} -> Bool(a = b)
         [] op \in {"eqz", "Meqz"} -> Bool(a = Zeros(n))
         [] op = "eq1" -> Bool(a = One(n))
         [] op \in {"cpy", "Zcpy", "Mcpy"} -> Res(e.d, a, NoRet)
         [] op \in {"zero", "Mzero"} -> Res(e.d, Zeros(n), NoRet)
         [] op = "one" -> Res(e.d, One(n), NoRet)
         [] op = "bits" -> Res(-1, <<>>, [i \in 1..256 |-> BBit(a, i - 1)])
         [] op \in {"get", "Zget"} -> Res(-1, a, NoRet)
         [] op = "Zadd" -> LET s == BAdd(BAdd(a, b), BInt(e.c)) IN Res(e.d, Lo(s, n), BEInt(Hi(s, n)))
         [] op = "Zsub" -> SubR(m, e.d, a, BAdd(b, BInt(-e.c)))
         \* Montgomery; operands below p
         [] op = "Madd" -> Res(e.d, Pad(MAdd(a, b, p), n), NoRet)
         [] op = "Msub" -> Res(e.d, Pad(MSub(a, b, p), n), NoRet)
         [] op = "Mdbl" -> Res(e.d, Pad(MAdd(a, a, p), n), NoRet)
         [] op = "Mtpl" -> Res(e.d, Pad(MMul(a, <<3>>, p), n), NoRet)
         [] op = "Mneg" -> Res(e.d, Pad(MSub(BZero, a, p), n), NoRet)
         [] op = "Mdiv2" -> Res(e.d, Pad(Half(p, a), n), NoRet)
         [] op = "Mmul" -> Res(e.d, RedcMul(p, a, b), NoRet)
         [] op = "Msqr" -> Res(e.d, RedcMul(p, a, a), NoRet)
         [] op = "Minv" -> Res(e.d, ToMont(p, MInv(FromMont(p, a), p)), NoRet)
         [] op = "Mpow" -> Res(e.d, ToMont(p, MExp(FromMont(p, a), b, p)), NoRet)
         [] op = "Mset" -> Res(e.d, ToMont(p, e.in), NoRet)
         [] op = "Mex" -> Res(e.d, ToMont(p, e.in), NoRet)
         [] op = "Mget" -> Res(-1, FromMont(p, a), NoRet)
         [] op = "Meq1" -> Bool(BEq(a, RMod(p)))
         [] op = "Mone" -> Res(e.d, Pad(RMod(p), n), NoRet)
         [] op = "Msetw" -> Res(e.d, ToMont(p, e.w), NoRet)

\* what a caller owes the call
IsMont(op) == op \in {"Madd", "Msub", "Mdbl", "Mtpl", "Mneg", "Mdiv2", "Mmul", "Msqr", "Minv", "Mpow", "Mget", "Meq", "Meq1", "Meqz"}
BinaryM == {"Madd", "Msub", "Mmul", "Meq"}
Legal(m, e) ==
    LET op == e.op IN
    CASE op \in {"madd", "msub"} -> BLt(Reg(m, e.a), Reg(m, e.m)) /\ BLt(Reg(m, e.b), Reg(m, e.m))
      [] op = "mod" -> ~BIsZero(Reg(m, e.m))
      [] op = "divw" -> ~BIsZero(e.w)
      [] op = "Minv" -> BLt(Reg(m, e.a), m.p) /\ ~BIsZero(Reg(m, e.a))
      [] op \in BinaryM -> BLt(Reg(m, e.a), m.p) /\ BLt(Reg(m, e.b), m.p)
      [] op = "Mset" -> BLt(e.in, m.p)
      [] IsMont(op) -> BLt(Reg(m, e.a), m.p)
      [] OTHER -> TRUE
=============================================================================
