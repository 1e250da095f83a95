----------------------------- MODULE LimbModel -----------------------------
(***************************************************************************)
(* Design model of the multi-limb algorithms: numbers are L limbs in base  *)
(* Base, a call works on one limb (or one row) at a time in place, and its *)
(* destination may be a source.  Ghost registers hold the mathematical     *)
(* values; whenever no call is under way they agree, and so does what the  *)
(* call returned.  Moduli are all odd numbers with the top digit set.      *)
(* With Emit, each program (from the zero state) is printed for replay.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Base, L, MaxCalls, Calls, Emit
VARIABLES reg, ghost, cur, hist

vars == <<reg, ghost, cur, hist>>
Big == Base ^ L
Nums == 0..(Big - 1)
RECURSIVE ValOf(_)
ValOf(s) == IF s = <<>> THEN 0 ELSE s[1] + Base * ValOf(Tail(s))
RECURSIVE LimbsOf(_, _)
LimbsOf(x, k) == IF k = 0 THEN <<>> ELSE <<x % Base>> \o LimbsOf(x \div Base, k - 1)
Idle == [op |-> "idle"]
Regs == 1..3
Moduli == {x \in Nums : x % 2 = 1 /\ x >= Big \div 2}

\* a modular call needs reduced operands; the modulus is the third register
Ready(op, a, b) ==
    /\ op \in {"madd", "msub"} => ghost[3] \in Moduli /\ ghost[a] < ghost[3] /\ ghost[b] < ghost[3]
    /\ op = "divw" => ghost[b] % Base # 0
LMInit ==
    /\ ghost \in [Regs -> Nums]
    /\ Emit => ghost = [r \in Regs |-> 0]
    /\ reg = [r \in Regs |-> LimbsOf(ghost[r], L)]
    /\ cur = Idle /\ hist = <<>>
Start(op, d, a, b) ==
    /\ cur = Idle /\ Len(hist) < MaxCalls
    /\ Emit \/ Ready(op, a, b)
    /\ op \in {"dbl", "tpl", "cpy"} => b = a
    /\ op \in {"madd", "msub"} => d # 3
    /\ hist' = Append(hist, [op |-> op, d |-> d, a |-> a, b |-> b])
    /\ cur' = [op |-> op, d |-> d, a |-> a, b |-> b, i |-> IF op = "divw" THEN L ELSE 1, c |-> 0, phase |-> 0,
               w |-> ghost[b] % Base, r0 |-> ghost]
    /\ UNCHANGED <<reg, ghost>>
Put(x, carry, down) ==
    /\ reg' = [reg EXCEPT ![cur.d][cur.i] = x]
    /\ cur' = [cur EXCEPT !.i = IF down THEN @ - 1 ELSE @ + 1, !.c = carry]
    /\ UNCHANGED <<ghost, hist>>
X == reg[cur.a][cur.i]
Y == reg[cur.b][cur.i]
Walking == cur.op # "idle" /\ cur.i \in 1..L
\* one limb: read both sources, write the destination
LimbStep ==
    /\ Walking
    /\ CASE cur.op = "add" -> LET s == X + Y + cur.c IN Put(s % Base, s \div Base, FALSE)
         [] cur.op = "dbl" -> LET s == 2 * X + cur.c IN Put(s % Base, s \div Base, FALSE)
         [] cur.op = "tpl" -> LET s == 3 * X + cur.c IN Put(s % Base, s \div Base, FALSE)
         [] cur.op = "sub" -> LET s == X - Y - cur.c IN Put(s % Base, IF s < 0 THEN 1 ELSE 0, FALSE)
         [] cur.op = "mulw" -> LET s == X * cur.w + cur.c IN Put(s % Base, s \div Base, FALSE)
         [] cur.op = "divw" -> LET s == cur.c * Base + X IN Put(s \div cur.w, s % cur.w, TRUE)
         [] cur.op = "cpy" -> Put(X, 0, FALSE)
         [] cur.op = "madd" ->
              IF cur.phase = 0 THEN LET s == X + Y + cur.c IN Put(s % Base, s \div Base, FALSE)
              ELSE LET s == reg[cur.d][cur.i] - reg[3][cur.i] - cur.c IN Put(s % Base, IF s < 0 THEN 1 ELSE 0, FALSE)
         [] cur.op = "msub" ->
              IF cur.phase = 0 THEN LET s == X - Y - cur.c IN Put(s % Base, IF s < 0 THEN 1 ELSE 0, FALSE)
              ELSE LET s == reg[cur.d][cur.i] + reg[3][cur.i] + cur.c IN Put(s % Base, s \div Base, FALSE)
\* a modular call corrects by the modulus when it must
NeedFix == CASE cur.op = "madd" -> cur.c = 1 \/ ValOf(reg[cur.d]) >= ghost[3]
             [] cur.op = "msub" -> cur.c = 1
             [] OTHER -> FALSE
Fix == /\ cur.op \in {"madd", "msub"} /\ cur.i = L + 1 /\ cur.phase = 0 /\ NeedFix
       /\ cur' = [cur EXCEPT !.i = 1, !.c = 0, !.phase = 1]
       /\ UNCHANGED <<reg, ghost, hist>>
Math == LET a == cur.r0[cur.a]  b == cur.r0[cur.b]  p == cur.r0[3]
        IN CASE cur.op = "add" -> <<(a + b) % Big, (a + b) \div Big>>
             [] cur.op = "dbl" -> <<(2 * a) % Big, (2 * a) \div Big>>
             [] cur.op = "tpl" -> <<(3 * a) % Big, (3 * a) \div Big>>
             [] cur.op = "sub" -> <<(a - b) % Big, IF a < b THEN 1 ELSE 0>>
             [] cur.op = "mulw" -> <<(a * cur.w) % Big, (a * cur.w) \div Big>>
             [] cur.op = "divw" -> <<a \div cur.w, a % cur.w>>
             [] cur.op = "cpy" -> <<a, 0>>
             [] cur.op = "madd" -> <<(a + b) % p, -1>>
             [] cur.op = "msub" -> <<(a - b) % p, -1>>
Done ==
    /\ cur.op # "idle" /\ ~Walking
    /\ ~(cur.op \in {"madd", "msub"} /\ cur.phase = 0 /\ NeedFix)
    /\ ghost' = [ghost EXCEPT ![cur.d] = ValOf(reg[cur.d])]
    /\ cur' = Idle
    /\ UNCHANGED <<reg, hist>>
    /\ Assert(ValOf(reg[cur.d]) = Math[1] /\ (Math[2] >= 0 => cur.c = Math[2]), <<cur, reg>>)
Skip == \* when only programs are wanted
    /\ Emit /\ cur.op # "idle" /\ cur' = Idle /\ UNCHANGED <<reg, ghost, hist>>
    /\ PrintT("BEH " \o ToJson(hist))
LMNext == (\E op \in Calls, d, a, b \in Regs : Start(op, d, a, b)) \/ (IF Emit THEN Skip ELSE LimbStep \/ Fix \/ Done)
LMSpec == LMInit /\ [][LMNext]_vars
Inv == cur = Idle => \A r \in Regs : ValOf(reg[r]) = ghost[r] \/ Emit
=============================================================================
