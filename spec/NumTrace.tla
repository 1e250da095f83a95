----------------------------- MODULE NumTrace -----------------------------
(* Recorded runs of the register machine (drivers/num.cpp) against RegMachine. *)
EXTENDS RegMachine, TraceIO
VARIABLE m
NoMach == [n |-> 0, reg |-> <<>>, p |-> <<>>]
\* the word of an event that has none of a field
Wide(n) == [i \in 1..8 |-> IF i <= 6 THEN Zeros(n) ELSE Zeros(2 * n)]
Field(e, f, dflt) == IF f \in DOMAIN e THEN e[f] ELSE dflt
Full(e) == [op |-> e.op, d |-> Field(e, "d", -1), a |-> Field(e, "a", 0), b |-> Field(e, "b", 0), m |-> Field(e, "m", 0),
            in |-> Field(e, "in", <<>>), w |-> Field(e, "w", <<>>), c |-> Field(e, "c", 0)]
Good(e, r) ==
    /\ "out" \in DOMAIN e => e.out = r.v
    /\ "ret" \in DOMAIN e => e.ret = r.r
    /\ e.guard /\ ("inok" \in DOMAIN e => e.inok) /\ ("ok" \in DOMAIN e => e.ok)
Bad == Reject("call outside its domain: the harness is wrong")
\* N' with N' * p = -1 modulo the word
NOk(e) == LET k == Len(e.nn)
          IN  LastN(Pad(BAdd(BMul(e.nn, e.p), BOne), 64), k) = Zeros(k)
TCall(e) ==
    LET f == TLCEval(Full(e))
        r == TLCEval(Step(m, f))
    IN  IF ~Legal(m, f) THEN Bad
        ELSE Accept(Good(e, r), <<e.op, r.v, r.r>>, m' = IF r.d < 0 THEN m ELSE [m EXCEPT !.reg[r.d + 1] = r.v])
TraceInit == TraceStart /\ m = NoMach
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "mach" -> Accept(TRUE, "", m' = [n |-> e.bytes, reg |-> Wide(e.bytes), p |-> <<>>])
             [] e.op = "ctx" -> Accept(NOk(e), <<"N'", e.nn>>, m' = [m EXCEPT !.p = e.p])
             [] e.op = "dump" -> Accept(e.regs = m.reg /\ e.guard, <<"dump", m.reg>>, UNCHANGED m)
             [] e.op = "Zepi" -> Accept(e.one = <<1, 35, 69, 103, 137, 171, 205, 239>>
                                        /\ e.four = <<241, 2, 3, 4, 5, 6, 7, 248>> \o [i \in 1..15 |-> 8 + i] \o <<24, 25, 0, 255, 28, 29, 30, 31, 224>>,
                                        <<"constants">>, UNCHANGED m)
             [] e.op = "fault" -> Reject("fault")
             [] OTHER -> TCall(e)
=============================================================================
