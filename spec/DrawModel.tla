----------------------------- MODULE DrawModel -----------------------------
(***************************************************************************)
(* Operations that draw secrets from one generator.  The generator gives   *)
(* an endless stream; any request may fail instead.  An operation draws    *)
(* until a draw is usable ("good"), and gives up at the first failure.     *)
(* Secrets of finished operations never share stream positions, a failed   *)
(* operation has no result and changes no key.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxOps, MaxDraws, Emit
VARIABLES pos, key, cur, done, hist
vars == <<pos, key, cur, done, hist>>
None == [op |-> "none", draws |-> <<>>]
DInit == pos = 0 /\ key = 0 /\ cur = None /\ done = <<>> /\ hist = <<>>
Begin(k) == cur = None /\ Len(hist) < MaxOps /\ cur' = [op |-> k, draws |-> <<>>] /\ UNCHANGED <<pos, key, done, hist>>
Bad == /\ cur # None /\ Len(cur.draws) < MaxDraws
       /\ cur' = [cur EXCEPT !.draws = Append(@, "bad")] /\ pos' = pos + 1 /\ UNCHANGED <<key, done, hist>>
Good == /\ cur # None
        /\ pos' = pos + 1 /\ done' = Append(done, pos + 1)
        /\ key' = (IF cur.op = "genpriv" THEN pos + 1 ELSE key)
        /\ hist' = Append(hist, [op |-> cur.op, draws |-> Append(cur.draws, "good")]) /\ cur' = None
Fail == /\ cur # None
        /\ hist' = Append(hist, [op |-> cur.op, draws |-> Append(cur.draws, "fail")]) /\ cur' = None
        /\ UNCHANGED <<pos, key, done>>
DNext == (\E k \in Kinds : Begin(k)) \/ Bad \/ Good \/ Fail
DSpec == DInit /\ [][DNext]_vars
Results == Len(SelectSeq(hist, LAMBDA h : h.draws[Len(h.draws)] = "good"))
Inv == /\ Cardinality({done[i] : i \in 1..Len(done)}) = Len(done)
       /\ \A i \in 1..Len(done) : done[i] \in 1..pos
       /\ Results = Len(done)
       /\ key = 0 \/ \E i \in 1..Len(done) : done[i] = key
       /\ (Emit /\ cur = None /\ Len(hist) = MaxOps) => PrintT("BEH " \o ToJson(hist))
NoChange == [][key' # key => done' # done]_vars
=============================================================================
