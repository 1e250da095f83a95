------------------------------ MODULE RngModel ------------------------------
(***************************************************************************)
(* A generator that fills a request from a device giving W bytes a step;   *)
(* any step may fail, and a unit is given up after Retries repeated        *)
(* failures.  Byte i of the output is written down as <<step, position>>,  *)
(* the device byte it came from.  Every fault sequence ends in a full      *)
(* request or an error, no byte comes from a failed step, and no device    *)
(* byte is used twice.  Each behaviour is printed for replay.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Retries, MaxLen, Emit
VARIABLES len, out, hist, fails, st
vars == <<len, out, hist, fails, st>>
Least(a, b) == IF a < b THEN a ELSE b
RInit == len \in 0..MaxLen /\ out = <<>> /\ hist = <<>> /\ fails = 0 /\ st = "run"
StepOk == /\ st = "run" /\ Len(out) < len
          /\ out' = out \o [i \in 1..Least(W, len - Len(out)) |-> <<Len(hist) + 1, i>>]
          /\ hist' = Append(hist, 1) /\ fails' = 0
          /\ UNCHANGED <<len, st>>
StepFail == /\ st = "run" /\ Len(out) < len
            /\ hist' = Append(hist, 0) /\ fails' = fails + 1
            /\ st' = (IF fails + 1 > Retries THEN "err" ELSE "run")
            /\ UNCHANGED <<len, out>>
Finish == /\ st = "run" /\ Len(out) = len /\ st' = "ok" /\ UNCHANGED <<len, out, hist, fails>>
RNext == StepOk \/ StepFail \/ Finish
RSpec == RInit /\ [][RNext]_vars /\ WF_vars(RNext)
Inv == /\ Len(out) <= len
       /\ \A i \in 1..Len(out) : hist[out[i][1]] = 1 /\ out[i][2] \in 1..W
       /\ Cardinality({out[i] : i \in 1..Len(out)}) = Len(out)
       /\ st = "ok" => Len(out) = len
       /\ st = "err" => Len(hist) > Retries /\ \A j \in (Len(hist) - Retries)..Len(hist) : hist[j] = 0
       /\ (Emit /\ st # "run") => PrintT("BEH " \o ToJson([len |-> len, hist |-> hist]))
Ends == <>(st # "run")
=============================================================================
