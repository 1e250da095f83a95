------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded traces.  The file named by the environment variable    *)
(* GM_TRACE has one JSON object per line, {"t": name, "ev": [event ...]}.  *)
(* A trace specification has variables t (which trace) and l (the next     *)
(* event); it accepts an event with Accept and refuses it with Reject,     *)
(* which prints the position and leaves the behaviour without a successor. *)
(***************************************************************************)
EXTENDS Json, IOUtils, TLC, Naturals, Sequences

Traces == ndJsonDeserialize(IOEnv.GM_TRACE)

VARIABLES t, l

TraceStart == t \in 1..Len(Traces) /\ l = 1
More == l <= Len(Traces[t].ev)
Event == Traces[t].ev[l]
Reject(why) == PrintT(<<"REJECT", Traces[t].t, l, why>>) /\ FALSE
Advance == l' = l + 1 /\ t' = t
\* the event is allowed iff ok; act is the specification's step
Accept(ok, why, act) == IF ok THEN act /\ Advance ELSE Reject(why)
\* a listed departure of the code from the specification: reported by its tag
Known(tag, ok, act) == IF ok THEN PrintT(<<"KNOWN", Traces[t].t, l, tag>>) /\ act /\ Advance ELSE Reject(tag)
=============================================================================
