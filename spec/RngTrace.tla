------------------------------ MODULE RngTrace ------------------------------
(***************************************************************************)
(* Recorded requests to the library's generators (drivers/rng.cpp).  gen:  *)
(* the device was scripted and its steps are in the event; real: the       *)
(* device was the real one and the request was repeated.  A generator is   *)
(* free in how it takes bytes from the device, so the output is compared   *)
(* as a bag: no device byte may serve twice, none of a failed step at all. *)
(***************************************************************************)
EXTENDS TraceIO, FiniteSets, BigNum
Untouched == 195
RECURSIVE Given(_, _)
Given(steps, i) == IF i = 0 THEN <<>> ELSE Given(steps, i - 1) \o (IF steps[i].ok THEN steps[i].b ELSE <<>>)
Count(s, b) == Cardinality({i \in 1..Len(s) : s[i] = b})
Within(x, y) == \A b \in {x[i] : i \in 1..Len(x)} : Count(x, b) <= Count(y, b)
\* the longest run of failed steps that ends the request
RECURSIVE Fails(_, _)
Fails(steps, i) == IF i = 0 THEN 0 ELSE IF steps[i].ok THEN 0 ELSE 1 + Fails(steps, i - 1)
Need(k, r) == IF k \in {"std", "cstd"} \/ r = 0 THEN 1 ELSE r
TGen(e) ==
    LET given == TLCEval(Given(e.steps, Len(e.steps)))
    IN  Accept(/\ e.guard /\ \A i \in 1..Len(e.tail) : e.tail[i] = Untouched
               /\ IF e.err = "" THEN Len(e.out) = e.len /\ Within(e.out, given)
                  ELSE Fails(e.steps, Len(e.steps)) >= Need(e.k, e.r),
               <<"bytes of the device", Len(given), "failures", Fails(e.steps, Len(e.steps))>>, TRUE)
\* 16 rounds or more: a byte that always kept its old value was not written
TReal(e) ==
    LET done == {k \in 1..Len(e.rounds) : e.rounds[k].err = ""}
        R(k) == e.rounds[k]
    IN  Accept(/\ e.guard
               /\ \A k \in 1..Len(e.rounds) : \A i \in 1..Len(R(k).tail) : R(k).tail[i] = R(k).fill
               /\ Cardinality(done) >= 12 => \A i \in 1..e.len : \E k \in done : R(k).out[i] # R(k).fill
               /\ e.len >= 16 => \A a, b \in done : a = b \/ R(a).out # R(b).out
               /\ e.k \in {"std", "cstd"} => done = 1..Len(e.rounds),
               <<"every byte written, no round repeated", Cardinality(done)>>, TRUE)
\* a request too long to record
TGenBig(e) == Accept(e.err = "" /\ e.guard /\ e.kept = 0 /\ e.twice = 0 /\ BCmp(e.given, e.len) >= 0, <<"long request">>, TRUE)
TraceInit == TraceStart
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "gen" -> TGen(e)
             [] e.op = "real" -> TReal(e)
             [] e.op = "genbig" -> TGenBig(e)
             [] OTHER -> Reject(e.op)
=============================================================================
