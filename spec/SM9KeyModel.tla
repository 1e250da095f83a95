---------------------------- MODULE SM9KeyModel ----------------------------
(***************************************************************************)
(* Histories of SM9 key objects: a master key (set or generated, refused   *)
(* or failing), user keys (extracted, refused, imported), public-key       *)
(* objects, copies and uses.  Keys and identities are numbers in a small   *)
(* range; group elements are their logarithms.  A user key stays what it   *)
(* was when the master key moves on.  Histories are printed for replay.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxCalls, Emit
VARIABLES m, u, q, hist
vars == <<m, u, q, hist>>
Order == 7
None == [k |-> 0]
Users == {"u", "v"}
InvN(x) == CHOOSE y \in 1..(Order - 1) : (x * y) % Order = 1
Offers == {0, 1, 3, 6, 7, 8}
InRange(k) == k \in 1..(Order - 1)
\* the identity's hash is 1..n-1; "none" is the one without a user key
IdHash(id) == IF id = "none" THEN (Order - m.k) % Order ELSE IF id = "double" THEN m.k ELSE (2 * m.k) % Order
UserLog(h1, k) == (k * InvN((h1 + k) % Order)) % Order
KInit == m = None /\ u = [x \in Users |-> [d |-> 0, pub |-> 0, id |-> 0]] /\ q = 0 /\ hist = <<>>
Call(c) == Len(hist) < MaxCalls /\ hist' = Append(hist, c)
SetM(k) == Call([op |-> "msetpriv", v |-> k]) /\ m' = (IF InRange(k) THEN [k |-> k] ELSE m) /\ UNCHANGED <<u, q>>
GenM(d) == Call([op |-> "mgenpriv", v |-> d]) /\ m' = (IF d = <<>> THEN m ELSE [k |-> (d[1] % (Order - 1)) + 1]) /\ UNCHANGED <<u, q>>
Extract(x, id) ==
    /\ m.k # 0
    /\ Call([op |-> "extract", o |-> x, id |-> id])
    /\ u' = IF (IdHash(id) + m.k) % Order = 0 THEN u ELSE [u EXCEPT ![x] = [d |-> UserLog(IdHash(id), m.k), pub |-> m.k, id |-> IdHash(id)]]
    /\ UNCHANGED <<m, q>>
Import(x, good) ==
    /\ Call([op |-> "usetpriv", o |-> x, v |-> good])
    \* a refused import changes nothing
    /\ u' = IF good = "good" THEN [u EXCEPT ![x] = [d |-> UserLog(1, 2), pub |-> 2, id |-> 1]] ELSE u
    /\ UNCHANGED <<m, q>>
SetPub(good) == Call([op |-> "setpub", v |-> good]) /\ q' = (IF good THEN 1 ELSE q) /\ UNCHANGED <<m, u>>
PubOf(from) == LET p == IF from = "a" THEN m.k ELSE u[from].pub
               IN  p # 0 /\ Call([op |-> "pubof", from |-> from]) /\ q' = p /\ UNCHANGED <<m, u>>
Copy(x, y) == x # y /\ u[y].d # 0 /\ Call([op |-> "copy", o |-> x, from |-> y]) /\ u' = [u EXCEPT ![x] = u[y]] /\ UNCHANGED <<m, q>>
Use(x) == u[x].d # 0 /\ hist[Len(hist)].op # "use" /\ Call([op |-> "use", o |-> x]) /\ UNCHANGED <<m, u, q>>
KNext == \/ \E k \in Offers : SetM(k)
         \/ \E d \in {<<>>, <<0>>, <<5>>, <<6>>} : GenM(d)
         \/ \E x \in Users, id \in {"some", "none", "double"} : Extract(x, id)
         \/ \E x \in Users, g \in {"good", "badpriv", "badpub"} : Import(x, g)
         \/ \E g \in BOOLEAN : SetPub(g)
         \/ \E f \in Users \cup {"a"} : PubOf(f)
         \/ \E x, y \in Users : Copy(x, y)
         \/ \E x \in Users : Use(x)
KSpec == KInit /\ [][KNext]_vars
Ranges == m.k \in 0..(Order - 1)
\* e(d, [h1]P2 + Ppub) = e(P1, Ppub): the user key fits its identity and its public key
Fits == \A x \in Users : u[x].d # 0 => (u[x].d * (u[x].id + u[x].pub)) % Order = u[x].pub
Done == Len(hist) = MaxCalls
Report == Done /\ Emit => PrintT("BEH " \o ToJson(hist))
Inv == Ranges /\ Fits /\ Report
=============================================================================
