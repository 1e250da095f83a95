------------------------------ MODULE KeyModel ------------------------------
(***************************************************************************)
(* Histories of key objects: setting, generating and refusing keys,        *)
(* copying objects, deriving public-key objects, and using them.  Keys are *)
(* numbers in a small range; a refused key or a failed generation leaves   *)
(* the object as it was.  Histories are printed for replay with boundary   *)
(* values in place of the abstract ones.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Privs, Pubs, MaxCalls, Emit
VARIABLES obj, hist
vars == <<obj, hist>>
Ids == Privs \cup Pubs
Low == 1  High == 6  \* the order is 8: keys 1 .. n - 2
Order == High + 2
Offers == {0, 1, 3, 6, 7, 8}
None == 0
PubFor(k) == IF k = None THEN None ELSE (3 * k) % Order
KMInit == obj = [x \in Ids |-> [d |-> None, q |-> None]] /\ hist = <<>>
Call(c) == Len(hist) < MaxCalls /\ hist' = Append(hist, c)
SetPriv(x, k) == /\ Call([op |-> "setpriv", o |-> x, v |-> k])
                 /\ obj' = IF k \in Low..High THEN [obj EXCEPT ![x] = [d |-> k, q |-> PubFor(k)]] ELSE obj
Gen(x, draws) == \* a generator that may fail
    /\ Call([op |-> "genpriv", o |-> x, v |-> draws])
    /\ obj' = IF draws = <<>> THEN obj ELSE LET k == (draws[1] % (Order - 2)) + 1 IN [obj EXCEPT ![x] = [d |-> k, q |-> PubFor(k)]]
SetPub(y, good) == /\ Call([op |-> "setpub", o |-> y, v |-> good])
                   /\ obj' = IF good THEN [obj EXCEPT ![y].q = 1] ELSE obj
PubOf(y, x) == obj[x].q # None /\ Call([op |-> "pubof", o |-> y, from |-> x]) /\ obj' = [obj EXCEPT ![y].q = obj[x].q]
Copy(x, z) == x # z /\ obj[z].q # None /\ Call([op |-> "copy", o |-> x, from |-> z]) /\ obj' = [obj EXCEPT ![x] = obj[z]]
Use(x) == obj[x].q # None /\ (hist # <<>> => hist[Len(hist)].op # "use") /\ Call([op |-> "use", o |-> x]) /\ UNCHANGED obj
KMNext == \/ \E x \in Privs, k \in Offers : SetPriv(x, k)
          \/ \E x \in Privs, v \in {<<>>, <<0>>, <<5>>, <<7>>} : Gen(x, v)
          \/ \E y \in Pubs, g \in BOOLEAN : SetPub(y, g)
          \/ \E x \in Privs, y \in Pubs : PubOf(y, x)
          \/ \E x, z \in Privs : Copy(x, z)
          \/ \E x \in Ids : Use(x)
KMSpec == KMInit /\ [][KMNext]_vars
\* a private key is always in range and its public key is its own
InRange == \A x \in Privs : obj[x].d # None => obj[x].d \in Low..High
Match == \A x \in Privs : obj[x].q = PubFor(obj[x].d)
Done == Len(hist) = MaxCalls
Report == Done /\ Emit => PrintT("BEH " \o ToJson(hist))
Inv == InRange /\ Match /\ Report
=============================================================================
