---------------------------- MODULE CipherModel ----------------------------
(***************************************************************************)
(* Design model of a block cipher object that works in batches.  A state   *)
(* has the objects, and the call in progress: its input and the output     *)
(* written so far.  In each step of a call either a full batch of Width    *)
(* blocks or one left-over block is done, in place or not.  The result of  *)
(* every finished call is the blocks one by one, decryption inverts        *)
(* encryption, and no other block of the buffer changes.                   *)
(***************************************************************************)
EXTENDS CipherObjs, Json

CONSTANTS Kind, Width, Counts, Ids, MaxCalls, Emit
VARIABLES objs, call, buf, hist
vars == <<objs, call, buf, hist>>

BS == CipherBS(Kind)
KeyB(k) == [i \in 1..CipherKeyLen(Kind) |-> (89 * (100 + k) + 31 * (k + i) + 7 * (k + i) * (k + i)) % 256]
Data(n) == [i \in 1..(n * BS) |-> (37 * i + 11 * n + 5 * (i \div BS) * i) % 256]
Idle == [id |-> "-", done |-> 0, n |-> 0, inp |-> FALSE, src |-> <<>>, out |-> <<>>]

CMInit == /\ objs = [i \in Ids |-> [o |-> NoKey, key |-> 0]]
          /\ call = Idle /\ buf = <<>> /\ hist = <<>>
NC == Len(hist)
SetKey(i, k, d) ==
    /\ call = Idle /\ NC < MaxCalls
    /\ objs' = [objs EXCEPT ![i] = [o |-> TLCEval(Keyed(Kind, KeyB(k), d)), key |-> k]]
    /\ hist' = Append(hist, [op |-> "key", id |-> i, k |-> k, dir |-> d, n |-> 0, inp |-> FALSE])
    /\ UNCHANGED <<call, buf>>
Copy(i, j) ==
    /\ call = Idle /\ NC < MaxCalls /\ i # j /\ objs[j].o.dir # "-"
    /\ objs' = [objs EXCEPT ![i] = objs[j]]
    /\ hist' = Append(hist, [op |-> "copy", id |-> i, k |-> 0, dir |-> j, n |-> 0, inp |-> FALSE])
    /\ UNCHANGED <<call, buf>>
Begin(i, n, inp) ==
    /\ call = Idle /\ NC < MaxCalls /\ objs[i].o.dir # "-"
    /\ LET src == Data(n)
       IN  /\ call' = [id |-> i, done |-> 0, n |-> n, inp |-> inp, src |-> src, out |-> IF inp THEN src ELSE Zeros(n * BS)]
           /\ buf' = src
    /\ hist' = Append(hist, [op |-> "blks", id |-> i, k |-> 0, dir |-> objs[i].o.dir, n |-> n, inp |-> inp])
    /\ UNCHANGED objs
Step ==
    /\ call # Idle /\ call.done < call.n
    /\ LET w == IF call.n - call.done >= Width THEN Width ELSE 1
           from == call.done * BS + 1
           cur == IF call.inp THEN call.out ELSE buf
           r == Blocks(Kind, objs[call.id].o, Slice(cur, from, w * BS))
       IN  call' = [call EXCEPT !.done = call.done + w,
                                !.out = Take(call.out, from - 1) \o r \o Drop(call.out, from - 1 + w * BS)]
    /\ UNCHANGED <<objs, buf, hist>>
Finish == call # Idle /\ call.done = call.n /\ call' = Idle /\ buf' = <<>> /\ UNCHANGED <<objs, hist>>
CMNext ==
    \/ \E i \in Ids, k \in 1..2, d \in {"e", "d"} : SetKey(i, k, d)
    \/ \E i, j \in Ids : Copy(i, j)
    \/ \E i \in Ids, n \in Counts, p \in BOOLEAN : Begin(i, n, p)
    \/ Step \/ Finish
CMSpec == CMInit /\ [][CMNext]_vars

PrefixOK == call # Idle =>
    LET k == call.done * BS
    IN  /\ Take(call.out, k) = Blocks(Kind, objs[call.id].o, Take(call.src, k))
        /\ Drop(call.out, k) = IF call.inp THEN Drop(call.src, k) ELSE Zeros(call.n * BS - k)
        /\ ~call.inp => buf = call.src
InverseOK == (call # Idle /\ call.done = call.n) =>
    LET x == objs[call.id]
        back == Keyed(Kind, KeyB(x.key), IF x.o.dir = "e" THEN "d" ELSE "e")
    IN  Blocks(Kind, back, call.out) = call.src
Emitted == (Emit /\ call = Idle /\ NC = MaxCalls) => PrintT("BEH " \o ToJson([calls |-> hist]))
Inv == PrefixOK /\ InverseOK /\ Emitted
CMView == <<objs, call, buf, NC>>
=============================================================================
