----------------------------- MODULE HashModel -----------------------------
(***************************************************************************)
(* Every history of calls on hash objects: a digest is always the one-shot  *)
(* function of what the object received since its last key or reset.        *)
(***************************************************************************)
EXTENDS HashObjs, Json
CONSTANTS Kinds, Sizes, FinSizes, Ids, MaxCalls, Emit, Multi
VARIABLES objs, fed, kx, dig, hist
vars == <<objs, fed, kx, dig, hist>>

Msg(salt, pos, n) == TLCEval([i \in 1..n |-> (89 * salt + 31 * (pos + i) + 7 * (pos + i) * (pos + i)) % 256])
KeyLen(kind, k) == IF kind = "ghash" THEN 16 ELSE IF k = 1 THEN 3 ELSE IF k = 2 THEN HBS(kind) + 3 ELSE HBS(kind)
KeyOf(kind, k) == Msg(100 + k, k, KeyLen(kind, k))
Salt(id) == IF id = "a" THEN 1 ELSE 2
NeedKey(kind) == kind = "ghash" \/ IsHmac(kind)
O(id) == objs[id]
With(id, o) == objs' = [objs EXCEPT ![id] = o]
EmitNow(h) == ~Emit \/ PrintT("BEH " \o ToJson([kind |-> O("a").kind, calls |-> h]))
Log(e) == hist' = Append(hist, e)
AtEnd == Len(hist) + 1 = MaxCalls

MInit ==
    /\ \E kind \in Kinds :
         objs = [id \in Ids |-> LET o == NewHash(kind) IN IF NeedKey(kind) /\ ~Multi THEN KeyHash(o, KeyOf(kind, 1)) ELSE o]
    /\ kx = [id \in Ids |-> IF Multi THEN 0 ELSE 1]
    /\ fed = [id \in Ids |-> <<>>] /\ dig = [id \in Ids |-> <<>>] /\ hist = <<>>

MKey(id, k) ==
    /\ NeedKey(O(id).kind)
    /\ With(id, KeyHash(O(id), KeyOf(O(id).kind, k)))
    /\ kx' = [kx EXCEPT ![id] = k]
    /\ fed' = [fed EXCEPT ![id] = <<>>] /\ dig' = [dig EXCEPT ![id] = <<>>]
    /\ Log([op |-> "key", id |-> id, key |-> KeyOf(O(id).kind, k)])
    /\ (AtEnd => EmitNow(hist'))
MReset(id) ==
    /\ O(id).ph # "raw" /\ ~IsHmac(O(id).kind)
    /\ With(id, Fresh(O(id)))
    /\ fed' = [fed EXCEPT ![id] = <<>>] /\ dig' = [dig EXCEPT ![id] = <<>>] /\ UNCHANGED kx
    /\ Log([op |-> "reset", id |-> id])
    /\ (AtEnd => EmitNow(hist'))
MUpd(id, n) ==
    LET in == Msg(Salt(id), Len(fed[id]), n)
    IN  /\ O(id).ph = "run"
        /\ With(id, Absorb(O(id), in))
        /\ fed' = [fed EXCEPT ![id] = @ \o in] /\ UNCHANGED <<kx, dig>>
        /\ Log([op |-> "upd", id |-> id, in |-> in])
        /\ (Multi /\ AtEnd => EmitNow(hist'))
MFin(id, n) ==
    LET in == Msg(Salt(id), Len(fed[id]), n)
        r == TLCEval(FinHash(O(id), in))
    IN  /\ O(id).ph = "run"
        /\ With(id, r.o)
        /\ fed' = [fed EXCEPT ![id] = @ \o in]
        /\ dig' = [dig EXCEPT ![id] = IF r.fail THEN <<999>> ELSE r.out] /\ UNCHANGED kx
        /\ Log([op |-> "fin", id |-> id, in |-> in])
        /\ (~Multi \/ AtEnd => EmitNow(hist'))
MCopy(id, from, how) ==
    /\ id # from
    /\ With(id, O(from))
    /\ fed' = [fed EXCEPT ![id] = fed[from]] /\ dig' = [dig EXCEPT ![id] = dig[from]] /\ kx' = [kx EXCEPT ![id] = kx[from]]
    /\ Log([op |-> how, id |-> id, from |-> from])
    /\ (AtEnd => EmitNow(hist'))
MNext ==
    /\ Len(hist) < MaxCalls
    /\ \/ \E id \in Ids, n \in Sizes : MUpd(id, n)
       \/ \E id \in Ids, n \in FinSizes : MFin(id, n)
       \/ Multi /\ \E id \in Ids : MReset(id) \/ \E k \in 1..3 : MKey(id, k)
       \/ Multi /\ \E id, from \in Ids, how \in {"copy", "assign"} : MCopy(id, from, how)
MSpec == MInit /\ [][MNext]_vars

\* histories are told apart only when they are emitted
MView == <<objs, fed, kx, dig, Len(hist)>>

Inv == \A id \in Ids :
    LET o == O(id)  n == Len(fed[id])
    IN  /\ o.ph = "run" => (IF IsHmac(o.kind) THEN TRUE ELSE o.pend = LastN(fed[id], n % HBS(o.kind)))
        /\ dig[id] # <<>> =>
             IF dig[id] = <<999>> THEN o.kind = "ghash" /\ n % 16 # 0
             ELSE dig[id] = IF IsHmac(o.kind) THEN StdHMAC(Inner(o.kind), KeyOf(o.kind, kx[id]), fed[id])
                            ELSE StdHash(o.kind, IF o.kind = "ghash" THEN KeyOf(o.kind, kx[id]) ELSE <<>>, fed[id])
=============================================================================
