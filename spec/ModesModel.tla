----------------------------- MODULE ModesModel -----------------------------
(***************************************************************************)
(* Exhaustive check of the BlockModes machine, and the source of the        *)
(* behaviours replayed on the code.  One or more objects; every history of  *)
(* at most MaxCalls calls.  fed[id] is what the object received since its   *)
(* last Init or Reset and got[id] what it returned: whatever else happened, *)
(* got must be what the standard defines for fed.                           *)
(***************************************************************************)
EXTENDS BlockModes, Json

CONSTANTS Ciphers, Modes, Dirs, Sizes, FinSizes, Ids, MaxCalls, Emit, Multi

VARIABLES fed, got, par, hist
vars == <<objs, fed, got, par, hist>>

Msg(salt, pos, n) == TLCEval([i \in 1..n |-> (89 * salt + 31 * (pos + i) + 7 * (pos + i) * (pos + i)) % 256])
KeyOf(c, k) == TLCEval([i \in 1..CipherKeyLen(c) |-> (k * 57 + 13 * i) % 256])
IvOf(m, c, k) == IF m = "ecb" THEN <<>>
                 ELSE IF m = "gcm" THEN TLCEval([i \in 1..(IF k = 1 THEN 12 ELSE 7) |-> (k * 101 + i) % 256])
                 ELSE TLCEval([i \in 1..CipherBS(c) |-> IF k = 1 THEN (200 + i) % 256 ELSE 255])
AadOf(m, k) == IF m = "gcm" THEN Msg(k, 0, IF k = 1 THEN 3 ELSE 17) ELSE <<>>

\* the IV in force: par is k after Init(k), 10k + j after Reset(j) under key k
KeyIdx(id) == IF par[id] >= 10 THEN par[id] \div 10 ELSE par[id]
IvIdx(id) == par[id] % 10

Salt(id) == IF id = "a" THEN 1 ELSE IF id = "b" THEN 2 ELSE 3

Log(e) == hist' = Append(hist, e)
Room == Len(hist) < MaxCalls

MInit ==
    /\ \E m \in Modes, d \in Dirs, c \in Ciphers :
          /\ (m = "gcm" => CipherBS(c) = 16)
          /\ LET o == NewObj(m, d, c) IN
             IF Multi
             THEN /\ objs = [id \in Ids |-> o]
                  /\ par = [id \in Ids |-> 0]
             ELSE /\ objs = [id \in Ids |-> InitObj(o, KeyOf(c, 1), IvOf(m, c, 1), AadOf(m, 1))]
                  /\ par = [id \in Ids |-> 1]
    /\ fed = [id \in Ids |-> <<>>]
    /\ got = [id \in Ids |-> <<>>]
    /\ hist = <<>>

O(id) == objs[id]
Chunk(id, n) == Msg(Salt(id), Len(fed[id]), n)

\* emit the behaviour when it ends (single object: at Final; several: at the last call)
EmitNow(h) ==
    ~Emit \/ PrintT("BEH " \o ToJson([mode |-> O("a").mode, enc |-> O("a").enc, ciph |-> O("a").ciph, calls |-> h]))

MReInit(id, k) ==
    LET c == O(id).ciph  m == O(id).mode
        e == [op |-> "init", id |-> id, key |-> KeyOf(c, k), iv |-> IvOf(m, c, k), aad |-> AadOf(m, k)]
    IN  /\ Init(id, e.key, e.iv, e.aad)
        /\ fed' = [fed EXCEPT ![id] = <<>>] /\ got' = [got EXCEPT ![id] = <<>>]
        /\ par' = [par EXCEPT ![id] = k] /\ Log(e)
        /\ (Len(hist) + 1 = MaxCalls => EmitNow(hist'))

MReset(id, k) ==
    \* Reset keeps the key and takes the other IV
    LET c == O(id).ciph  m == O(id).mode
        e == [op |-> "reset", id |-> id, iv |-> IvOf(m, c, k)]
    IN  /\ Reset(id, e.iv)
        /\ fed' = [fed EXCEPT ![id] = <<>>] /\ got' = [got EXCEPT ![id] = <<>>]
        /\ par' = [par EXCEPT ![id] = 10 * KeyIdx(id) + k] /\ Log(e)
        /\ (Len(hist) + 1 = MaxCalls => EmitNow(hist'))

MUpdate(id, n) ==
    LET in == Chunk(id, n)
        r == TLCEval(DoUpdate(O(id), in))
        e == [op |-> "upd", id |-> id, in |-> in]
    IN  /\ Update(id, in)
        /\ fed' = [fed EXCEPT ![id] = @ \o in]
        /\ got' = [got EXCEPT ![id] = @ \o r.out]
        /\ par' = par /\ Log(e)
        /\ (Multi /\ Len(hist) + 1 = MaxCalls => EmitNow(hist'))

\* kind: "" any mode but GCM decryption; "good"/"bad"/"none": with the right tag,
\* a wrong tag, or whatever tag is there already
MFinal(id, n, kind) ==
    LET in == Chunk(id, n)
        o == O(id)
        all == fed[id] \o in
        p == par[id] % 10
        tag0 == IF kind \in {"good", "bad"}
                THEN StdGcmTag(o.ciph, o.key, IvOf("gcm", o.ciph, p), AadOf("gcm", p), all) ELSE <<>>
        tag == IF kind = "bad" THEN [tag0 EXCEPT ![16] = (@ + 128) % 256] ELSE tag0
        o1 == IF kind \in {"good", "bad"} THEN [o EXCEPT !.tag = tag] ELSE o
        r == TLCEval(DoFinal(o1, in))
        es == (IF kind \in {"good", "bad"} THEN <<[op |-> "settag", id |-> id, tag |-> tag]>> ELSE <<>>)
              \o <<[op |-> "fin", id |-> id, in |-> in]>>
              \o (IF o.mode = "gcm" /\ o.enc THEN <<[op |-> "gettag", id |-> id]>> ELSE <<>>)
    IN  /\ o.ph = "run"
        /\ kind \in (IF o.mode = "gcm" /\ ~o.enc 
                    THEN {"good", "bad"} \cup (IF o.tag = <<>> THEN {} ELSE {"none"}) ELSE {""})
        /\ With(id, r.o)
        /\ fed' = [fed EXCEPT ![id] = all]
        /\ got' = [got EXCEPT ![id] = IF r.fail THEN <<999>> ELSE @ \o r.out]
        /\ par' = par /\ hist' = hist \o es
        /\ (kind = "good" => Assert(~r.fail, "authentic message rejected"))
        /\ (kind = "bad" => Assert(r.fail, "wrong tag accepted"))
        /\ ((~Multi \/ Len(hist') >= MaxCalls) => EmitNow(hist'))

\* the tag of the text received so far, set early
MSetTag(id) ==
    LET o == O(id)
        p == par[id] % 10
        tag == TLCEval(StdGcmTag(o.ciph, o.key, IvOf("gcm", o.ciph, p), AadOf("gcm", p), fed[id]))
    IN  /\ o.mode = "gcm" /\ ~o.enc /\ o.ph = "run" /\ o.tag = <<>>
        /\ SetTag(id, tag)
        /\ UNCHANGED <<fed, got, par>>
        /\ Log([op |-> "settag", id |-> id, tag |-> tag])
        /\ (Multi /\ Len(hist) + 1 = MaxCalls => EmitNow(hist'))

MCopy(id, from, how) ==
    /\ id # from
    /\ Copy(id, from)
    /\ fed' = [fed EXCEPT ![id] = fed[from]] /\ got' = [got EXCEPT ![id] = got[from]]
    /\ par' = [par EXCEPT ![id] = par[from]]
    /\ Log([op |-> how, id |-> id, from |-> from])
    /\ (Len(hist) + 1 = MaxCalls => EmitNow(hist'))

MNext ==
    /\ Room
    /\ \/ \E id \in Ids, n \in Sizes : MUpdate(id, n)
       \/ \E id \in Ids, n \in FinSizes, kind \in {"", "good", "bad", "none"} : MFinal(id, n, kind)
       \/ \E id \in Ids : MSetTag(id)
       \/ Multi /\ \E id \in Ids, k \in {1, 2} : MReInit(id, k) \/ MReset(id, k)
       \/ Multi /\ \E id, from \in Ids, how \in {"copy", "assign"} : MCopy(id, from, how)

MSpec == MInit /\ [][MNext]_vars

StdOut(id) ==
    LET o == O(id)  iv == IvOf(o.mode, o.ciph, IvIdx(id))
    IN  IF o.mode = "gcm" THEN StdGcmText(o.ciph, KeyOf(o.ciph, KeyIdx(id)), iv, fed[id])
        ELSE StdMode(o.mode, o.ciph, o.enc, KeyOf(o.ciph, KeyIdx(id)), iv, fed[id])

\* histories are told apart only when they are emitted
MView == <<objs, fed, got, par, Len(hist)>>

Inv ==
    \A id \in Ids :
        LET o == O(id)
            bs == CipherBS(o.ciph)
            n == Len(fed[id])
        IN  /\ o.ph = "run" =>
                 /\ Len(got[id]) = bs * (n \div bs)
                 /\ got[id] = Take(StdOut(id), Len(got[id]))
                 /\ o.pend = LastN(fed[id], n % bs)
            /\ o.ph = "end" =>
                 IF got[id] = <<999>>
                 THEN \/ Padded(o) /\ n % bs # 0
                      \/ o.mode = "gcm" /\ ~o.enc
                           /\ o.tag # StdGcmTag(o.ciph, o.key, IvOf("gcm", o.ciph, par[id]), AadOf("gcm", par[id]), fed[id])
                 ELSE /\ got[id] = StdOut(id) /\ (Padded(o) => n % bs = 0)
                      \* the other direction undoes it
                      /\ o.mode # "gcm" =>
                           StdMode(o.mode, o.ciph, ~o.enc, KeyOf(o.ciph, KeyIdx(id)),
                                   IvOf(o.mode, o.ciph, IvIdx(id)), got[id]) = fed[id]
            /\ (o.ph = "end" /\ o.mode = "gcm" /\ o.enc) =>
                  o.tag = StdGcmTag(o.ciph, o.key, IvOf("gcm", o.ciph, par[id]), AadOf("gcm", par[id]), got[id])
=============================================================================
