------------------------------- MODULE GcmGen -------------------------------
(***************************************************************************)
(* 16-byte IVs that lead GCM to a chosen pre-counter block J0: the inverse  *)
(* of J0 = GHASH(H, IV || len(IV)).  Used to start counters just below the  *)
(* wrap of their low 32 bits.  And messages with their ciphertext and tag.  *)
(* GM_IN: lines {"k": "iv", "c": cipher, "key": .., "j0": ..} or            *)
(* {"k": "msg", "c": .., "key": .., "iv": .., "aad": .., "pt": ..}.         *)
(***************************************************************************)
EXTENDS BlockModes, Json, IOUtils
VARIABLE i
Req == ndJsonDeserialize(IOEnv.GM_IN)

\* h^-1 = h^(2^128 - 2) = h^2 h^4 ... h^(2^127)
GInv(h) == FoldLeft(LAMBDA a, k : LET s == GMul(a.s, a.s) IN [s |-> s, p |-> GMul(a.p, s)],
                    [s |-> h, p |-> <<128>> \o Zeros(15)], [k \in 1..127 |-> k]).p
LenBlk == Zeros(8) \o BitLen64(16)
IvFor(h, j0) == LET g == TLCEval(GInv(h)) IN GMul(XorB(GMul(j0, g), LenBlk), g)

Emit(x) == PrintT("BEH " \o ToJson(x))
GenInit == i = 0 /\ ModesInit
GenNext ==
    /\ i < Len(Req)
    /\ i' = i + 1 /\ UNCHANGED objs
    /\ LET r == Req[i + 1]
       IN  IF r.k = "iv"
           THEN LET h == TLCEval(GcmH(r.c, r.key))
                    iv == TLCEval(IvFor(h, r.j0))
                IN  /\ Assert(GcmJ0(h, iv) = r.j0, "inverse")
                    /\ Emit([c |-> r.c, key |-> r.key, iv |-> iv, j0 |-> r.j0])
           ELSE LET ct == TLCEval(StdGcmText(r.c, r.key, r.iv, r.pt))
                IN  Emit([c |-> r.c, key |-> r.key, iv |-> r.iv, aad |-> r.aad, pt |-> r.pt, ct |-> ct,
                          tag |-> StdGcmTag(r.c, r.key, r.iv, r.aad, ct)])
=============================================================================
