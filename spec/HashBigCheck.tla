---------------------------- MODULE HashBigCheck ----------------------------
(* AbsorbRep and KeyRep agree with absorbing the copies one by one. *)
EXTENDS HashObjs
VARIABLE i
X(k, n) == [j \in 1..n |-> (k * 57 + 13 * j + ((j * j) % 7)) % 256]
Obj(k, kind) == LET o == IF kind = "ghash" THEN KeyHash(NewHash(kind), X(k, 16)) ELSE NewHash(kind)
                IN  Absorb(o, X(k + 3, (k * 5) % 37))
Agree(k) == \A kind \in {"sm3", "ghash"} : LET o == TLCEval(Obj(k, kind)) IN \A n \in {0, 1, 2, 3, 4, 5, 7, 8, 13, 32 + k} : AbsorbRep(o, X(k + 9, 64), n) = AbsorbRepDef(o, X(k + 9, 64), n)
RECURSIVE Copies(_, _)
Copies(b, n) == IF n = 0 THEN <<>> ELSE b \o Copies(b, n - 1)
Keyed(k) == \A n \in {2, 3, 5} : LET o == NewHash("hmac-sm3")  t == X(k, (11 * k) % 65)
                                 IN  /\ KeyRep(o, X(k + 9, 64), n, t) = KeyHash(o, Copies(X(k + 9, 64), n) \o t)
                                     /\ LET q == KeyHash(o, t) IN AbsorbRep(q, X(k, 64), n) = AbsorbRepDef(q, X(k, 64), n)
GInit == i \in 1..24
GNext == UNCHANGED i
Spec == GInit /\ [][GNext]_i
Inv == Agree(i) /\ Keyed(i)
=============================================================================
