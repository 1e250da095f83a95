----------------------------- MODULE HashTrace -----------------------------
(***************************************************************************)
(* Recorded calls on real hash, GHASH and HMAC objects against HashObjs.   *)
(***************************************************************************)
EXTENDS HashObjs, TraceIO
VARIABLE objs
With(id, o) == objs' = (id :> o) @@ objs

TNew(e) == Accept(e.ds = HDS(e.kind) /\ e.bs \in {0, HBS(e.kind)}, "sizes", With(e.id, NewHash(e.kind)))
TCopy(e) == Accept(TRUE, "", With(e.id, objs[e.from]))
TKey(e) == Accept(e.exc = "" /\ e.guard, "key", With(e.id, KeyHash(objs[e.id], e.key)))
TRepKey(e) == Accept(e.exc = "", "key", objs[e.id].kind = "hmac-sm3" /\ e.n > 1 /\ With(e.id, KeyRep(objs[e.id], e.block, e.n, e.tail)))
TReset(e) == Accept(e.exc = "", "reset", With(e.id, Fresh(objs[e.id])))
TUpd(e) == Accept(e.exc = "" /\ e.guard, "update", objs[e.id].ph = "run" /\ With(e.id, Absorb(objs[e.id], e.in)))
TRep(e) == Accept(e.exc = "", "update", objs[e.id].ph = "run" /\ With(e.id, AbsorbRep(objs[e.id], e.block, e.n)))
TFin(e) ==
    LET r == TLCEval(FinHash(objs[e.id], e.in))
    IN  Accept(IF r.fail THEN e.exc = "runtime_error" /\ e.guard
               ELSE e.exc = "" /\ e.out = r.out /\ e.guard,
               <<"digest", r.fail, r.out>>, objs[e.id].ph = "run" /\ With(e.id, r.o))

TraceInit == TraceStart /\ objs = <<>>
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "new" -> TNew(e)
             [] e.op = "copy" -> TCopy(e)
             [] e.op = "key" -> TKey(e)
             [] e.op = "rkey" -> TRepKey(e)
             [] e.op = "reset" -> TReset(e)
             [] e.op = "upd" -> TUpd(e)
             [] e.op = "rep" -> TRep(e)
             [] e.op = "fin" -> TFin(e)
             [] OTHER -> Reject(e.op)
=============================================================================
