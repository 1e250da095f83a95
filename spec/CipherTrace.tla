---------------------------- MODULE CipherTrace ----------------------------
(* Recorded calls on real block cipher objects against CipherObjs. *)
EXTENDS CipherObjs, TraceIO
VARIABLE objs
With(id, o) == objs' = (id :> o) @@ objs

TNew(e) == Accept(e.bs = CipherBS(e.kind) /\ e.kl = CipherKeyLen(e.kind) /\ e.keep, "sizes", With(e.id, [kind |-> e.kind, o |-> TLCEval(IF e.dir = "-" THEN NoKey ELSE Keyed(e.kind, e.key, e.dir))]))
TKey(e) == Accept(e.guard, "key", With(e.id, [objs[e.id] EXCEPT !.o = TLCEval(Keyed(objs[e.id].kind, e.key, e.dir))]))
TCopy(e) == Accept(TRUE, "", With(e.id, objs[e.from]))
TBlk(e) ==
    LET x == objs[e.id]
        r == TLCEval(Blocks(x.kind, x.o, e.in))
    IN  Accept(x.o.dir = e.dir /\ e.out = r /\ e.guard, <<"blocks", r>>, UNCHANGED objs)
\* very many copies of one block
THuge(e) ==
    LET x == objs[e.id]
        r == TLCEval(Blocks(x.kind, x.o, e.in))
    IN  Accept(x.o.dir = e.dir /\ e.guard /\ Len(e.wins) > 1 /\ \A i \in 1..Len(e.wins) : e.wins[i] = r, <<"copies of", r>>, UNCHANGED objs)

TraceInit == TraceStart /\ objs = <<>>
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "new" -> TNew(e)
             [] e.op = "key" -> TKey(e)
             [] e.op = "copy" -> TCopy(e)
             [] e.op \in {"blk", "blks"} -> TBlk(e)
             [] e.op = "huge" -> THuge(e)
             [] OTHER -> Reject(e.op)
=============================================================================
