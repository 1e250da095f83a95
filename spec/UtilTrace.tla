----------------------------- MODULE UtilTrace -----------------------------
(* Recorded calls of the byte utilities against ByteUtils. *)
EXTENDS ByteUtils, TraceIO
TNone == UNCHANGED <<>>
TXor(e) == LET r == XorB(e.a, e.b) IN Accept(e.out = r /\ e.guard, <<"xor", r>>, TNone)
\* many copies of 16-byte blocks
TXorHuge(e) == LET r == XorB(e.a, e.b) IN Accept(/\ e.guard /\ Len(e.wins) > 4 /\ \A i \in 1..Len(e.wins) : e.wins[i] = r
                                                 /\ e.last = Take(r, e.r), <<"copies of", r>>, TNone)
TLd(e) == LET r == Load(e.end, e.in) IN Accept(e.val = r /\ e.guard, <<"load", r>>, TNone)
TSt(e) == LET r == Store(e.end, e.val) IN Accept(e.out = r /\ e.guard, <<"store", r>>, TNone)
TDump(e) == LET r == TLCEval(DumpText(e)) IN Accept(e.out = r /\ e.guard, <<"dump", r>>, TNone)
TraceInit == TraceStart
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "xor" -> TXor(e)
             [] e.op = "xorhuge" -> TXorHuge(e)
             [] e.op = "ld" -> TLd(e)
             [] e.op = "st" -> TSt(e)
             [] e.op = "dump" -> TDump(e)
             [] OTHER -> Reject(e.op)
=============================================================================
