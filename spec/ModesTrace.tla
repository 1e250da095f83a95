----------------------------- MODULE ModesTrace -----------------------------
(***************************************************************************)
(* Recorded calls on real mode objects, checked against BlockModes.        *)
(* Every event must be a step of the machine with the same results: the    *)
(* output bytes, the announced output length, whether the call fails; and  *)
(* nothing else may be written.                                            *)
(***************************************************************************)
EXTENDS GcmBig, TraceIO

TNew(e) == Accept(e.bs = CipherBS(e.ciph) /\ e.kl = CipherKeyLen(e.ciph), "sizes", New(e.id, e.mode, e.dir = "e", e.ciph))
TCopy(e) == Accept(TRUE, "", Copy(e.id, e.from))
TInit(e) == Accept(e.exc = "" /\ e.keep, "init failed", Init(e.id, e.key, e.iv, e.aad))
TReset(e) == Accept(e.exc = "" /\ e.keep, "reset failed", Reset(e.id, e.iv))
TUpdate(e) ==
    LET r == TLCEval(DoUpdate(objs[e.id], e.in))
    IN  Accept(e.exc = "" /\ e.outl = Len(r.out) /\ e.out = r.out /\ e.guard /\ e.keep,
               <<"update", r.out>>, objs[e.id].ph = "run" /\ With(e.id, r.o))
TFinal(e) ==
    LET r == TLCEval(DoFinal(objs[e.id], e.in))
    IN  Accept(IF r.fail THEN e.exc = "runtime_error" /\ e.guard
               ELSE e.exc = "" /\ e.outl = Len(r.out) /\ e.out = r.out /\ e.guard /\ e.keep,
               <<"final", r.fail, r.out>>, objs[e.id].ph = "run" /\ With(e.id, r.o))
TSetTag(e) == Accept(e.keep, "", SetTag(e.id, e.tag))
TGetTag(e) == Accept(e.keep /\ e.tag = objs[e.id].tag, <<"tag", objs[e.id].tag>>, GetTag(e.id))

\* one very long GCM message of repeated bytes; recorded are a few ciphertext blocks and the rest
TBig(e) ==
    LET c == objs[e.id].ciph
        tag == TLCEval(BigTag(c, e.key, e.iv, e.ab, e.anb, e.ar, e.b, e.nb, e.r))
        bad == {j \in 1..Len(e.wins) : e.wins[j] # BigText(c, e.key, e.iv, e.b, e.at[j])}
    IN  Accept(/\ e.exc = "" /\ e.outnb = e.nb /\ e.outr = e.r /\ e.guard
               /\ bad = {} /\ e.last = Take(BigText(c, e.key, e.iv, e.b, e.nb), e.r) /\ e.tag = tag,
               <<"long message", bad, tag>>, UNCHANGED objs)
\* its decryption, or that of the same ciphertext with other additional data or another tag;
\* the plaintext is recorded as runs of equal bytes: values and lengths
TBigDec(e) ==
    LET tag == TLCEval(BigTag(objs[e.id].ciph, e.key, e.iv, e.ab, e.anb, e.ar, e.b, e.nb, e.r))
    IN  Accept(IF e.tag = tag THEN e.exc = "" /\ e.outnb = e.nb /\ e.outr = e.r /\ e.guard /\ e.vals = <<e.b>> /\ e.runnb = <<e.nb>> /\ e.runr = <<e.r>>
               ELSE e.exc = "runtime_error" /\ e.guard, <<"long decryption", e.tag = tag>>, UNCHANGED objs)
\* an IV too long to write down: one byte repeated
TLongIv(e) ==
    LET o == objs[e.id]  h == TLCEval(GcmH(o.ciph, e.key))
    IN  Accept(e.exc = "", "init failed", With(e.id, GcmInitObj(o, e.key, h, TLCEval(LongJ0(h, e.vb, e.vnb, e.vr)), e.aad)))

\* block i (from 0) of the result for copies of the block x
HugeBlock(o, key, iv, x, i) ==
    LET c == o.ciph  ks == EncKS(c, key)  kd == DecKS(c, key)
    IN  CASE o.mode = "ecb" /\ o.enc -> BlkE(c, ks, x)
          [] o.mode = "ecb" /\ ~o.enc -> BlkD(c, kd, x)
          [] o.mode = "cbc" /\ ~o.enc -> XorB(BlkD(c, kd, x), IF i = 0 THEN iv ELSE x)
          [] o.mode = "cfb" /\ ~o.enc -> XorB(BlkE(c, ks, IF i = 0 THEN iv ELSE x), x)
          [] o.mode = "ctr" -> XorB(BlkE(c, ks, IncBy(iv, i)), x)
\* the blocks at the places given; a chain of AES calls where every block depends on all before it
HugeBlocks(o, key, iv, x, at) ==
    CASE o.mode = "cbc" /\ o.enc -> AESChain(key, iv, x, at)
      [] o.mode = "cfb" /\ o.enc -> LET v == AESChain(key, XorB(iv, x), x, at) IN [j \in 1..Len(at) |-> XorB(v[j], x)]
      [] o.mode = "ofb" -> LET v == AESChain(key, iv, Zeros(16), at) IN [j \in 1..Len(at) |-> XorB(v[j], x)]
      [] OTHER -> [j \in 1..Len(at) |-> HugeBlock(o, key, iv, x, at[j])]
THuge(e) ==
    LET o == objs[e.id]
        k == Len(e.wins)
        q == TLCEval(HugeBlocks(o, e.key, e.iv, e.x, Append(e.at, e.nb)))
        bad == {j \in 1..k : e.wins[j] # q[j]}
    IN  Accept(/\ e.exc = "" /\ e.preout = 16 * (e.pre \div 16) /\ e.outnb = e.nb /\ e.outr = 0 /\ e.finl = e.r /\ e.guard /\ bad = {}
               /\ e.last = Take(q[k + 1], e.r), <<"huge update", bad>>, UNCHANGED objs)

TraceInit == TraceStart /\ ModesInit
TraceNext ==
    /\ More
    /\ LET e == Event
       IN  CASE e.op = "new" -> TNew(e)
             [] e.op = "copy" -> TCopy(e)
             [] e.op = "init" -> TInit(e)
             [] e.op = "reset" -> TReset(e)
             [] e.op = "upd" -> TUpdate(e)
             [] e.op = "fin" -> TFinal(e)
             [] e.op = "settag" -> TSetTag(e)
             [] e.op = "gettag" -> TGetTag(e)
             [] e.op = "gbig" -> TBig(e)
             [] e.op = "huge" -> THuge(e)
             [] e.op = "longiv" -> TLongIv(e)
             [] e.op = "gbigd" -> TBigDec(e)
             [] OTHER -> Reject(e.op)
=============================================================================
