----------------------------- MODULE CipherObjs -----------------------------
(***************************************************************************)
(* A block cipher object: a key schedule for one direction.  Several       *)
(* blocks in one call are the blocks one by one (ECB); the machine below   *)
(* also describes the batched implementation, with which it must agree.    *)
(***************************************************************************)
EXTENDS Ciphers

NoKey == [dir |-> "-", ks |-> <<>>]
Keyed(kind, key, dir) == [dir |-> dir, ks |-> IF dir = "e" THEN EncKS(kind, key) ELSE DecKS(kind, key)]
OneBlock(kind, o, b) == IF o.dir = "e" THEN BlkE(kind, o.ks, b) ELSE BlkD(kind, o.ks, b)
Blocks(kind, o, data) ==
    LET bs == CipherBS(kind)  n == Len(data) \div bs
    IN  FlattenSeq([i \in 1..n |-> OneBlock(kind, o, Block(data, bs, i))])
=============================================================================
