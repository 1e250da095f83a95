------------------------------- MODULE GHASH -------------------------------
(***************************************************************************)
(* GHASH over GF(2^128) as NIST SP 800-38D defines it: bit 0 of a block is *)
(* the most significant bit of its first byte; R = 11100001 || 0^120.      *)
(***************************************************************************)
EXTENDS Bytes

GR == <<225>> \o Zeros(15)

GMulDef(x, y) ==
    LET step(acc, i) ==
            [z |-> IF BitAt(x, i - 1) = 1 THEN XorB(acc.z, acc.v) ELSE acc.z,
             v |-> IF acc.v[16] % 2 = 0 THEN Shr(acc.v, 1) ELSE XorB(Shr(acc.v, 1), GR)]
    IN  FoldLeft(step, [z |-> Zeros(16), v |-> y], [i \in 1..128 |-> i]).z
GMul(x, y) == GMulDef(x, y)

\* absorb the whole blocks of data into the accumulator y
GBlocks(y, h, data) ==
    FoldLeft(LAMBDA acc, i : GMul(XorB(acc, Block(data, 16, i)), h), y,
             [i \in 1..(Len(data) \div 16) |-> i])
GHash(h, data) == GBlocks(Zeros(16), h, data)
Pad16(a) == a \o Zeros((16 - (Len(a) % 16)) % 16)
=============================================================================
