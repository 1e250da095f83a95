------------------------------ MODULE HashObjs ------------------------------
(***************************************************************************)
(* Hash objects (SM3, GHASH, toy hashes) and HMAC objects over them, as a   *)
(* state machine with the calls New, Copy, SetKey, Reset, Update, Final.    *)
(*                                                                         *)
(* A hash kind k has block size HBS(k), an initial state, absorbs whole     *)
(* blocks, and finishes with the bytes that do not fill a block and the     *)
(* message length.  GHASH has a key and accepts whole blocks only.          *)
(* An HMAC object "hmac-k" runs the inner hash of kind k.                   *)
(*                                                                         *)
(* object: kind, ph ("raw", "run", "end"), key (GHASH: H; HMAC: the padded  *)
(* key), st (hash state), pend (incomplete block), len (8-byte byte count)  *)
(***************************************************************************)
EXTENDS SM3, GHASH, Ciphers

IsHmac(k) == k \in {"hmac-sm3", "hmac-th8", "hmac-th4"}
Inner(k) == CASE k = "hmac-sm3" -> "sm3" [] k = "hmac-th8" -> "th8" [] k = "hmac-th4" -> "th4" [] OTHER -> k
HBS(k) == CASE Inner(k) = "sm3" -> 64 [] Inner(k) = "ghash" -> 16 [] Inner(k) = "th8" -> 8 [] Inner(k) = "th4" -> 4
HDS(k) == CASE Inner(k) = "sm3" -> 32 [] Inner(k) = "ghash" -> 16 [] OTHER -> 4

\* toy hashes: 4-byte state, each 4 bytes of a block substituted in turn
Toy4(s, b) == Subst(SM4SBox, XorB(RotL(s, 8), b))
ToyBlocks(s, data) == FoldLeft(LAMBDA x, i : Toy4(x, Block(data, 4, i)), s, [i \in 1..(Len(data) \div 4) |-> i])

HStart(k) == CASE k = "sm3" -> SM3IV [] k = "ghash" -> Zeros(16) [] OTHER -> <<1, 35, 69, 103>>
HAbsorb(k, key, st, data) ==
    CASE k = "sm3" -> SM3Blocks(st, data)
      [] k = "ghash" -> GBlocks(st, key, data)
      [] OTHER -> ToyBlocks(st, data)
ToyPad(k, rest, len) == rest \o <<128>> \o Zeros(HBS(k) - 1 - Len(rest)) \o LastN(len, HBS(k))
HDigest(k, st, rest, len) ==
    CASE k = "sm3" -> SM3Digest(SM3Blocks(st, SM3Pad(rest, len)))
      [] k = "ghash" -> st
      [] OTHER -> ToyBlocks(st, ToyPad(k, rest, len))

\* ---- one-shot definitions ----
StdHash(k, key, m) ==
    LET bs == HBS(k)  n == bs * (Len(m) \div bs)
    IN  HDigest(k, HAbsorb(k, key, HStart(k), Take(m, n)), Drop(m, n), IntBE(Len(m), 8))
StdHMAC(k, key, m) == LET H(x) == StdHash(k, <<>>, x) IN HMAC(H, HBS(k), key, m)

\* ---- the machine ----
Absorb(o, in) ==
    LET k == Inner(o.kind)
        bs == HBS(k)
        data == o.pend \o in
        n == bs * (Len(data) \div bs)
    IN  [o EXCEPT !.st = IF n = 0 THEN @ ELSE HAbsorb(k, o.key, @, Take(data, n)),
                  !.pend = Drop(data, n),
                  !.len = AddBE(@, IntBE(Len(in), 8))]
Fresh(o) == [o EXCEPT !.st = HStart(Inner(o.kind)), !.pend = <<>>, !.len = Zeros(8), !.ph = "run"]

NewHash(kind) ==
    LET o == [kind |-> kind, ph |-> "raw", key |-> <<>>, st |-> <<>>, pend |-> <<>>, len |-> Zeros(8)]
    IN  IF kind = "ghash" \/ IsHmac(kind) THEN o ELSE Fresh(o)

\* an HMAC object under the padded key kp
PadKeyed(o, kp) == Absorb(Fresh([o EXCEPT !.key = kp]), XorB(kp, Fill(54, HBS(o.kind))))
KeyHash(o, key) ==
    IF IsHmac(o.kind)
    THEN LET k == Inner(o.kind)
             H(x) == StdHash(k, <<>>, x)
         IN  PadKeyed(o, HMACKey(H, HBS(k), key))
    ELSE Fresh([o EXCEPT !.key = key])

\* n times the map y -> y*p + a
RECURSIVE AffPow(_, _)
AffPow(f, n) ==
    IF n = 0 THEN [p |-> <<128>> \o Zeros(15), a |-> Zeros(16)]
    ELSE LET g == TLCEval(AffPow(f, n \div 2))
             d == TLCEval([p |-> GMul(g.p, g.p), a |-> XorB(GMul(g.a, g.p), g.a)])
         IN  IF n % 2 = 0 THEN d ELSE [p |-> GMul(d.p, f.p), a |-> XorB(GMul(d.a, f.p), f.a)]
\* GHASH absorbing n times the 64-byte string x
GRep64(y, h, x, n) ==
    LET h2 == TLCEval(GMul(h, h))
        f == AffPow(TLCEval([p |-> GMul(h2, h2), a |-> GBlocks(Zeros(16), h, x)]), n)
    IN  XorB(GMul(y, f.p), f.a)

\* n copies of the 64-byte string b (SM3, GHASH, HMAC over SM3)
AbsorbRep(o, b, n) ==
    LET p == Len(o.pend)
        bs == HBS(o.kind)
        kind == Inner(o.kind)
        k == IF p = 0 THEN 64 ELSE bs - p  \* bytes of b completing the block; then copies of mid
        mid == Drop(b, k) \o Take(b, k)
        s1 == IF p = 0 THEN o.st ELSE HAbsorb(kind, o.key, o.st, o.pend \o Take(b, k))
        s2 == IF kind = "sm3" THEN SM3Repeat(s1, mid, IF p = 0 THEN n ELSE n - 1)
              ELSE GRep64(s1, o.key, mid, IF p = 0 THEN n ELSE n - 1)
        rest == IF p = 0 THEN <<>> ELSE Drop(b, k)
    IN  IF n = 0 THEN o
        ELSE [Absorb([o EXCEPT !.st = s2, !.pend = <<>>], rest) EXCEPT !.len = AddBE(o.len, Shl(IntBE(n, 8), 6))]
\* the definition, checked against it
RECURSIVE AbsorbRepDef(_, _, _)
AbsorbRepDef(o, b, n) == IF n = 0 THEN o ELSE AbsorbRepDef(Absorb(o, b), b, n - 1)

FinHash(o, in) ==
    LET a == Absorb(o, in)
        k == Inner(o.kind)
        d == HDigest(k, a.st, a.pend, a.len)
    IN  [fail |-> k = "ghash" /\ a.pend # <<>>,
         out |-> IF IsHmac(o.kind) THEN StdHash(k, <<>>, XorB(o.key, Fill(92, HBS(k))) \o d) ELSE d,
         o |-> [a EXCEPT !.ph = "end", !.pend = <<>>, !.st = <<>>]]

\* HMAC over SM3 under a key of n > 1 copies of the 64-byte string b and a tail
KeyRep(o, b, n, tail) == PadKeyed(o, FinHash(AbsorbRep(NewHash(Inner(o.kind)), b, n), tail).out \o Zeros(32))
=============================================================================
