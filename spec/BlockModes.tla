----------------------------- MODULE BlockModes -----------------------------
(***************************************************************************)
(* Mode-of-operation objects (ECB, CBC, CFB, OFB, CTR, GCM) as a state      *)
(* machine: a set of named objects and the calls New, Copy, Init, Reset,   *)
(* Update, Final, SetTag, GetTag.                                          *)
(*                                                                         *)
(* An object is a record                                                   *)
(*   mode, enc, ciph : what it was constructed as                          *)
(*   ph   : "raw" (not initialised), "run", or "end" (finished)            *)
(*   key  : the user key        chain : the chaining value                 *)
(*   pend : bytes received that do not fill a block yet                    *)
(*   and for GCM  h, j0 (pre-counter block), y (GHASH accumulator),        *)
(*   alen, clen (byte counts), tag (decryption: the one the caller set since*)
(*   Init; encryption: the one computed by Final).  Final of a decryption   *)
(*   without a tag, and reading the tag before Final, are not specified.    *)
(*                                                                         *)
(* The operators StdXxx give the one-shot definitions of the standards;    *)
(* ModesModel.tla checks that every history of calls produces them.        *)
(***************************************************************************)
EXTENDS Ciphers, GHASH

\* ------------------------------------------------------------------
\* The standards, one message at a time (m is the whole message).
\* ------------------------------------------------------------------
Inc(c) == AddBE(c, Zeros(Len(c) - 1) \o <<1>>)
IncBy(c, n) == AddBE(c, IF Len(c) >= 4 THEN IntBE(n, Len(c)) ELSE IntBE(n, Len(c)))
Inc32(c) == Take(c, 12) \o Inc(Drop(c, 12))
Inc32By(c, n) == Take(c, 12) \o AddBE(Drop(c, 12), IntBE(n, 4))

\* full blocks of m, and the piece i (the last may be short)
PieceCount(m, bs) == (Len(m) + bs - 1) \div bs
Piece(m, bs, i) == SubSeq(m, (i - 1) * bs + 1, IF i * bs > Len(m) THEN Len(m) ELSE i * bs)

StdECB(c, enc, key, m) ==
    LET bs == CipherBS(c)
        F(i) == IF enc THEN BlkE(c, EncKS(c, key), Piece(m, bs, i))
                ELSE BlkD(c, DecKS(c, key), Piece(m, bs, i))
    IN  ConcatF(F, Len(m) \div bs)

RECURSIVE StdCBCE(_, _, _, _)
StdCBCE(c, ks, iv, m) ==
    LET bs == CipherBS(c)
    IN  IF Len(m) < bs THEN <<>>
        ELSE LET x == BlkE(c, ks, XorB(iv, Take(m, bs))) IN x \o StdCBCE(c, ks, x, Drop(m, bs))
StdCBCD(c, ks, iv, m) ==
    LET bs == CipherBS(c)
        F(i) == XorB(BlkD(c, ks, Piece(m, bs, i)), IF i = 1 THEN iv ELSE Piece(m, bs, i - 1))
    IN  ConcatF(F, Len(m) \div bs)

RECURSIVE StdCFBE(_, _, _, _)
StdCFBE(c, ks, iv, m) ==
    LET bs == CipherBS(c)
        n == IF Len(m) < bs THEN Len(m) ELSE bs
        x == XorB(Take(BlkE(c, ks, iv), n), Take(m, n))
    IN  IF m = <<>> THEN <<>> ELSE IF n < bs THEN x ELSE x \o StdCFBE(c, ks, x, Drop(m, bs))
StdCFBD(c, ks, iv, m) ==
    LET bs == CipherBS(c)
        F(i) == LET p == Piece(m, bs, i)
                IN XorB(p, Take(BlkE(c, ks, IF i = 1 THEN iv ELSE Piece(m, bs, i - 1)), Len(p)))
    IN  ConcatF(F, PieceCount(m, bs))

RECURSIVE StdOFBBlock(_, _, _, _)
StdOFBBlock(c, ks, iv, i) == BlkE(c, ks, IF i = 1 THEN iv ELSE StdOFBBlock(c, ks, iv, i - 1))
StdOFB(c, ks, iv, m) ==
    LET F(i) == LET p == Piece(m, CipherBS(c), i)
                IN XorB(p, Take(StdOFBBlock(c, ks, iv, i), Len(p)))
    IN  ConcatF(F, PieceCount(m, CipherBS(c)))

StdCTR(c, ks, iv, m) ==
    LET F(i) == LET p == Piece(m, CipherBS(c), i)
                IN XorB(p, Take(BlkE(c, ks, IncBy(iv, i - 1)), Len(p)))
    IN  ConcatF(F, PieceCount(m, CipherBS(c)))

StdMode(mode, c, enc, key, iv, m) ==
    LET ks == EncKS(c, key)
    IN  CASE mode = "ecb" -> StdECB(c, enc, key, m)
          [] mode = "cbc" -> IF enc THEN StdCBCE(c, ks, iv, m) ELSE StdCBCD(c, DecKS(c, key), iv, m)
          [] mode = "cfb" -> IF enc THEN StdCFBE(c, ks, iv, m) ELSE StdCFBD(c, ks, iv, m)
          [] mode = "ofb" -> StdOFB(c, ks, iv, m)
          [] mode = "ctr" -> StdCTR(c, ks, iv, m)

\* GCM, NIST SP 800-38D
GcmLens(alen, clen) == BitLen64(alen) \o BitLen64(clen)
GcmJ0(h, iv) == IF Len(iv) = 12 THEN iv \o <<0, 0, 0, 1>>
                ELSE GHash(h, Pad16(iv) \o Zeros(8) \o BitLen64(Len(iv)))
StdGCTR(c, ks, icb, m) ==
    LET F(i) == LET p == Piece(m, 16, i)
                IN XorB(p, Take(BlkE(c, ks, Inc32By(icb, i - 1)), Len(p)))
    IN  ConcatF(F, PieceCount(m, 16))
GcmH(c, key) == BlkE(c, EncKS(c, key), Zeros(16))
StdGcmText(c, key, iv, m) ==
    StdGCTR(c, EncKS(c, key), Inc32(GcmJ0(GcmH(c, key), iv)), m)
StdGcmTag(c, key, iv, aad, ct) ==
    LET h == GcmH(c, key)
        s == GHash(h, Pad16(aad) \o Pad16(ct) \o GcmLens(Len(aad), Len(ct)))
    IN  XorB(s, BlkE(c, EncKS(c, key), GcmJ0(h, iv)))

\* ------------------------------------------------------------------
\* The machine.
\* ------------------------------------------------------------------
HasReset(o) == o.mode # "gcm"
Padded(o) == o.mode \in {"ecb", "cbc"} \* whole blocks only

NewObj(mode, enc, c) ==
    [mode |-> mode, enc |-> enc, ciph |-> c, ph |-> "raw", key |-> <<>>, chain |-> <<>>,
     pend |-> <<>>, h |-> <<>>, j0 |-> <<>>, y |-> <<>>, alen |-> 0, clen |-> 0, tag |-> <<>>]

\* the key schedule an object uses
KS(o) == IF ~o.enc /\ o.mode \in {"ecb", "cbc"} THEN DecKS(o.ciph, o.key) ELSE EncKS(o.ciph, o.key)

GcmInitObj(o, key, h, j0, aad) ==
    [o EXCEPT !.ph = "run", !.key = key, !.pend = <<>>, !.h = h, !.j0 = j0,
              !.chain = Inc32(j0), !.y = GHash(h, Pad16(aad)),
              !.alen = Len(aad), !.clen = 0,
              !.tag = <<>>]
InitObj(o, key, iv, aad) ==
    IF o.mode = "gcm"
    THEN LET h == GcmH(o.ciph, key)
         IN  GcmInitObj(o, key, h, GcmJ0(h, iv), aad)
    ELSE [o EXCEPT !.ph = "run", !.key = key, !.chain = iv, !.pend = <<>>]
ResetObj(o, iv) == [o EXCEPT !.ph = "run", !.chain = iv, !.pend = <<>>]

\* one block (or, for the last, a piece) b under chaining value ch:
\* the output and the next chaining value
BlockStep(o, ks, ch, b) ==
    LET E(x) == BlkE(o.ciph, ks, x)
    IN  CASE o.mode = "ecb" -> [out |-> IF o.enc THEN E(b) ELSE BlkD(o.ciph, ks, b), ch |-> ch]
          [] o.mode = "cbc" /\ o.enc -> LET x == E(XorB(b, ch)) IN [out |-> x, ch |-> x]
          [] o.mode = "cbc" /\ ~o.enc -> [out |-> XorB(BlkD(o.ciph, ks, b), ch), ch |-> b]
          [] o.mode = "cfb" -> LET x == XorB(Take(E(ch), Len(b)), b)
                               IN  [out |-> x, ch |-> IF o.enc THEN x ELSE b]
          [] o.mode = "ofb" -> LET x == E(ch) IN [out |-> XorB(Take(x, Len(b)), b), ch |-> x]
          [] o.mode = "ctr" -> [out |-> XorB(Take(E(ch), Len(b)), b), ch |-> Inc(ch)]
          [] o.mode = "gcm" -> [out |-> XorB(Take(E(ch), Len(b)), b), ch |-> Inc32(ch)]

\* all whole blocks of data
RunBlocks(o, ks, data) ==
    LET bs == CipherBS(o.ciph)
        step(acc, i) == LET r == BlockStep(o, ks, acc.ch, Block(data, bs, i))
                        IN  [out |-> acc.out \o r.out, ch |-> r.ch]
    IN  FoldLeft(step, [out |-> <<>>, ch |-> o.chain], [i \in 1..(Len(data) \div bs) |-> i])

\* result of Update: output and next object
DoUpdate(o, in) ==
    LET bs == CipherBS(o.ciph)
        data == o.pend \o in
        n == bs * (Len(data) \div bs)
        full == Take(data, n)
        r == IF n = 0 THEN [out |-> <<>>, ch |-> o.chain] ELSE RunBlocks(o, KS(o), full)
        o1 == [o EXCEPT !.chain = r.ch, !.pend = Drop(data, n)]
    IN  [out |-> r.out,
         o |-> IF o.mode = "gcm"
               THEN [o1 EXCEPT !.y = GBlocks(o.y, o.h, IF o.enc THEN r.out ELSE full),
                               !.clen = o.clen + n]
               ELSE o1]

\* result of Final: output, whether the call fails, and next object
DoFinal(o, in) ==
    LET u == DoUpdate(o, in)
        p == u.o.pend
        last == IF p = <<>> THEN <<>> ELSE BlockStep(o, EncKS(o.ciph, o.key), u.o.chain, p).out
        end == [u.o EXCEPT !.ph = "end", !.pend = <<>>]
    IN  IF Padded(o)
        THEN [out |-> u.out, fail |-> p # <<>>, o |-> end]
        ELSE IF o.mode # "gcm"
        THEN [out |-> u.out \o last, fail |-> FALSE, o |-> end]
        ELSE LET ct == IF o.enc THEN last ELSE p
                 y1 == GBlocks(u.o.y, o.h, Pad16(ct))
                 s == GMul(XorB(y1, GcmLens(o.alen, u.o.clen + Len(p))), o.h)
                 tag == XorB(s, BlkE(o.ciph, EncKS(o.ciph, o.key), o.j0))
             IN  [out |-> u.out \o last,
                  fail |-> ~o.enc /\ tag # o.tag,
                  o |-> [end EXCEPT !.tag = IF o.enc THEN tag ELSE @, !.y = <<>>]]

VARIABLE objs \* object name -> object

ModesInit == objs = <<>>
With(id, o) == objs' = (id :> o) @@ objs

New(id, mode, enc, c) == With(id, NewObj(mode, enc, c))
Copy(id, from) == With(id, objs[from])
Init(id, key, iv, aad) == With(id, InitObj(objs[id], key, iv, aad))
Reset(id, iv) == HasReset(objs[id]) /\ objs[id].ph # "raw" /\ With(id, ResetObj(objs[id], iv))
Update(id, in) == objs[id].ph = "run" /\ With(id, DoUpdate(objs[id], in).o)
Final(id, in) == objs[id].ph = "run" /\ With(id, DoFinal(objs[id], in).o)
SetTag(id, tag) == With(id, [objs[id] EXCEPT !.tag = tag])
GetTag(id) == UNCHANGED objs
=============================================================================
