-------------------------------- MODULE SM3 --------------------------------
(***************************************************************************)
(* The SM3 hash function (GB/T 32905-2016).  Words are 4-byte strings.     *)
(***************************************************************************)
EXTENDS Bytes

SM3IV == <<
    <<115, 128, 22, 111>>, <<73, 20, 178, 185>>, <<23, 36, 66, 215>>, <<218, 138, 6, 0>>,
    <<169, 111, 48, 188>>, <<22, 49, 56, 170>>, <<227, 141, 238, 77>>, <<176, 251, 14, 78>> >>

SM3T(j) == IF j <= 15 THEN <<121, 204, 69, 25>> ELSE <<122, 135, 157, 138>>
X3(a, b, c) == XorB(XorB(a, b), c)
SM3FF(j, x, y, z) == IF j <= 15 THEN X3(x, y, z)
                     ELSE OrB(OrB(AndB(x, y), AndB(x, z)), AndB(y, z))
SM3GG(j, x, y, z) == IF j <= 15 THEN X3(x, y, z)
                     ELSE OrB(AndB(x, y), AndB(NotB(x), z))
SM3P0(x) == X3(x, RotL(x, 9), RotL(x, 17))
SM3P1(x) == X3(x, RotL(x, 15), RotL(x, 23))

\* w[1..68]
SM3Expand(b) ==
    LET w0 == [i \in 1..16 |-> Block(b, 4, i)]
        step(w, j) == \* j = 17..68, 1-based
            LET p == SM3P1(X3(w[j - 16], w[j - 9], RotL(w[j - 3], 15)))
            IN  Append(w, X3(p, RotL(w[j - 13], 7), w[j - 6]))
    IN  FoldLeft(step, TLCEval(w0), [i \in 1..52 |-> 16 + i])

\* compression: v is 8 words, b one 64-byte block
SM3CompressDef(v, b) ==
    LET w == TLCEval(SM3Expand(b))
        step(s, j1) ==
            LET j == j1 - 1
                A == s[1]  B == s[2]  C == s[3]  D == s[4]
                E == s[5]  F == s[6]  G == s[7]  H == s[8]
                a12 == RotL(A, 12)
                ss1 == RotL(AddBE(AddBE(a12, E), RotL(SM3T(j), j % 32)), 7)
                ss2 == XorB(ss1, a12)
                tt1 == AddBE(AddBE(SM3FF(j, A, B, C), D), AddBE(ss2, XorB(w[j1], w[j1 + 4])))
                tt2 == AddBE(AddBE(SM3GG(j, E, F, G), H), AddBE(ss1, w[j1]))
            IN  <<tt1, A, RotL(B, 9), C, SM3P0(tt2), E, RotL(F, 19), G>>
        r == FoldLeft(step, v, [i \in 1..64 |-> i])
    IN  <<XorB(r[1], v[1]), XorB(r[2], v[2]), XorB(r[3], v[3]), XorB(r[4], v[4]),
          XorB(r[5], v[5]), XorB(r[6], v[6]), XorB(r[7], v[7]), XorB(r[8], v[8])>>
SM3Compress(v, b) == SM3CompressDef(v, b)

\* compress every 64-byte block of data (a multiple of 64 bytes)
SM3Blocks(v, data) ==
    FoldLeft(LAMBDA s, i : SM3Compress(s, Block(data, 64, i)), v, [i \in 1..(Len(data) \div 64) |-> i])

\* n copies of one 64-byte block
RECURSIVE SM3RepeatDef(_, _, _)
SM3RepeatDef(v, b, n) == IF n = 0 THEN v ELSE SM3RepeatDef(SM3Compress(v, b), b, n - 1)
SM3Repeat(v, b, n) == SM3RepeatDef(v, b, n)

\* Padding of a message whose last 'rest' bytes (fewer than 64) are not yet
\* compressed and whose whole length in bytes is the 8-byte big-endian count len.
SM3Pad(rest, len) ==
    rest \o <<128>> \o Zeros((119 - Len(rest)) % 64) \o Shl(len, 3)

SM3Digest(v) == v[1] \o v[2] \o v[3] \o v[4] \o v[5] \o v[6] \o v[7] \o v[8]

SM3Hash(m) ==
    LET full == Len(m) \div 64
        v == SM3Blocks(SM3IV, Take(m, 64 * full))
    IN  SM3Digest(SM3Blocks(v, SM3Pad(Drop(m, 64 * full), IntBE(Len(m), 8))))

\* HMAC (RFC 2104) over a hash H with block size bs
HMACKey(H(_), bs, key) == LET k == IF Len(key) > bs THEN H(key) ELSE key
                          IN  k \o Zeros(bs - Len(k))
HMAC(H(_), bs, key, m) ==
    LET k == HMACKey(H, bs, key)
    IN  H(XorB(k, Fill(92, bs)) \o H(XorB(k, Fill(54, bs)) \o m))
=============================================================================
