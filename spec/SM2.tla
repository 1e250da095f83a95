-------------------------------- MODULE SM2 --------------------------------
(***************************************************************************)
(* GB/T 32918: the recommended curve, keys, signatures (part 2) and public *)
(* key encryption (part 4, ciphertext C1 C3 C2).  The hash function is a   *)
(* parameter: SM3, and test functions that reach the rare cases of the     *)
(* standard (HashOf).  Nonces come from 32-byte draws.                     *)
(***************************************************************************)
EXTENDS EC, SM3

SM2P == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,255>>
SM2A == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,0,0,0,0,255,255,255,255,255,255,255,252>>
SM2B == <<40,233,250,158,157,159,94,52,77,90,158,75,207,101,9,167,243,151,137,245,21,171,143,146,221,188,189,65,77,148,14,147>>
SM2N == <<255,255,255,254,255,255,255,255,255,255,255,255,255,255,255,255,114,3,223,107,33,198,5,43,83,187,244,9,57,213,65,35>>
SM2GX == <<50,196,174,44,31,25,129,25,95,153,4,70,106,57,201,148,143,227,11,191,242,102,11,225,113,90,69,137,51,76,116,199>>
SM2GY == <<188,55,54,162,244,246,119,156,89,189,206,227,107,105,33,83,208,169,135,124,198,42,71,64,2,223,50,229,33,57,240,160>>
SM2Curve == [p |-> SM2P, a |-> SM2A, b |-> SM2B]
SM2G == <<SM2GX, SM2GY>>
SM2Mul(k, P) == ECMul(SM2Curve, k, P)
DefaultId == <<49,50,51,52,53,54,55,56,49,50,51,52,53,54,55,56>>

\* ---- hash functions ----
\* tailN: the last N bytes of the data, zeros in front when it is shorter.
\* headN: the N bytes after the first, zeros behind when there are fewer.
\* gate: 32 bytes, all zero in the cases chosen by the first and last byte
\* of the data, the last 31 bytes of the data after a byte 1 otherwise.
Tail_(d, n) == Pad(d, n)
Head_(d, n) == LET t == Take(Drop(d, IF d = <<>> THEN 0 ELSE 1), IF Len(d) > n THEN n ELSE IF d = <<>> THEN 0 ELSE Len(d) - 1) IN t \o Zeros(n - Len(t))
GateZero(d) == Len(d) > 0 /\ CASE d[1] % 4 = 0 -> TRUE
                               [] d[1] % 4 = 1 -> d[Len(d)] = 1
                               [] d[1] % 4 = 2 -> d[Len(d)] # 1
                               [] OTHER -> FALSE
HashLen(h) == CASE h \in {"sm3", "tail32", "head32", "gate"} -> 32 [] h \in {"tail20", "head20"} -> 20 [] h \in {"tail64", "head64"} -> 64
HashOf(h, d) == CASE h = "sm3" -> SM3Hash(d)
                  [] h = "tail20" -> Tail_(d, 20)
                  [] h = "tail32" -> Tail_(d, 32)
                  [] h = "tail64" -> Tail_(d, 64)
                  [] h = "head20" -> Head_(d, 20)
                  [] h = "head32" -> Head_(d, 32)
                  [] h = "head64" -> Head_(d, 64)
                  [] h = "gate" -> IF GateZero(d) THEN Zeros(32) ELSE <<1>> \o Tail_(d, 31)

\* ---- keys ----
NMinus(k) == Pad(BSub(SM2N, <<k>>), 32)
KeyOk(d) == ~BIsZero(d) /\ BLe(d, NMinus(2))
PubOk(x, y) == OnCurve(SM2Curve, <<x, y>>)
PubOf(d) == SM2Mul(d, SM2G)

Redo == <<-1>>

\* ---- signatures ----
IdOk(id) == Len(id) * 8 <= 65535
ZA(h, id, pub) == HashOf(h, IntBE(8 * Len(id), 2) \o id \o SM2A \o SM2B \o SM2GX \o SM2GY \o pub[1] \o pub[2])
\* the digest as a number modulo n
EOf(h, id, pub, msg) == BMod(HashOf(h, ZA(h, id, pub) \o msg), SM2N)
\* (r, s) for the nonce k, or Redo when the standard draws again
SignWith(d, e, k) ==
    LET r == MAdd(e, BMod(SM2Mul(k, SM2G)[1], SM2N), SM2N)
        s == MMul(MInv(MAdd(BOne, d, SM2N), SM2N), MSub(k, MMul(r, d, SM2N), SM2N), SM2N)
    IN  IF BIsZero(r) \/ BIsZero(MAdd(r, k, SM2N)) \/ BIsZero(s) THEN Redo
        ELSE Pad(r, 32) \o Pad(s, 32)
VerifyOk(pub, e, sig) ==
    LET r == Take(sig, 32)  s == Drop(sig, 32)
        t == MAdd(r, s, SM2N)
        R == ECAdd(SM2Curve, SM2Mul(s, SM2G), SM2Mul(t, pub))
    IN  /\ ~BIsZero(r) /\ ~BIsZero(s) /\ BLt(r, SM2N) /\ BLt(s, SM2N)
        /\ ~BIsZero(t)
        /\ R # ECInf
        /\ BEq(MAdd(e, BMod(R[1], SM2N), SM2N), r)

\* ---- nonces ----
\* a draw v gives the nonce v + 1; a draw of m or more (the number of nonces)
\* may be reduced modulo m or drawn again.  rnd is what was drawn.
NDraws(rnd) == Len(rnd) \div 32
Draw(rnd, i) == SubSeq(rnd, 32 * (i - 1) + 1, 32 * i)
Nonce(v, m) == Pad(BAdd(BMod(v, m), BOne), 32)
\* every draw before the i-th had to be, or may have been, repeated
Repeats(F(_), rnd, m, i) == \A j \in 1..(i - 1) : ~BLt(Draw(rnd, j), m) \/ F(Nonce(Draw(rnd, j), m)) = Redo
\* the result after exactly the draws of rnd: a value, or Redo if there is none
After(F(_), rnd, m) ==
    LET n == NDraws(rnd) IN
    IF n = 0 \/ Len(rnd) # 32 * n \/ ~Repeats(F, rnd, m, n) THEN Redo ELSE F(Nonce(Draw(rnd, n), m))
\* the draws may have run out here: all of them were repeated
Starved(F(_), rnd, m) == LET n == NDraws(rnd) IN Len(rnd) = 32 * n /\ Repeats(F, rnd, m, n + 1)

\* ---- encryption ----
RECURSIVE KDF(_, _, _, _)
KDF(h, z, n, ct) == IF n <= 0 THEN <<>>
                    ELSE LET b == HashOf(h, z \o IntBE(ct, 4))
                         IN  Take(b, IF n < Len(b) THEN n ELSE Len(b)) \o KDF(h, z, n - Len(b), ct + 1)
AllZero(x) == Len(x) > 0 /\ x = Zeros(Len(x))
EncryptWith(h, pub, m, form, k) ==
    LET Q == SM2Mul(k, pub)
        t == TLCEval(KDF(h, Q[1] \o Q[2], Len(m), 1))
    IN  IF AllZero(t) THEN Redo
        ELSE EncPoint(form, SM2Mul(k, SM2G)) \o HashOf(h, Q[1] \o m \o Q[2]) \o XorB(m, t)
CipherLen(h, n, form) == (IF form = "c" THEN 33 ELSE 65) + HashLen(h) + n
\* the announced length of the plaintext, or -1 for an error
PlainLen(h, c) ==
    IF Len(c) = 0 THEN -1
    ELSE LET n == EncLen(SM2Curve, c[1]) + HashLen(h)
         IN  IF EncLen(SM2Curve, c[1]) = 0 \/ Len(c) < n THEN -1 ELSE Len(c) - n
NoPlain == <<-1>>
Decrypt(h, d, c) ==
    IF PlainLen(h, c) < 0 THEN NoPlain
    ELSE LET P == DecPoint(SM2Curve, c)
             n == EncLen(SM2Curve, c[1])
             c3 == SubSeq(c, n + 1, n + HashLen(h))
             c2 == Drop(c, n + HashLen(h))
         IN  IF P = NoPoint THEN NoPlain
             ELSE LET Q == SM2Mul(d, P)
                      t == TLCEval(KDF(h, Q[1] \o Q[2], Len(c2), 1))
                      m == XorB(c2, t)
                  IN  IF AllZero(t) \/ HashOf(h, Q[1] \o m \o Q[2]) # c3 THEN NoPlain ELSE m
\* ---- long messages: n copies of the byte b ----
\* KDF as a function of the position: 32 bytes from offset 32 * i
KdfBlock(h, z, i) == HashOf(h, z \o IntBE(i + 1, 4))
\* the window of 32 bytes at offset off of the key stream (of a 32-byte digest)
KdfWin(h, z, off) ==
    LET i == off \div 32  r == off % 32
    IN  SubSeq(KdfBlock(h, z, i) \o (IF r = 0 THEN <<>> ELSE KdfBlock(h, z, i + 1)), r + 1, r + 32)
\* SM3(pre || b...b || post)
SM3Long(pre, b, n, post) ==
    LET a == IF 64 - Len(pre) > n THEN n ELSE 64 - Len(pre)
        nb == (n - a) \div 64
        rest == TLCEval(Fill(b, (n - a) % 64) \o post)
        v0 == SM3Blocks(SM3IV, pre \o Fill(b, a))
        v1 == SM3Repeat(TLCEval(v0), Fill(b, 64), nb)
        full == Len(rest) \div 64
    IN  SM3Digest(SM3Blocks(SM3Blocks(v1, Take(rest, 64 * full)), SM3Pad(Drop(rest, 64 * full), IntBE(Len(pre) + n + Len(post), 8))))
=============================================================================
