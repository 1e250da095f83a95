-------------------------------- MODULE SM4 --------------------------------
(***************************************************************************)
(* The SM4 block cipher (GB/T 32907-2016).  Blocks and keys are 16 bytes,  *)
(* words are 4 bytes, big endian.                                          *)
(***************************************************************************)
EXTENDS Bytes

SM4SBox == <<
    214, 144, 233, 254, 204, 225,  61, 183,  22, 182,  20, 194,  40, 251,  44,   5,
     43, 103, 154, 118,  42, 190,   4, 195, 170,  68,  19,  38,  73, 134,   6, 153,
    156,  66,  80, 244, 145, 239, 152, 122,  51,  84,  11,  67, 237, 207, 172,  98,
    228, 179,  28, 169, 201,   8, 232, 149, 128, 223, 148, 250, 117, 143,  63, 166,
     71,   7, 167, 252, 243, 115,  23, 186, 131,  89,  60,  25, 230, 133,  79, 168,
    104, 107, 129, 178, 113, 100, 218, 139, 248, 235,  15,  75, 112,  86, 157,  53,
     30,  36,  14,  94,  99,  88, 209, 162,  37,  34, 124,  59,   1,  33, 120, 135,
    212,   0,  70,  87, 159, 211,  39,  82,  76,  54,   2, 231, 160, 196, 200, 158,
    234, 191, 138, 210,  64, 199,  56, 181, 163, 247, 242, 206, 249,  97,  21, 161,
    224, 174,  93, 164, 155,  52,  26,  85, 173, 147,  50,  48, 245, 140, 177, 227,
     29, 246, 226,  46, 130, 102, 202,  96, 192,  41,  35, 171,  13,  83,  78, 111,
    213, 219,  55,  69, 222, 253, 142,  47,   3, 255, 106, 114, 109, 108,  91,  81,
    141,  27, 175, 146, 187, 221, 188, 127,  17, 217,  92,  65,  31,  16,  90, 216,
     10, 193,  49, 136, 165, 205, 123, 189,  45, 116, 208,  18, 184, 229, 180, 176,
    137, 105, 151,  74,  12, 150, 119, 126, 101, 185, 241,   9, 197, 110, 198, 132,
     24, 240, 125, 236,  58, 220,  77,  32, 121, 238,  95,  62, 215, 203,  57,  72
>>

SM4FK == <<(<<163, 177, 186, 198>>), (<<86, 170, 51, 80>>),
           (<<103, 125, 145, 151>>), (<<178, 112, 34, 220>>)>>
\* CK[i] (i = 0..31): byte j is (4 i + j) * 7 mod 256
SM4CK(i) == [j \in 1..4 |-> ((4 * i + (j - 1)) * 7) % 256]

SM4Tau(w) == Subst(SM4SBox, w)
SM4L(b)  == XorB(XorB(XorB(XorB(b, RotL(b, 2)), RotL(b, 10)), RotL(b, 18)), RotL(b, 24))
SM4LK(b) == XorB(XorB(b, RotL(b, 13)), RotL(b, 23))

\* one step of the four-word register, with T the mixer-substitution
SM4Step(x, t) == <<x[2], x[3], x[4], XorB(x[1], t)>>
SM4Mix(x, k) == XorB(XorB(x[2], x[3]), XorB(x[4], k))

\* round keys rk[1..32]
SM4RoundKeys(key) ==
    LET mk == [i \in 1..4 |-> XorB(Block(key, 4, i), SM4FK[i])]
        step(acc, i) ==
            LET k == acc.x
                nk == SM4Step(k, SM4LK(SM4Tau(SM4Mix(k, SM4CK(i - 1)))))
            IN  [x |-> nk, rk |-> Append(acc.rk, nk[4])]
    IN  TLCEval(FoldLeft(step, [x |-> TLCEval(mk), rk |-> <<>>], [i \in 1..32 |-> i]).rk)

\* the cipher with round keys rk
SM4Crypt(rk, blk) ==
    LET x0 == <<Block(blk, 4, 1), Block(blk, 4, 2), Block(blk, 4, 3), Block(blk, 4, 4)>>
        step(x, k) == SM4Step(x, SM4L(SM4Tau(SM4Mix(x, k))))
        y == FoldLeft(step, x0, rk)
    IN  y[4] \o y[3] \o y[2] \o y[1]

SM4EncKey(key) == SM4RoundKeys(key)
SM4DecKey(key) == Reverse(SM4RoundKeys(key))
SM4Enc(key, blk) == SM4Crypt(SM4EncKey(key), blk)
SM4Dec(key, blk) == SM4Crypt(SM4DecKey(key), blk)
=============================================================================
