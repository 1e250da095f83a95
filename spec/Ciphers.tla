------------------------------ MODULE Ciphers ------------------------------
(***************************************************************************)
(* The block ciphers a mode object can be built on: the real ones and toy  *)
(* ciphers with small blocks, which make every boundary reachable.         *)
(***************************************************************************)
EXTENDS SM4, AES

ToyInvS == <<
    113, 108, 122, 184,  22,  15,  30,  65,  53, 235, 208,  42, 228, 172,  98,  90,
    205, 200, 219,  26,  10, 142,   8,  70, 240,  75, 150, 193,  50, 160,  96, 204,
    247, 109, 105, 170,  97, 104,  27, 118,  12, 169,  20,  16,  14, 216, 163, 183,
    155, 210, 154,  40, 149,  95, 121, 178, 134, 254, 244, 107,  74,   6, 251,  62,
    132, 203,  33,  43,  25, 179, 114,  64, 255,  28, 227,  91, 120, 246, 174,  78,
     34, 191, 119, 173,  41, 151,  93, 115, 101,  73, 206, 190, 202, 146,  99, 250,
    167, 141,  47, 100,  85, 232, 165,  17,  80, 225, 186,  81, 189, 188, 237, 175,
     92,  84, 187,  69, 217,  60,  19, 230, 110, 248,  39, 214, 106, 242, 231, 199,
     56,  82, 164,  72, 239,  77,  29, 111, 211, 224, 130,  87, 157, 192, 182,  61,
      1,  36, 195, 153,  58,  55, 229, 226,  38,  31,  18, 148,  32,  94, 127, 116,
    124, 143, 103, 136, 147, 212,  63,  66,  79,  51,  24, 171,  46, 152, 145, 194,
    223, 158,  83,  49, 222, 135,   9,   7, 220, 233,  71, 196, 198, 215,  21, 129,
    168, 209,  11,  23, 125, 236, 238, 133, 126,  52, 166, 253,   4, 213, 139,  45,
    218, 102, 131, 117, 112, 176,   0, 252, 207, 201,  86, 177, 245, 197, 180,  57,
    144,   5, 162, 159,  48, 221,  76, 123,  54,   2, 128,  89, 243,  44, 249,  37,
    241, 234, 138,  68,  35, 156, 161, 137,  88, 140,  59,  13,  67, 181,   3, 185
>>

ToyBS(c) == CASE c = "toy1" -> 1 [] c = "toy2" -> 2
              [] c = "toy4p2" -> 4 [] c = "toy4p3" -> 4 [] c = "toy8p1" -> 8
              [] c = "toy5p2" -> 5 [] c = "toy16p2" -> 16
              [] c = "toy12p2" -> 12 [] c = "toy24p3" -> 24
ToyEnc(k, b) == Subst(SM4SBox, XorB(RotL(b, 8), k))
ToyDec(k, b) == LET x == XorB(Subst(ToyInvS, b), k) IN RotL(x, 8 * (Len(b) - 1))

IsAES(c) == c \in {"aes128", "aes192", "aes256"}
CipherBS(c) == IF c = "sm4" \/ IsAES(c) THEN 16 ELSE ToyBS(c)
CipherKeyLen(c) == CASE c = "sm4" -> 16 [] c = "aes128" -> 16 [] c = "aes192" -> 24
                     [] c = "aes256" -> 32 [] OTHER -> ToyBS(c)

\* key schedules for the two directions, and the block function they drive
EncKS(c, key) == CASE c = "sm4" -> SM4EncKey(key) [] IsAES(c) -> AESExpand(key) [] OTHER -> key
DecKS(c, key) == CASE c = "sm4" -> SM4DecKey(key) [] IsAES(c) -> AESExpand(key) [] OTHER -> key
BlkE(c, ks, b) == CASE c = "sm4" -> SM4Crypt(ks, b) [] IsAES(c) -> AESCryptE(ks, b) [] OTHER -> ToyEnc(ks, b)
BlkD(c, ks, b) == CASE c = "sm4" -> SM4Crypt(ks, b) [] IsAES(c) -> AESCryptD(ks, b) [] OTHER -> ToyDec(ks, b)
=============================================================================
