From 4d1e4535d5dba23b349bba701506f4fe78112d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 01/38] fix: BlockCipherMode::update always reports the output
 length

When the buffer was partly filled and still not full after the call,
*outl was left unset.
---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..0923095 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -74,8 +74,9 @@ public:
             out += size, in += size, inl -= size;
 
             std::memcpy(buf_, in, inl);
-            buf_size_ = inl, *outl = (std::size_t)(out - out_base);
+            buf_size_ = inl;
         }
+        *outl = (std::size_t)(out - out_base);
     }
 
     void do_final(std::uint8_t*       out,
-- 
2.43.0


From 3bab2c1d48630b7b2099633b8c6181eede8d85b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 02/38] fix: Hash::update uses BLOCK_SIZE instead of a
 hard-coded 64

With a block size other than 64 (GHASH) data following a completed partial
block was copied past the end of the internal buffer.
---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From 67a1e23558ee086ab93da026fc4bc0a29957bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 03/38] fix: GcmDecryptor::final_block must not keep its
 padding block static

The 'zero' padding block was a mutable static that the first decryption
overwrote, so later decryptions with a partial last block were rejected,
and concurrent decryptions raced on it.
---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..8991b9b 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -314,7 +314,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 81c315e459ca54776a4e4f73bca9b94fc370ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 04/38] fix: initialising a cipher mode discards leftover
 buffered bytes

init() on an object that had finished or abandoned a message with a partial
block kept the old bytes in the buffer and corrupted the new message (GCM has
no other way to start over).
---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 8991b9b..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 8f21914bf2646286f6e9766c59655547eae51d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 05/38] fix: GHash reset and set_key discard buffered bytes

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..149e4d4 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->hash_lib::Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->hash_lib::Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From 6720ce5a7486b4f2dfd0bbc914b7140d12fc764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:29 +0000
Subject: [PATCH 06/38] fix: CBC decryption in place

With out == in the plaintext of block i overwrote the ciphertext block that
block i+1 is chained with; every other mode already works in place.
---
 include/gmlib/block_cipher_mode/cbc_mode.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..a779eb5 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,10 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +141,10 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From 6b8993d37a32184968fc8b9de6eb49162051f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 07/38] fix: asn1_encode_integer_tlv writes the sign octet
 before the value

The leading zero octet was written and then overwritten by the value, so the
last byte of the encoding was never written.
---
 src/asn1/asn1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..89ddda1 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -353,6 +353,7 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
         if (data[0] >= 0x80)
         {
             *out = 0, *outl += 1;
+            out += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From 2218aa209f5e658e25a8362c7d29f43902b9cf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 08/38] fix: asn1_decode_tlv rejects elements longer than the
 input

A length larger than the remaining input was returned as is, and every
decoder and the dump routine then read beyond the buffer.
---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 89ddda1..361afeb 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From 1bcd6e6ea42316a5fd78cd7fddbd721a63d117f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 09/38] fix: asn1_decode_bit_string_value takes the unused bits
 from the content

It subtracted the identifier octet instead of the unused-bit count.
---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 361afeb..c87eaea 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -538,7 +538,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From 50e3861fcee2e2f007ded2e5c00bcce9efdb67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 10/38] fix: decode empty OCTET STRING, SEQUENCE and SET

They are valid, and the encoders of this library emit them.
---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index c87eaea..42f103f 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -554,7 +554,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -595,7 +595,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -618,7 +618,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From d5465d54fdf5132e6be1234130c329095e991252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 11/38] fix: typed ASN.1 decoders check the tag class

An application, context-specific or private element with the same tag number
was decoded as the universal type.
---
 src/asn1/asn1.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 42f103f..88d05ce 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -459,7 +459,8 @@ int asn1_decode_boolean_value(bool*               ret,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_BOOLEAN || tlv.length != 1)
     {
         return -1;
@@ -480,7 +481,8 @@ int asn1_decode_integer_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_INTEGER || tlv.length == 0)
     {
         return -1;
@@ -523,7 +525,8 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
     {
         return -1;
     }
@@ -554,7 +557,8 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -574,7 +578,8 @@ int asn1_decode_null_value(std::size_t*        read_num,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_NULL || tlv.length != 0)
     {
         return -1;
@@ -594,7 +599,8 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
@@ -617,7 +623,8 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
-- 
2.43.0


From 24b5d1c0397e6e3c198e24ddbfb0ff6f4ceebdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 12/38] fix: length buffer of asn1_encode_tlv_outl holds the
 longest form

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 88d05ce..92f47ed 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From 91546b38c12b67635980fb71ad17a4610fd11ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 13/38] fix: asn1_dump reports malformed nested content

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..3911682 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -36,7 +36,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From 423edecafc6eb2c01603d5dea6d6654a40f8a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 14/38] fix: ASN.1 INTEGER encoding is minimal

Leading zero octets of the value were kept and an empty value was encoded
with no content octets; both are invalid encodings that asn1_decode_integer
rejects.
---
 src/asn1/asn1.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 92f47ed..e32e62f 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -252,16 +252,15 @@ static std::size_t asn1_encode_integer_value_length(
     const std::uint8_t* data,
     std::size_t         data_len) noexcept
 {
-    std::size_t value_length;
-    if (data_len == 0)
+    while (data_len && data[0] == 0)
     {
-        value_length = 0;
+        data += 1, data_len -= 1;
     }
-    else
+    if (data_len == 0)
     {
-        value_length = (data[0] < 0x80) ? data_len : (data_len + 1);
+        return 1; // zero
     }
-    return value_length;
+    return (data[0] < 0x80) ? data_len : (data_len + 1);
 }
 
 std::size_t asn1_encode_integer_outl(const std::uint8_t* data,
@@ -352,13 +351,17 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                    ASN1_TAG_INTEGER,         //
                    asn1_encode_integer_value_length(data, data_len));
     out += n, *outl = n;
+    while (data_len && data[0] == 0)
+    {
+        data += 1, data_len -= 1;
+    }
+    if (data_len == 0 || data[0] >= 0x80)
+    {
+        *out = 0, *outl += 1;
+        out += 1;
+    }
     if (data_len)
     {
-        if (data[0] >= 0x80)
-        {
-            *out = 0, *outl += 1;
-            out += 1;
-        }
         std::memmove(out, data, data_len);
         *outl += data_len;
     }
-- 
2.43.0


From ca3ecadf256ead56d0cf616472e1d9221acc35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 15/38] fix: sm2_public_key_asn1_decode requires exactly 65
 bytes

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From fcf353d0bad43fc8e2a149737abc62640115579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 16/38] fix: SM2 signature and ciphertext decoding rejects
 extra elements

---
 src/sm2/sm2p256v1_asn1.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 26d50a9..d2116bb 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -136,7 +136,7 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
-    if (int_2_v_len != 32)
+    if (int_2_v_len != 32 || n != seq_v_len)
     {
         return -1;
     }
@@ -243,6 +243,10 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
         return -1;
     }
     seq_value += n, seq_v_len -= n;
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
-- 
2.43.0


From 40b883617043872addc0f37dedbe0f45ed114ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 17/38] fix: mont256_neg of zero is zero in the portable
 implementation

It fell through and returned the modulus, a second representation of zero
that the equality tests do not recognise.
---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From 690c88b5a764c9037e02ae18007887caf81eb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 18/38] fix: mont256_pow with exponent zero returns one in
 Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From 62806bf6729dc43a13aa6a579a39b31ba2445405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 19/38] fix: mpz_cmp (x64) compares from the most significant
 limb

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From fff0a978a81324357627ad8c414231d4e7b31b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 20/38] fix: generated SM2 private keys are in [1, n-2]

The key could be n-1, which set_priv rejects and for which 1+d has no inverse.
---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 6952b57ac65807aef68d58b36e8c006d72b9a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 21/38] fix: SM2 verify with an oversized identity returns
 false

sm2_compute_z throws for it, and verify is noexcept: the program terminated.
---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..28913c6 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -439,6 +439,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     {
         return false;
     }
+    // the identity has to fit in the 16-bit ENTL field
+    if (id_len * 8 > UINT16_MAX)
+    {
+        return false;
+    }
     // H(Z || M)
     internal::sm2_compute_z<Hash>(Z, id, id_len, x_, y_);
     Hash hash;
-- 
2.43.0


From 2a37b17b604c9220c2a9800e0eb9d0160b4ec83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 22/38] fix: SM2 verify rejects when [s]G + [t]P is the point
 at infinity

It was treated as a point with x = 0.
---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 28913c6..423caf5 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -465,6 +465,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From 0d878241f12f8883fe87575ceb58d9f69e21e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 23/38] fix: SM2 point decoding checks the input length

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..61b6b74 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -462,11 +462,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 03d3b6575ab38d3b09e7b7b8dd3ee958ad80c5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 24/38] fix: SM2 point decoding checks the parity in the hybrid
 form

---
 src/sm2/sm2p256v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 61b6b74..0bf9d5a 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -467,6 +467,11 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
             return -1;
         }
         *read_n = 65;
+        // hybrid form: the tag has to match the parity of y
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
-- 
2.43.0


From 6fa622b0cbd4cd477b6f595389783018495854c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 25/38] fix: SM2 points with coordinates not below p are
 rejected

They were silently reduced, so several byte strings denoted the same key
(with different identity digests).
---
 include/gmlib/sm2/internal/sm2p256v1.h |  1 +
 include/gmlib/sm2/sm2.h                |  4 ++++
 src/sm2/sm2p256v1.cpp                  | 15 +++++++++++++++
 3 files changed, 20 insertions(+)

diff --git a/include/gmlib/sm2/internal/sm2p256v1.h b/include/gmlib/sm2/internal/sm2p256v1.h
index 59bc60d..2b54f8d 100644
--- a/include/gmlib/sm2/internal/sm2p256v1.h
+++ b/include/gmlib/sm2/internal/sm2p256v1.h
@@ -57,6 +57,7 @@ void sm2_fp_cpy(sm2_fp_t r, const sm2_fp_t a) noexcept;
 void sm2_fp_set_zero(sm2_fp_t r) noexcept;
 void sm2_fp_set_one(sm2_fp_t r) noexcept;
 void sm2_fp_from_bytes(sm2_fp_t r, const std::uint8_t in[32]) noexcept;
+bool sm2_fp_bytes_check(const std::uint8_t in[32]) noexcept; // in < p?
 void sm2_fp_to_bytes(std::uint8_t out[32], const sm2_fp_t a) noexcept;
 
 // =============================================================================
diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 423caf5..f6cb861 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -354,6 +354,10 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
                                         const std::uint8_t y[32])
 {
     internal::sm2_ec_a T;
+    if (!internal::sm2_fp_bytes_check(x) || !internal::sm2_fp_bytes_check(y))
+    {
+        throw std::runtime_error("invalid sm2p256v1 PublicKey");
+    }
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
     if (!internal::sm2_ec_a_check(T))
diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 0bf9d5a..d6933ee 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -247,6 +247,13 @@ void sm2_fp_to_bytes(std::uint8_t out[32], const sm2_fp_t a) noexcept
     number::mont256_to_bytes(&FP_MONT_CTX, out, a);
 }
 
+bool sm2_fp_bytes_check(const std::uint8_t in[32]) noexcept
+{
+    number::uint256_t t;
+    number::uint256_from_bytes(t, in);
+    return number::uint256_cmp(t, P.v) < 0;
+}
+
 // =============================================================================
 // =================================== n =======================================
 // = 0xfffffffe_ffffffff_ffffffff_ffffffff_7203df6b_21c6052b_53bbf409_39d54123 =
@@ -472,6 +479,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        if (!sm2_fp_bytes_check(in + 1) || !sm2_fp_bytes_check(in + 33))
+        {
+            return -1;
+        }
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
@@ -481,6 +492,10 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
             return -1;
         }
         *read_n = 33;
+        if (!sm2_fp_bytes_check(in + 1))
+        {
+            return -1;
+        }
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
         if (sm2_ec_recover_y(R[1], R[0], y_hat))
-- 
2.43.0


From 281771f33d3e9bb597d6df68ab90bbb051a04b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 26/38] fix: SM9 G2 point bytes hold both coordinates in full

---
 src/sm9/sm9_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..4566f70 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1439,13 +1439,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
-- 
2.43.0


From 7daa616b6ea3df874b1e7ba7258a2a69f22e55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 27/38] fix: SM9 G2 point prefix takes the parity of the last
 byte of y

---
 src/sm9/sm9_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 4566f70..bc822f6 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1459,14 +1459,14 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
                                    const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 1, P[1]);
-    out[0] = ((out[32] & 1) == 0) ? 0x02 : 0x03;
+    out[0] = ((out[64] & 1) == 0) ? 0x02 : 0x03;
     sm9_fp2_to_bytes(out + 1, P[0]);
 }
 
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
-- 
2.43.0


From d387e6b473a8855af848c3444f609d2fc436e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 28/38] fix: SM9 point decoding checks the input length

---
 src/sm9/sm9_field.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index bc822f6..0cbb242 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1067,11 +1067,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
@@ -1480,6 +1488,10 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129)
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
         return 0;
-- 
2.43.0


From 395b04736bbebe3a0ab42fe0521fd0098b75a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 29/38] fix: SM9 G2 point decoding rejects points off the curve

---
 src/sm9/sm9_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 0cbb242..e301906 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1494,7 +1494,7 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From 012df9d127b39f57b17f8cd18d7e763459eccfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 30/38] fix: SM9 point decoding checks the parity in the hybrid
 form

---
 src/sm9/sm9_field.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index e301906..0b3267b 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1071,6 +1071,11 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        // hybrid form: the prefix carries the parity of y
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
@@ -1492,6 +1497,11 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         {
             return -1;
         }
+        // hybrid form: the prefix carries the parity of y
+        if (in[0] != 0x04 && (in[0] & 1) != (in[128] & 1))
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
         return sm9_ec2_a_check(R) ? 0 : -1;
-- 
2.43.0


From e4ad77a5bc721a5d85e709e1ae92f1edb7aac9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 31/38] fix: SM9 points with coordinates not below p are
 rejected

---
 include/gmlib/sm9/internal/sm9_field.h |  2 ++
 include/gmlib/sm9/sm9.h                | 12 ++++++++++++
 src/sm9/sm9_field.cpp                  | 22 ++++++++++++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/include/gmlib/sm9/internal/sm9_field.h b/include/gmlib/sm9/internal/sm9_field.h
index efd41e6..d9b1008 100644
--- a/include/gmlib/sm9/internal/sm9_field.h
+++ b/include/gmlib/sm9/internal/sm9_field.h
@@ -82,6 +82,8 @@ void sm9_fn_to_bytes(std::uint8_t out[32], const sm9_fn_t a) noexcept;
 // = 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d =
 // ======================================================================
 
+bool sm9_fp_bytes_check(const std::uint8_t in[32]) noexcept; // in < p?
+
 void sm9_fp_to_bytes(std::uint8_t dst[32], const sm9_fp_t a) noexcept;
 void sm9_fp_from_bytes(sm9_fp_t r, const std::uint8_t src[32]) noexcept;
 void sm9_fp_cpy(sm9_fp_t r, const sm9_fp_t a) noexcept;
diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..1cac57e 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -360,6 +360,13 @@ inline void SM9SignMasterPublicKey<Hash>::set_pub(const std::uint8_t x[64],
                                                   const std::uint8_t y[64])
 {
     internal::sm9_ec2_a T;
+    if (!internal::sm9_fp_bytes_check(x) ||
+        !internal::sm9_fp_bytes_check(x + 32) ||
+        !internal::sm9_fp_bytes_check(y) ||
+        !internal::sm9_fp_bytes_check(y + 32))
+    {
+        throw std::runtime_error("invalid sm9 SignPublicKey");
+    }
     internal::sm9_fp2_from_bytes(T[0], x);
     internal::sm9_fp2_from_bytes(T[1], y);
     if (!internal::sm9_ec2_a_check(T))
@@ -436,6 +443,11 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
                                               const std::uint8_t pub_y[64])
 {
     internal::sm9_ec_a T;
+    if (!internal::sm9_fp_bytes_check(priv_x) ||
+        !internal::sm9_fp_bytes_check(priv_y))
+    {
+        throw std::runtime_error("invalid sm9 SignPrivateKey");
+    }
     internal::sm9_fp_from_bytes(T[0], priv_x);
     internal::sm9_fp_from_bytes(T[1], priv_y);
     if (!internal::sm9_ec_a_check(T))
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 0b3267b..ac53b47 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -404,6 +404,13 @@ void sm9_fp_from_bytes(sm9_fp_t r, const std::uint8_t in[32]) noexcept
     number::mont256_from_bytes(&FP_MONT_CTX, r, in);
 }
 
+bool sm9_fp_bytes_check(const std::uint8_t in[32]) noexcept
+{
+    number::uint256_t a;
+    number::uint256_from_bytes(a, in);
+    return number::uint256_cmp(a, P.v) < 0;
+}
+
 void sm9_fp_to_bytes(std::uint8_t out[32], const sm9_fp_t a) noexcept
 {
     number::mont256_to_bytes(&FP_MONT_CTX, out, a);
@@ -1076,6 +1083,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_bytes_check(in + 1) || !sm9_fp_bytes_check(in + 33))
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
@@ -1085,6 +1096,10 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        if (!sm9_fp_bytes_check(in + 1))
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
@@ -1502,6 +1517,13 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
         {
             return -1;
         }
+        for (int i = 0; i < 4; i++)
+        {
+            if (!sm9_fp_bytes_check(in + 1 + 32 * i))
+            {
+                return -1;
+            }
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
         return sm9_ec2_a_check(R) ? 0 : -1;
-- 
2.43.0


From a35abc694d9e404b81b1ef8598d2299f44e10973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 32/38] fix: sm9_fp12_pow with exponent zero returns one

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index ac53b47..b25aad6 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -934,7 +934,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32)
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 5647b13d8fb17326a5f7033febf9b46445a47d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 33/38] fix: SM9 point addition covers infinity, equal and
 opposite points

---
 src/sm9/sm9_field.cpp | 54 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index b25aad6..984c0df 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1162,6 +1162,16 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
     sm9_fp_sqr(Z1Z1, Z1);
     sm9_fp_sqr(Z2Z2, Z2);
     sm9_fp_mul(U1, X1, Z2Z2);
@@ -1235,10 +1245,27 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 
     sm9_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
     sm9_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp_equal(U2, X1))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1585,6 +1612,16 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
     sm9_fp2_sqr(Z1Z1, Z1);
     sm9_fp2_sqr(Z2Z2, Z2);
     sm9_fp2_mul(U1, X1, Z2Z2);
@@ -1658,10 +1695,27 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 
     sm9_fp2_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
     sm9_fp2_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp2_equal(U2, X1))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From 221769080f6b4ce2c8310ba653d1ce4c3c558ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 34/38] fix: SM9 verify rejects when [h1]P2 + Ppub is the point
 at infinity

---
 include/gmlib/sm9/sm9.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 1cac57e..01566e7 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -425,6 +425,10 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     //  P = [h1]P2 + Ppub
     internal::sm9_ec2_j_mul_g(T.j, h_);
     internal::sm9_ec2_j_add_a(T.j, T.j, P_);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        return false;
+    }
     internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
     internal::sm9_pairing(w, S, T.a);
-- 
2.43.0


From c090f6a4588404863e25cdc7fd3316ecae0fcc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 35/38] fix: AES-192 key expansion (AES-NI) reads only the 24
 bytes of the key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From 6860e1eef04e1e5b68a347aea4b4028b73d1aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 36/38] fix: asn1_dump exhausts the call stack on deeply nested
 input

---
 src/asn1/asn1_dump.cpp | 46 ++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 3911682..a056f5b 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -2,19 +2,34 @@
 #include <gmlib/asn1/asn1_dump.h>
 
 #include <cstdio>
+#include <new>
+#include <vector>
 
 namespace asn1 {
 
-static int r_asn1_dump(const std::uint8_t* in,
-                       std::size_t         inl,
-                       std::size_t         depth) noexcept
+int asn1_dump(const std::uint8_t* in, std::size_t inl) noexcept
 {
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
-    while (inl)
+    // where the elements being dumped end, outermost first; not recursive, the
+    // nesting of the input must not be able to exhaust the call stack
+    std::vector<const std::uint8_t*> ends;
+    const std::uint8_t*              end = in + inl;
+    for (;;)
     {
-        err = asn1_decode_tlv(&tlv, &read_num, in, inl);
+        while (in == end && !ends.empty())
+        {
+            end = ends.back();
+            ends.pop_back();
+        }
+        if (in == end)
+        {
+            return 0;
+        }
+        const std::size_t depth = ends.size();
+
+        err = asn1_decode_tlv(&tlv, &read_num, in, (std::size_t)(end - in));
         if (err)
         {
             return err;
@@ -36,11 +51,18 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
-            if (err)
+            // its content comes next
+            try
             {
-                return err;
+                ends.push_back(end);
             }
+            catch (const std::bad_alloc&)
+            {
+                return -2;
+            }
+            in  = tlv.value;
+            end = tlv.value + tlv.length;
+            continue;
         }
         else
         {
@@ -56,14 +78,8 @@ static int r_asn1_dump(const std::uint8_t* in,
             if (tlv.length % 8 != 0) printf("\n");
         }
         // next
-        in += read_num, inl -= read_num;
+        in += read_num;
     }
-    return 0;
-}
-
-int asn1_dump(const std::uint8_t* in, std::size_t inl) noexcept
-{
-    return r_asn1_dump(in, inl, 0);
 }
 
 } // namespace asn1
-- 
2.43.0


From b3957f87c5d7ef0ba4492fc19463c2255118de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:02 +0000
Subject: [PATCH 37/38] fix: uint256_mod does not finish for small moduli

The quotient bounded the number of subtractions, up to 2^256 - 1 of them.
---
 src/number/uint256_common.cpp | 46 ++++++++++++++++++++++++++---------
 src/number/uint256_x64.cpp    | 46 ++++++++++++++++++++++++++---------
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/number/uint256_common.cpp b/src/number/uint256_common.cpp
index 1edded9..3a87c1e 100644
--- a/src/number/uint256_common.cpp
+++ b/src/number/uint256_common.cpp
@@ -350,6 +350,37 @@ static void uint256_self_mod_sll_n(std::uint32_t       num[8],
     }
 }
 
+/// num %= divisor, for a divisor of any size
+static void uint256_self_mod(std::uint32_t       num[8],
+                             const std::uint32_t divisor[8]) noexcept
+{
+    if (divisor[7] >> 31)
+    {
+        // num < 2 * divisor
+        if (uint256_cmp(num, divisor) >= 0)
+        {
+            uint256_sub_borrow(num, num, divisor); // never CF
+        }
+        return;
+    }
+    // bit by bit, the number of subtractions must not depend on the quotient
+    std::uint32_t r[8];
+    uint256_set_zero(r);
+    for (int i = 255; i >= 0; i--)
+    {
+        uint256_mod_add(r, r, r, divisor);
+        if (num[i / 32] >> (i % 32) & 1)
+        {
+            uint256_add_carry_uint32(r, r, 1); // never CF, r < divisor
+            if (uint256_cmp(r, divisor) >= 0)
+            {
+                uint256_sub_borrow(r, r, divisor);
+            }
+        }
+    }
+    uint256_cpy(num, r);
+}
+
 void uint256_mod(std::uint32_t       remainder[8],
                  const std::uint8_t* data,
                  std::size_t         data_len,
@@ -361,10 +392,7 @@ void uint256_mod(std::uint32_t       remainder[8],
     if (data_len >= 32)
     {
         uint256_from_bytes(t, data);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
         data_len -= 32, data += 32;
     }
@@ -372,10 +400,7 @@ void uint256_mod(std::uint32_t       remainder[8],
     {
         uint256_self_mod_sll_n(remainder, 256, divisor);
         uint256_from_bytes(t, data);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
         data_len -= 32, data += 32;
     }
@@ -387,10 +412,7 @@ void uint256_mod(std::uint32_t       remainder[8],
             tmp_buf[31 - i] = data[data_len - 1 - i];
         }
         uint256_from_bytes(t, tmp_buf);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
     }
 }
diff --git a/src/number/uint256_x64.cpp b/src/number/uint256_x64.cpp
index b892d2f..99339cd 100644
--- a/src/number/uint256_x64.cpp
+++ b/src/number/uint256_x64.cpp
@@ -275,6 +275,37 @@ static void uint256_self_mod_sll_n(std::uint64_t       num[4],
     }
 }
 
+/// num %= divisor, for a divisor of any size
+static void uint256_self_mod(std::uint64_t       num[4],
+                             const std::uint64_t divisor[4]) noexcept
+{
+    if (divisor[3] >> 63)
+    {
+        // num < 2 * divisor
+        if (uint256_cmp(num, divisor) >= 0)
+        {
+            uint256_sub_borrow(num, num, divisor); // never CF
+        }
+        return;
+    }
+    // bit by bit, the number of subtractions must not depend on the quotient
+    std::uint64_t r[4];
+    uint256_set_zero(r);
+    for (int i = 255; i >= 0; i--)
+    {
+        uint256_mod_add(r, r, r, divisor);
+        if (num[i / 64] >> (i % 64) & 1)
+        {
+            uint256_add_carry_uint64(r, r, 1); // never CF, r < divisor
+            if (uint256_cmp(r, divisor) >= 0)
+            {
+                uint256_sub_borrow(r, r, divisor);
+            }
+        }
+    }
+    uint256_cpy(num, r);
+}
+
 void uint256_mod(std::uint64_t       remainder[4],
                  const std::uint8_t *data,
                  std::size_t         data_len,
@@ -286,10 +317,7 @@ void uint256_mod(std::uint64_t       remainder[4],
     if (data_len >= 32)
     {
         uint256_from_bytes(t, data);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
         data_len -= 32, data += 32;
     }
@@ -297,10 +325,7 @@ void uint256_mod(std::uint64_t       remainder[4],
     {
         uint256_self_mod_sll_n(remainder, 256, divisor);
         uint256_from_bytes(t, data);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
         data_len -= 32, data += 32;
     }
@@ -312,10 +337,7 @@ void uint256_mod(std::uint64_t       remainder[4],
             tmp_buf[31 - i] = data[data_len - 1 - i];
         }
         uint256_from_bytes(t, tmp_buf);
-        while (uint256_cmp(t, divisor) >= 0)
-        {
-            uint256_sub_borrow(t, t, divisor); // never CF
-        }
+        uint256_self_mod(t, divisor);
         uint256_mod_add(remainder, remainder, t, divisor);
     }
 }
-- 
2.43.0


From 7ae88b77d9da2cda32088143fef1e5b0d53c60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 38/38] fix: a refused SM9 user key import leaves the old
 private key replaced

SM9SignPrivateKey::set_priv stored the private point before it checked the
public key: when the public key was refused, the object was left with the new
private and the old public key.
---
 include/gmlib/sm9/sm9.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index 01566e7..f4a4cfa 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -458,9 +458,10 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-    internal::sm9_ec_a_cpy(priv_, T);
-
+    // refuse the public key before anything is stored
     pub_.set_pub(pub_x, pub_y);
+
+    internal::sm9_ec_a_cpy(priv_, T);
 }
 
 template <class Hash>
-- 
2.43.0

