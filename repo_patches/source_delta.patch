From 74c146d42c69902ca0a49399765b461b3ccece82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 01/24] fix: appendCRC wrote four bytes past the exported
 buffer

The checksum was copied behind a buffer that mpz_export sized for the number
alone (and to a null pointer for zero).
---
 includes/crc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 68c257a..2d53c35 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -49,6 +49,8 @@
 
 #include <sys/param.h>
 #include <stdint.h>
+#include <stdlib.h>
+#include <string.h>
 #include <gmpxx.h>
 #include <iostream>
 #include "utilities.hpp"
@@ -770,6 +772,7 @@ const mpz_class appendCRC(mpz_class n)
 
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len);
+    res = (uint8_t*) realloc(res, len+4);
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
-- 
2.43.0


From 3b432bc438984620df029b319c9ffe04b6427ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 02/24] fix: validateCRC and removeCRC read outside frames
 shorter than a checksum

Numbers of fewer than four bytes underflowed the payload length.
---
 includes/crc.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 2d53c35..5ac61a3 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -785,6 +785,10 @@ const bool validateCRC(mpz_class n)
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
 
+    // too short for a checksum: only the empty frame of zero is valid
+    if (len < 4)
+        return len == 0;
+
     uint32_t value = 0;    
     value |= *(res + len -4) ;
     value |= *(res + len -3) << 8;
@@ -801,6 +805,9 @@ const mpz_class removeCRC(mpz_class n)
 {
     uint8_t* res;
     size_t len = utils::getRawMpz(&res, n);
+
+    if (len < 4)
+        return mpz_class(0);
     
     mpz_class r = utils::setRawMpz(res, len-4);    
     return r;
-- 
2.43.0


From 7eb5948a5f7e054760687603a3987b1d64807be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 03/24] fix: AES::encrypt and AES::decrypt took their arguments
 in the wrong order

The header declares the key first, as encryptCRC and decryptCRC do, but the
definitions took the message first, so callers encrypted the key.
---
 src/utilities/aes.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 570933a..85d8d7b 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -37,7 +37,7 @@ void AES::init()
     AES::iv = iv;
 }
 
-ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
+ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
@@ -88,7 +88,7 @@ ctxt_t AES::encrypt(const msg_t plaintext, const mpz_class key) const
     return utils::setRawMpz(ciphertext,ciphertext_len);
 }
 
-msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
+msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
@@ -145,13 +145,13 @@ msg_t AES::decrypt(const ctxt_t cipher, const mpz_class key) const
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
 {
     msg_t msg = appendCRC(plaintext);
-    return encrypt(msg, key);
+    return encrypt(key, msg);
 }
 
 msg_t AES::decryptCRC(const mpz_class key, const ctxt_t cipher) const
 {
     
-    msg_t m =  decrypt(cipher, key);
+    msg_t m =  decrypt(key, cipher);
     if(validateCRC(m))
     {
         m = removeCRC(m);
-- 
2.43.0


From 3c8b16b59a908c33dfb850a4b3cb5b43588358b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 04/24] fix: AES read past the key buffer for keys with leading
 zero bytes

A 128-bit key below 2^120 was exported to fewer than the 16 bytes OpenSSL
reads, so the rest of the key was whatever followed on the heap.
---
 src/utilities/aes.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 85d8d7b..0507105 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -2,6 +2,8 @@
 #include <openssl/evp.h>
 #include <openssl/aes.h>
 #include <openssl/err.h>
+#include <stdlib.h>
+#include <string.h>
 #include <iostream>   
 
 #include "aes.hpp"
@@ -27,6 +29,20 @@ void handleErrors(void)
 }
 
 
+// The key as the 16 bytes AES-128 reads, leading zero bytes included
+static void getRawKey(uint8_t keybytes[CRYPTO_KEYBYTES], const mpz_class& key)
+{
+    uint8_t *keyarr;
+    size_t len = utils::getRawMpz(&keyarr, key);
+
+    if (len > CRYPTO_KEYBYTES)
+        len = CRYPTO_KEYBYTES;
+    memset(keybytes, 0, CRYPTO_KEYBYTES);
+    if (len)
+        memcpy(keybytes + CRYPTO_KEYBYTES - len, keyarr, len);
+    free(keyarr);
+}
+
 void AES::init(const string iv)
 {
     AES::iv = iv;
@@ -43,10 +59,10 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     int len = 0, ciphertext_len = 0;
     unsigned char ciphertext[128];
     uint8_t *ptarr;
-    uint8_t *keyarr;
+    uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
-    utils::getRawMpz(&keyarr, key);
+    getRawKey(keyarr, key);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
@@ -95,10 +111,10 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     // unsigned char plaintext[128];
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
-    uint8_t *keyarr;
+    uint8_t keyarr[CRYPTO_KEYBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
-    utils::getRawMpz(&keyarr, key);
+    getRawKey(keyarr, key);
 
 
     /* Create and initialise the context */
-- 
2.43.0


From 43877686f8817117ec3d7edf11bafaf1599e4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 05/24] fix: AES read 16 IV bytes from a shorter string

The default IV literal is an empty string and init() accepts any length.
---
 src/utilities/aes.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 0507105..ab76e6c 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -53,6 +53,13 @@ void AES::init()
     AES::iv = iv;
 }
 
+// The IV as the 16 bytes of a counter block, padded with zeros
+static void getRawIV(uint8_t ivbytes[CRYPTO_NPUBBYTES], const string& iv)
+{
+    memset(ivbytes, 0, CRYPTO_NPUBBYTES);
+    iv.copy((char*)ivbytes, CRYPTO_NPUBBYTES);
+}
+
 ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
@@ -60,15 +67,17 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     unsigned char ciphertext[128];
     uint8_t *ptarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
+    uint8_t ivarr[CRYPTO_NPUBBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
     getRawKey(keyarr, key);
+    getRawIV(ivarr, AES::iv);
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the encryption operation. */
-    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(1 != EVP_EncryptInit_ex(ctx, EVP_aes_128_ctr(), NULL,(unsigned char*)keyarr, (unsigned char*)ivarr))
         handleErrors();
 
     // /* Set IV length if default 12 bytes (96 bits) is not appropriate */
@@ -112,16 +121,18 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     unsigned char plaintext[128];
     uint8_t *ctxtarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
+    uint8_t ivarr[CRYPTO_NPUBBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     getRawKey(keyarr, key);
+    getRawIV(ivarr, AES::iv);
 
 
     /* Create and initialise the context */
     if(!(ctx = EVP_CIPHER_CTX_new())) handleErrors();
 
     /* Initialise the decryption operation. */
-    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)AES::iv.c_str()))
+    if(!EVP_DecryptInit_ex(ctx, EVP_aes_128_ctr(), NULL, (unsigned char*)keyarr, (unsigned char*)ivarr))
         handleErrors();
 
     // /* Set IV length. Not necessary if this is 12 bytes (96 bits) */
-- 
2.43.0


From 44d84499190d995b61ea652ae8ac89cc8d6a7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 06/24] fix: AES overflowed its stack buffer for messages
 longer than 128 bytes

---
 src/utilities/aes.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index ab76e6c..a8fd279 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -5,6 +5,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <iostream>   
+#include <vector>
 
 #include "aes.hpp"
 #include "utilities.hpp"
@@ -64,12 +65,12 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, ciphertext_len = 0;
-    unsigned char ciphertext[128];
     uint8_t *ptarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
     uint8_t ivarr[CRYPTO_NPUBBYTES];
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
+    std::vector<unsigned char> ciphertext(pt_len + 1);
     getRawKey(keyarr, key);
     getRawIV(ivarr, AES::iv);
 
@@ -90,7 +91,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext, &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -98,7 +99,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -110,20 +111,19 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext,ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 {
     EVP_CIPHER_CTX *ctx = NULL;
     int len = 0, plaintext_len = 0;
-    // unsigned char plaintext[128];
-    unsigned char plaintext[128];
     uint8_t *ctxtarr;
     uint8_t keyarr[CRYPTO_KEYBYTES];
     uint8_t ivarr[CRYPTO_NPUBBYTES];
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
+    std::vector<unsigned char> plaintext(ctxt_len + 1);
     getRawKey(keyarr, key);
     getRawIV(ivarr, AES::iv);
 
@@ -147,7 +147,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext, &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
         handleErrors();
 
     plaintext_len = len;
@@ -159,14 +159,14 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Finalise the decryption. A positive return value indicates success,
      * anything else is a failure - the plaintext is not trustworthy.
      */
-    EVP_DecryptFinal_ex(ctx, plaintext + len, &len);
+    EVP_DecryptFinal_ex(ctx, plaintext.data() + len, &len);
     plaintext_len += len;
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
     // plaintext[plaintext_len] = '\0';
 
-    return utils::setRawMpz(plaintext, plaintext_len);
+    return utils::setRawMpz(plaintext.data(), plaintext_len);
 }    
 
 ctxt_t AES::encryptCRC(const mpz_class key, const msg_t plaintext) const
-- 
2.43.0


From 0af47ae01dd0f2d95e2991373df3e6030c58b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 07/24] fix: AES lost leading zero bytes of ciphertexts

A ciphertext is returned as a number, so one in 256 ciphertexts came back
shorter and was decrypted with a shifted key stream; OPPRF runs failed on it.
Ciphertexts now carry a leading marker byte.
---
 src/utilities/aes.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index a8fd279..3afc628 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -71,6 +71,8 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     
     size_t pt_len  = utils::getRawMpz(&ptarr, plaintext);
     std::vector<unsigned char> ciphertext(pt_len + 1);
+    // the leading byte keeps ciphertexts that start with zero bytes at their length
+    ciphertext[0] = 1;
     getRawKey(keyarr, key);
     getRawIV(ivarr, AES::iv);
 
@@ -91,7 +93,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Provide the message to be encrypted, and obtain the encrypted output.
      * EVP_EncryptUpdate can be called multiple times if necessary
      */
-    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data(), &len, (unsigned char*)ptarr, pt_len))
+    if(1 != EVP_EncryptUpdate(ctx, ciphertext.data() + 1, &len, (unsigned char*)ptarr, pt_len))
         handleErrors();
 
     ciphertext_len = len;
@@ -99,7 +101,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
     /* Finalise the encryption. Normally ciphertext bytes may be written at
      * this stage, but this does not occur in GCM mode
      */
-    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + len, &len)) handleErrors();
+    if(1 != EVP_EncryptFinal_ex(ctx, ciphertext.data() + 1 + len, &len)) handleErrors();
     ciphertext_len += len;
 
     // /* Get the tag */
@@ -111,7 +113,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
-    return utils::setRawMpz(ciphertext.data(),ciphertext_len);
+    return utils::setRawMpz(ciphertext.data(),ciphertext_len + 1);
 }
 
 msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
@@ -124,6 +126,8 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     
     size_t ctxt_len  = utils::getRawMpz(&ctxtarr, cipher);
     std::vector<unsigned char> plaintext(ctxt_len + 1);
+    if(ctxt_len == 0)
+        return msg_t(0);
     getRawKey(keyarr, key);
     getRawIV(ivarr, AES::iv);
 
@@ -147,7 +151,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
     /* Provide the message to be decrypted, and obtain the plaintext output.
      * EVP_DecryptUpdate can be called multiple times if necessary
      */
-    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr, ctxt_len))
+    if(!EVP_DecryptUpdate(ctx, plaintext.data(), &len, (unsigned char*)ctxtarr + 1, ctxt_len - 1))
         handleErrors();
 
     plaintext_len = len;
-- 
2.43.0


From b02ccde84934f0485eb10a59d869377ffca7718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 08/24] fix: AES and CRC never freed the buffers they exported
 numbers to

---
 includes/crc.hpp      | 9 +++++++++
 src/utilities/aes.cpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/includes/crc.hpp b/includes/crc.hpp
index 5ac61a3..21c3bf8 100644
--- a/includes/crc.hpp
+++ b/includes/crc.hpp
@@ -776,6 +776,7 @@ const mpz_class appendCRC(mpz_class n)
     memcpy(res+len, &crc32c, 4);
 
     mpz_class r = utils::setRawMpz(res, len+4);    
+    free(res);
     return r;
 
 }
@@ -787,7 +788,10 @@ const bool validateCRC(mpz_class n)
 
     // too short for a checksum: only the empty frame of zero is valid
     if (len < 4)
+    {
+        free(res);
         return len == 0;
+    }
 
     uint32_t value = 0;    
     value |= *(res + len -4) ;
@@ -797,6 +801,7 @@ const bool validateCRC(mpz_class n)
     
     uint32_t crc32c =  0; 
     crc32c = calculate_crc32c(crc32c,(unsigned char*) res, len-4);
+    free(res);
     
     return (crc32c == value);
 }
@@ -807,9 +812,13 @@ const mpz_class removeCRC(mpz_class n)
     size_t len = utils::getRawMpz(&res, n);
 
     if (len < 4)
+    {
+        free(res);
         return mpz_class(0);
+    }
     
     mpz_class r = utils::setRawMpz(res, len-4);    
+    free(res);
     return r;
 
 }
diff --git a/src/utilities/aes.cpp b/src/utilities/aes.cpp
index 3afc628..a3c98db 100644
--- a/src/utilities/aes.cpp
+++ b/src/utilities/aes.cpp
@@ -110,6 +110,7 @@ ctxt_t AES::encrypt(const mpz_class key, const msg_t plaintext) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ptarr);
 
     // string c = string((char*)ciphertext, ciphertext_len);
     // string t = string((char*)tag, 16);
@@ -168,6 +169,7 @@ msg_t AES::decrypt(const mpz_class key, const ctxt_t cipher) const
 
     /* Clean up */
     EVP_CIPHER_CTX_free(ctx);
+    free(ctxtarr);
     // plaintext[plaintext_len] = '\0';
 
     return utils::setRawMpz(plaintext.data(), plaintext_len);
-- 
2.43.0


From 43b2650c5b283e8747a6a74a52f8f5c524d9a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 09/24] fix: subtracting or subtracting from the point at
 infinity

P - infinity added a bogus finite point, infinity - P lost its curve, and
both dereferenced a null curve when assertions are on.
---
 includes/ecc_template.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 4eb6e95..739ea36 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -353,9 +353,12 @@ Field_XXX_p,
 Field_XXX_n
 >::operator- (const Point_XXX& P) const
 {
-    assert(*this->curve == *P.curve);
+    if(P.is_inf)
+        return *static_cast<const Point_XXX*>(this);
+
+    assert(is_inf || *this->curve == *P.curve);
 
-    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, curve);
+    Point_XXX Q(P.x, Field_XXX_p(0)-P.y, P.curve);
 
     
     return *this + Q;
-- 
2.43.0


From 1534835cb6ff0e0f67abff109423e4b5ea5be3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 10/24] fix: doubling the point at infinity dereferenced a null
 curve

---
 includes/ecc_template.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 739ea36..c194a5d 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -562,6 +562,8 @@ Field_XXX_n
     Field_XXX_p Rx;
     Field_XXX_p Ry;
 
+    if(is_inf)
+        return *static_cast<const Point_XXX*>(this);
 
 	// Calculate 3Px^2 + a, where a is EC parmater
     T1 = this->x.square() * mpz_class(3) + curve->getAField();
-- 
2.43.0


From 6b84128a39557e3ffdad89f0be92fe90d90f61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 11/24] fix: generateKeyPair did not compile

---
 includes/ecc_template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index c194a5d..8549814 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -663,7 +663,7 @@ Field_XXX_n
 >::generateKeyPair(void) const
 {
     mpz_class sk = Curve_XXX::rand.get_z_range(order);
-    Point pk = G * sk;
+    Point_XXX pk = G * sk;
     return KeyPair<Curve_XXX, Point_XXX, Field_XXX_p, Field_XXX_n>(sk,pk);
 }
 
-- 
2.43.0


From 5001bdbe5cb2a2406d6b1e52056ff37f382ae28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 12/24] fix: a point lost its curve when an encoding of no
 point was decoded into it

Decoding into the same object again dereferenced a null pointer.
---
 includes/ecc_template.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 8549814..3efb066 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -285,10 +285,13 @@ Field_XXX_n
     bit = mpz_tstbit(ex.get_mpz_t(),0);
     mpz_div_2exp(res.get_mpz_t(),ex.get_mpz_t(),1);
 
+    Curve_XXX* c = curve;
     if (bit)
         *this = curve->evaluateP(res);
     else
         *this = curve->evaluatePneg(res);
+    // an encoding of no point gives infinity, which has no curve
+    curve = c;
 }
 
 
-- 
2.43.0


From c495d16bf1b43faa81911f0b8c6acbd15c067a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 13/24] fix: Point::operator*= for integers was declared but
 never defined

---
 includes/ecc_template.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 3efb066..c3f68af 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -467,6 +467,24 @@ Field_XXX_n
     return *static_cast<Point_XXX*>(this);;
 }
 
+template<
+        typename Curve_XXX,
+        typename Point_XXX, 
+        typename Field_XXX_p, 
+        typename Field_XXX_n
+        >
+Point_XXX& Point<
+Curve_XXX, 
+Point_XXX, 
+Field_XXX_p, 
+Field_XXX_n
+>::operator*= (const mpz_class& a)
+{
+    *this = *this * a;
+    return *static_cast<Point_XXX*>(this);;
+}
+
+
 template<
         typename Curve_XXX,
         typename Point_XXX, 
-- 
2.43.0


From 15db777bfcffd4266c58761c2661b4fbfef0ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 14/24] fix: the generator of a copied curve pointed to the
 original curve

Using the copy after the original was destroyed read freed memory.
---
 includes/ecc_template.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index c3f68af..530f5df 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -88,6 +88,25 @@ class Curve
     
     public:
 
+        Curve() {}
+        // a copy's generator lies on the copy
+        Curve(const Curve& c) :
+            prime(c.prime), a(c.a), b(c.b), G(c.G), order(c.order), cofactor(c.cofactor)
+        {
+            G.curve = static_cast<Curve_XXX*>(this);
+        }
+        Curve& operator=(const Curve& c)
+        {
+            prime = c.prime;
+            a = c.a;
+            b = c.b;
+            G = c.G;
+            G.curve = static_cast<Curve_XXX*>(this);
+            order = c.order;
+            cofactor = c.cofactor;
+            return *this;
+        }
+
         template<typename T1, typename T2, typename T3, typename T4>
         friend bool operator==(const Curve<T1,T2,T3,T4>& curve, const Curve<T1,T2,T3,T4>& c);
         template<typename T1, typename T2, typename T3, typename T4>
-- 
2.43.0


From a60df923926f8fe4597ffea6207fd17b397534fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 15/24] fix: copying a DME scheme freed its curve twice

Copies, and copies of the OT and OPPRF parties built on it, now share it.
---
 includes/dme.hpp | 5 +++--
 src/dme/dme.cpp  | 4 +---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 5bb7b75..95220b2 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -2,6 +2,7 @@
 #define __DME__
 
 #include <gmpxx.h>
+#include <memory>
 #include <tuple>
 
 #include "ecc_secp256r1.hpp"
@@ -100,7 +101,7 @@ class DME_DDH
 private:
     static const size_t secparam = 256; //bits
     
-    CURVE* curve =  new CURVE;
+    std::shared_ptr<CURVE> curve = std::make_shared<CURVE>();
 
     mode_t mode;  
     td_messy_ddh_t td_m;
@@ -118,7 +119,7 @@ public:
     DME_DDH(crs_ddh_t crs);
     ~DME_DDH();
     
-    CURVE* getCurve(void) {return curve;}
+    CURVE* getCurve(void) {return curve.get();}
 
     keypair_t KeyGen(branch_t branch) const;
     ctxt_t Enc(const pkey_t& pk, branch_t b, const msg_t& m) const;
diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index f3d8038..9732d6e 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -180,14 +180,12 @@ DME_DDH::DME_DDH()
 DME_DDH::DME_DDH(crs_ddh_t crs)
 {
     this->crs = crs;
-    this->crs.updateCurve(curve);
+    this->crs.updateCurve(curve.get());
 }
 
 
 DME_DDH::~DME_DDH()
 {
-    if (curve)
-        delete curve;
 }
 
 
-- 
2.43.0


From 9fce314e68779cc203b25672fd287643c51f40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 16/24] fix: copying a Puda instance freed its curves twice

---
 includes/puda.hpp | 5 +++--
 src/puda/puda.cpp | 6 ++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/includes/puda.hpp b/includes/puda.hpp
index 361cec4..2283c39 100644
--- a/includes/puda.hpp
+++ b/includes/puda.hpp
@@ -1,6 +1,7 @@
 #ifndef __PUDA__
 #define __PUDA__
 
+#include <memory>
 #include <tuple>
 #include <vector>
 
@@ -21,8 +22,8 @@ typedef ecc::Curve_secp256r1 CURVE2;
 
 typedef struct PudaPublicParam
 {
-    CURVE1* curve1;
-    CURVE2* curve2;
+    std::shared_ptr<CURVE1> curve1;
+    std::shared_ptr<CURVE2> curve2;
     POINT1 g1;
     POINT2 g2;
     POINT1 hash;  
diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 2239a25..95a6568 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -7,14 +7,12 @@ namespace puda
 
 Puda::Puda()
 {
-    pp.curve1 = new CURVE1;
-    pp.curve2 = new CURVE2;
+    pp.curve1 = std::make_shared<CURVE1>();
+    pp.curve2 = std::make_shared<CURVE2>();
 }
 
 Puda::~Puda()
 {
-    delete pp.curve1;
-    delete pp.curve2;
 }
 
 msg_t Puda::compute_dlog(POINT1 c)
-- 
2.43.0


From 48caca7da7d90511565b897422252b770ea01ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 17/24] fix: any two DME ciphertexts compared equal

CTXT::operator== compared the ciphertext with itself.
---
 src/dme/dme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dme/dme.cpp b/src/dme/dme.cpp
index 9732d6e..3c326d8 100644
--- a/src/dme/dme.cpp
+++ b/src/dme/dme.cpp
@@ -131,7 +131,7 @@ CTXT& CTXT::operator=(const CTXT& ctxt)
 
 bool CTXT::operator==(const CTXT& ctxt) const
 {
-    return this->u == u && this->mv == mv;
+    return this->u == ctxt.u && this->mv == ctxt.mv;
 }
 
 
-- 
2.43.0


From 90cdff577e842c1d434dd5fdccf519193473c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 18/24] fix: PUDA reported a sum of 65535 as 0

The discrete logarithm search stopped one short of the largest message.
---
 src/puda/puda.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puda/puda.cpp b/src/puda/puda.cpp
index 95a6568..edafc29 100644
--- a/src/puda/puda.cpp
+++ b/src/puda/puda.cpp
@@ -17,7 +17,7 @@ Puda::~Puda()
 
 msg_t Puda::compute_dlog(POINT1 c)
 {
-    for(uint16_t i=0; i!=USHRT_MAX; i++)
+    for(uint32_t i=0; i<=USHRT_MAX; i++)
     {
         if (pp.g1 * mpz_class(i) == c)
             return i;
-- 
2.43.0


From 81ecb2111828ddbd1e22daf2c0a76f3a97aa0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 19/24] fix: secret keys were the same in every process

The generators were never seeded, so every process drew the same scalars,
keys and masks, and the bit-string generator replayed the curve's scalars.
---
 includes/ecc_template.hpp   |  6 +++---
 includes/utilities.hpp      | 16 ++++++++++++++++
 src/utilities/utilities.cpp |  2 +-
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index 530f5df..b56586b 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -77,7 +77,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 class Curve
 {
     protected: 
-        static gmp_randclass rand;
+        static utils::SeededRand rand;
         mpz_class prime;
         mpz_class a;
         mpz_class b;
@@ -789,12 +789,12 @@ template<
         typename Field_XXX_p, 
         typename Field_XXX_n
         >
-gmp_randclass Curve<
+utils::SeededRand Curve<
 Curve_XXX, 
 Point_XXX, 
 Field_XXX_p, 
 Field_XXX_n
->::rand(gmp_randinit_default);
+>::rand;
 
 } // namespace ecc
 
diff --git a/includes/utilities.hpp b/includes/utilities.hpp
index 2e4b141..7e5f861 100644
--- a/includes/utilities.hpp
+++ b/includes/utilities.hpp
@@ -1,10 +1,26 @@
 #ifndef __UTILS__
 #define __UTILS__
 
+#include <random>
 #include <gmpxx.h>
 
 namespace utils
 {
+// GMP generator seeded by the operating system: GMP's default seed makes every
+// generator of every process produce the same numbers
+class SeededRand : public gmp_randclass
+{
+public:
+    SeededRand() : gmp_randclass(gmp_randinit_default)
+    {
+        std::random_device rd;
+        mpz_class s;
+        for (int i = 0; i < 8; i++)
+            s = (s << 32) + mpz_class(rd());
+        seed(s);
+    }
+};
+
 mpz_class getRandom(size_t bits);
 
 mpz_class setRawMpz(uint8_t* arr, size_t len);
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index ba7d821..342ef27 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static gmp_randclass rand = gmp_randclass(gmp_randinit_default);
+static SeededRand rand;
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From 1259ab22a616dc75b140b1fcaff64be6cd8c9ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 20/24] fix: threads raced on the shared random generators

Two threads drawing at once corrupted the generator or got the same scalar.
---
 includes/ecc_template.hpp   | 4 ++--
 src/utilities/utilities.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/includes/ecc_template.hpp b/includes/ecc_template.hpp
index b56586b..1f25e87 100644
--- a/includes/ecc_template.hpp
+++ b/includes/ecc_template.hpp
@@ -77,7 +77,7 @@ template<typename Curve_XXX, typename Point_XXX, typename Field_XXX_p, typename
 class Curve
 {
     protected: 
-        static utils::SeededRand rand;
+        static thread_local utils::SeededRand rand;
         mpz_class prime;
         mpz_class a;
         mpz_class b;
@@ -789,7 +789,7 @@ template<
         typename Field_XXX_p, 
         typename Field_XXX_n
         >
-utils::SeededRand Curve<
+thread_local utils::SeededRand Curve<
 Curve_XXX, 
 Point_XXX, 
 Field_XXX_p, 
diff --git a/src/utilities/utilities.cpp b/src/utilities/utilities.cpp
index 342ef27..e537258 100644
--- a/src/utilities/utilities.cpp
+++ b/src/utilities/utilities.cpp
@@ -5,7 +5,7 @@
 
 namespace utils
 {
-static SeededRand rand;
+static thread_local SeededRand rand;
 
 mpz_class getRandom(size_t bits)
 {
-- 
2.43.0


From 0f46f91c2b101440835248feee134a5ec78683a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 21/24] fix: secret-sharing coefficients were numbers below 100

One share narrowed the secret down to a hundred values, the sequence was the
same in every process, and a zero top coefficient lowered the threshold.
---
 src/shamirss/shamirss.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shamirss/shamirss.cpp b/src/shamirss/shamirss.cpp
index b878c17..ef08ae6 100644
--- a/src/shamirss/shamirss.cpp
+++ b/src/shamirss/shamirss.cpp
@@ -1,8 +1,11 @@
 #include "shamirss.hpp"
+#include "utilities.hpp"
 
 
 namespace sss
 {
+static thread_local utils::SeededRand rng;
+
 ShamirSS::ShamirSS()
 {
 
@@ -29,7 +32,7 @@ share_v_t ShamirSS::getShares(size_t t, size_t n, FIELD secret)
     share_v_t shares;
     for (size_t i = 0; i < t-1; i++)
     {
-        coefs.push_back(FIELD((rand()+1) %100));
+        coefs.push_back(FIELD(rng.get_z_range(secret.getField())));
     }
 
     for (size_t i = 1; i <= n; i++)
-- 
2.43.0


From 3d5a43831caa303ac96c947165c4c4f90eee4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 22/24] fix: ElGamal::keyGen returned nothing and did not
 compile

---
 includes/elgamal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/includes/elgamal.hpp b/includes/elgamal.hpp
index b7975ff..b3f90a0 100644
--- a/includes/elgamal.hpp
+++ b/includes/elgamal.hpp
@@ -41,7 +41,13 @@ public:
     ElGamal(){}
     ~ElGamal(){}
 
-    keypair_t keyGen() const {curve.generateKeyPair();}
+    keypair_t keyGen() const
+    {
+        keypair_t keys;
+        keys.sk = curve.getRandomScalar();
+        keys.pk = curve.getDefaultGen() * keys.sk;
+        return keys;
+    }
     
     ctxt_t encrypt(const pkey_t pkey, const POINT msg) const;
     ctxt_t encrypt(const pkey_t pkey, const mpz_class msg) {return encrypt(pkey, encode(msg));}
-- 
2.43.0


From 111bc51e0b940a292c7686b5c55aef8b32122ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 23/24] fix: OPPRF shuffled its keys and masks in the same
 order in every process

---
 src/opprf/opprf.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opprf/opprf.cpp b/src/opprf/opprf.cpp
index 9fcf203..2ef40aa 100644
--- a/src/opprf/opprf.cpp
+++ b/src/opprf/opprf.cpp
@@ -1,4 +1,6 @@
+#include <algorithm>
 #include <bitset>
+#include <random>
 
 #include "opprf.hpp"
 #include "utilities.hpp"
@@ -106,7 +108,9 @@ ot_ctxts_t OPPRFserver::runOTRound(short round, dme::pkey_t pk)
         c.ctxt[0] = ots.encMsgs(pk, Si0[round].k_lt, Si1[round].k_lt);
         c.ctxt[1] = ots.encMsgs(pk, Si0[round].k_eq, Si1[round].k_eq);
         c.ctxt[2] = ots.encMsgs(pk, Si0[round].k_gt, Si1[round].k_gt);
-        std::random_shuffle(c.ctxt.begin(), c.ctxt.end());
+        // rand(), which random_shuffle uses, gives the same order in every process
+        std::random_device rd;
+        std::shuffle(c.ctxt.begin(), c.ctxt.end(), rd);
 
         c.cprf = ots.encMsgs(pk, Si0[round].prf, Si1[round].prf);
     }
@@ -129,7 +133,8 @@ symctxt_t OPPRFserver::sendEncryptedMasks()
     c[0] = aes.encryptCRC(k_lt[0], mask.getEncodedX());
     c[1] = aes.encryptCRC(k_eq[0], mask.getEncodedX());
     c[2] = aes.encryptCRC(k_gt[0], curve->getRandomPoint().getEncodedX());
-    std::random_shuffle(c.begin(), c.end());
+    std::random_device rd;
+    std::shuffle(c.begin(), c.end(), rd);
  
     return c;
 }
-- 
2.43.0


From 4ac211070b7a230f14ea30692f6a4641bd00852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 24/24] fix: copying a DME scheme or an OT receiver read an
 uninitialised enum

---
 includes/dme.hpp | 2 +-
 includes/ot.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/includes/dme.hpp b/includes/dme.hpp
index 95220b2..94d7bfb 100644
--- a/includes/dme.hpp
+++ b/includes/dme.hpp
@@ -103,7 +103,7 @@ private:
     
     std::shared_ptr<CURVE> curve = std::make_shared<CURVE>();
 
-    mode_t mode;  
+    mode_t mode = messy;
     td_messy_ddh_t td_m;
     td_dec_ddh_t td_d;
 
diff --git a/includes/ot.hpp b/includes/ot.hpp
index 2a7aba0..dd9518d 100644
--- a/includes/ot.hpp
+++ b/includes/ot.hpp
@@ -15,7 +15,7 @@ class OTrecv
 private:
     dme::DME_DDH dme;
     dme::skey_t sk; 
-    dme::branch_t b;
+    dme::branch_t b = dme::branch_t::b0;
 
 public:
 
-- 
2.43.0

