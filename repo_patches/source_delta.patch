From d37b9fb1e8f5837ee57e636147ead18108c9ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:53 +0000
Subject: [PATCH 01/19] fix: padding helpers write to the caller's buffer (no
 realloc of a by-value pointer), size_t lengths, empty input

---
 src/utils/padding.c | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..470ab97 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -1,8 +1,7 @@
 #include <wbcrypto/utils.h>
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
+    size_t i, pad_num;
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -23,8 +22,7 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
-    int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
+    size_t i;
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -44,9 +42,8 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    size_t i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -61,25 +58,24 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
-        pad_num = 0;
-    }
-    afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
+    size_t afpad_len = WBCRYPTO_padding_pkcs7_separate_length(src, srclen);
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    size_t pad_num, afpad_len;
+    if(srclen == 0){
+        return 0;
+    }
+    pad_num = src[srclen-1];
+    if(pad_num > 16){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-- 
2.43.0


From 3c7019bae9e4ba7c5742a850bcf1abe1056d9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:53 +0000
Subject: [PATCH 02/19] fix: CBC encryption allocates and frees the padded
 message; lengths are size_t

---
 src/modes/cbc128.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..f9bbfc2 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,12 +4,18 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
-    len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
+    int ret=0;
+    size_t len = WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen);
+    unsigned char *padded = NULL, *afin;
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }
+    padded = (unsigned char *)malloc(len ? len : 1);
+    if(padded==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, padded);
+    afin = padded;
     *use_olen = len;
 
     size_t n;
@@ -40,6 +46,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padded);
     return ret;
 }
 
@@ -47,7 +54,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
-- 
2.43.0


From 72ed18c5676045d409338d5a7bebf4aa014b5b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:13 +0000
Subject: [PATCH 03/19] fix: AES context zero-extends short keys instead of
 reading past them and decrypts with a decryption key schedule

---
 include/wbcrypto/aes.h | 1 +
 src/aes/aes.c          | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..bbefd17 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -10,6 +10,7 @@ extern "C" {
 
     struct aes_context {
         AES_KEY aes_key;
+        AES_KEY aes_dec_key;
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..2d4c2d2 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -18,9 +18,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
     keylen = keylen >= 16 ? 16 : keylen;
-    uint8_t input_key[16];
+    uint8_t input_key[16] = {0};
     memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +31,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From 63cfa3813911b18e9f1124ffd50d7a56409a3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:43 +0000
Subject: [PATCH 04/19] fix: GCM keeps lengths as size_t, encodes the 64-bit IV
 length and forgets old additional data on setiv

---
 src/modes/gcm128.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..a815f6d 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
@@ -117,7 +118,8 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset( work_buf, 0x00, 16 );               // clear the working buffer
-        PUT_UINT32_BE( len * 8, work_buf, 12 );  // place the IV into buffer
+        PUT_UINT32_BE( len >> 29, work_buf, 8 ); // place the IV bit length into buffer
+        PUT_UINT32_BE( len << 3, work_buf, 12 );
 
         p = iv;
         while( len > 0 ) {
@@ -162,7 +164,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -211,7 +214,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
-- 
2.43.0


From 2876ad93a6af5434ee78bfc29420bbb9a827a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:13 +0000
Subject: [PATCH 05/19] fix: parallel GCM: private loop index per iteration,
 empty input, in-place decryption tag, cipher failure, leaked counters

---
 src/modes/gcm_parallel.c | 78 +++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..0eb8a7a 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0, failed=0;       // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -16,12 +17,18 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
+    if(len == 0){
+        return 1;
+    }
     size_t len_s = (len - 1) / 16 + 1;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    unsigned char (*y_arr)[16] = malloc(sizeof(*y_arr) * len_s);
+    if (y_arr == NULL)
+    {
+        goto cleanup;
+    }
     for (i = 0; i < len_s; i++)
     {
-        y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
@@ -36,19 +43,30 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 #pragma omp for
         for (i = 0; i < len_s; i++)
         {
+            size_t j;
             unsigned char ectr[16];
             size_t use_len = 16;
             if (i == (len_s - 1))
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
+    free(y_arr);
+    if (failed)
+    {
+        goto cleanup;
+    }
     //unable to parallel
     for (i = 0; i < len_s; i++)
     {
@@ -71,7 +89,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0, failed=0;       // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -83,18 +102,38 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
+    if(len == 0){
+        return 1;
+    }
     size_t len_s = (len - 1) / 16 + 1;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    unsigned char (*y_arr)[16] = malloc(sizeof(*y_arr) * len_s);
+    if (y_arr == NULL)
+    {
+        goto cleanup;
+    }
     for (i = 0; i < len_s; i++)
     {
-        y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
         for (j = 0; j < 16; j++)
             y_arr[i][j] = ctx->y[j];
     }
+    //unable to parallel, and before the (maybe in-place) decryption
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
+    }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
@@ -103,34 +142,31 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 #pragma omp for
         for (i = 0; i < len_s; i++)
         {
+            size_t j;
             unsigned char ectr[16];
             size_t use_len = 16;
             if (i == (len_s - 1))
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr[i], ectr, key) == 0)
+            {
+#pragma omp atomic write
+                failed = 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
-    //unable to parallel
-    for (i = 0; i < len_s; i++)
+    free(y_arr);
+    if (failed)
     {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
+        goto cleanup;
     }
     ret=1;
 cleanup:
     return ret;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 64f478f708442445454de35a5421bb6d7e78ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:13 +0000
Subject: [PATCH 06/19] fix: GCM file decryption verifies the stored tag;
 64-bit length field, complete header reads, no fclose(NULL), I/O errors
 reported

---
 src/modes/gcmfile.c | 83 ++++++++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..ede5975 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -5,8 +5,12 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     if (ctx == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_ALLOC_FAILED);
     }
-    memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
+    memset(ctx->tag, 0, WBCRYPTO_GCM_FILE_TAG_LEN);
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        free(ctx);
+        goto cleanup;
+    }
     return ctx;
 cleanup:
     return NULL;
@@ -34,8 +38,9 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    size_t len_outfpath, block_size;
+    uint64_t file_size = 0;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -53,15 +58,15 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
-    unsigned char size_buf[sizeof(size_t)];
+    unsigned char size_buf[8];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
     fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    file_size = (uint64_t) ftell(infp);
+    for (int i = 0; i < 8; i++)
+        size_buf[i] = (unsigned char) (file_size >> (8 * i));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -69,8 +74,9 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -83,57 +89,63 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_buf), outfp) != sizeof(size_buf))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
-    unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    uint64_t file_size = 0, read_size = 0;
+    size_t block_size;
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    unsigned char size_buf[8];
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
-    memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_buf), infp) != sizeof(size_buf)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (int i = 0; i < 8; i++)
+        file_size |= (uint64_t) size_buf[i] << (8 * i);
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -144,15 +156,15 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -163,11 +175,18 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // the tag must match the one stored in the file
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(real_tag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
 
-- 
2.43.0


From 60b90afb90db85cb6c5ed29564da33e17a2e029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:13 +0000
Subject: [PATCH 07/19] fix: white-box GCM file variants verify the stored tag;
 64-bit length field, complete header reads, no fclose(NULL), I/O errors
 reported

---
 src/wbaes/wbaes_wbgcm_ee_file.c   | 77 ++++++++++++++++++-------------
 src/wbaes/wbaes_wbgcm_mask_file.c | 77 ++++++++++++++++++-------------
 2 files changed, 92 insertions(+), 62 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..e5c8b8e 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,9 +2,10 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    size_t len_outfpath, block_size;
+    uint64_t file_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -22,15 +23,15 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
-    unsigned char size_buf[sizeof(size_t)];
+    unsigned char size_buf[8];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
     fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    file_size = (uint64_t) ftell(infp);
+    for (int i = 0; i < 8; i++)
+        size_buf[i] = (unsigned char) (file_size >> (8 * i));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -38,8 +39,9 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size));
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -52,58 +54,64 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_buf), outfp) != sizeof(size_buf))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
-    unsigned char size_buf[sizeof(size_t)];
+    uint64_t file_size = 0, read_size = 0;
+    size_t block_size;
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    unsigned char size_buf[8];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
-    memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_buf), infp) != sizeof(size_buf)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (int i = 0; i < 8; i++)
+        file_size |= (uint64_t) size_buf[i] << (8 * i);
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,15 +122,15 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -133,10 +141,17 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // the tag must match the one stored in the file
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(real_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..ff65ee7 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,9 +2,10 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    size_t len_outfpath, block_size;
+    uint64_t file_size = 0;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
@@ -22,15 +23,15 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     // #1 Encrypt file (slice blocks)
     unsigned char buf[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
-    unsigned char size_buf[sizeof(size_t)];
+    unsigned char size_buf[8];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
     fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
-    memset(size_buf, 0, sizeof(size_t));
-    memcpy(size_buf, &file_size, sizeof(size_t));
+    file_size = (uint64_t) ftell(infp);
+    for (int i = 0; i < 8; i++)
+        size_buf[i] = (unsigned char) (file_size >> (8 * i));
     fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
@@ -38,8 +39,9 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size));
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -52,58 +54,64 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     fflush(tmpfp);
     fseek(tmpfp, 0, SEEK_SET);
     fclose(infp);
+    infp = NULL;
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_buf), outfp) != sizeof(size_buf))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
-    unsigned char size_buf[sizeof(size_t)];
+    uint64_t file_size = 0, read_size = 0;
+    size_t block_size;
+    unsigned char real_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
+    unsigned char size_buf[8];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
-
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
-    memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_buf), infp) != sizeof(size_buf)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    for (int i = 0; i < 8; i++)
+        file_size |= (uint64_t) size_buf[i] << (8 * i);
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,15 +122,15 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
@@ -133,10 +141,17 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // the tag must match the one stored in the file
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, real_tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(real_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL && fclose(outfp) != 0)
+        ret = 0;
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 9cc56a3eb8f5b5e8c430f22f402b1f0ae3964b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:32 +0000
Subject: [PATCH 08/19] fix: keystore reports short reads and failed writes and
 does not close a file that was not opened

---
 src/utils/keystore.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..5606f74 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -2,28 +2,36 @@
 
 int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(ctx_len != 0 && fread(ctx , ctx_len, 1, rkey) != 1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey != NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(ctx_len != 0 && fwrite( ctx, ctx_len, 1, wkey) != 1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey != NULL && fclose(wkey) != 0){
+        ret=0;
+    }
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From c43d44b77cad0204b041ddaae8a3e8c0b4f91cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:32 +0000
Subject: [PATCH 09/19] fix: WBCRYPTO_sm3 returns a value

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From ff9f19672806b1eb96dfc7857ead2c72ff101c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 10/19] fix: FPE contexts zero-extend tweaks shorter than what
 FF3 and FF3-GMAC read; nothing leaks when the radix is rejected

---
 src/fpe/init.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..c418f10 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -16,10 +16,15 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
+    // FF3 reads 8 and FF3-GMAC 16 bytes of the tweak: extend a shorter one with zeros
+    ctx->tweak = (unsigned char *) calloc(twklen < 16 ? 16 : twklen, 1);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
     memcpy(ctx->tweak, tweak, twklen);
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -42,8 +47,12 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
         goto cleanup;
     }
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        goto cleanup;
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From c167a2a66ab9f20878ce2a06e87e2fb31e7ebd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 11/19] fix: FF1 and FF3 report an error for inputs shorter
 than two symbols instead of aborting

---
 src/fpe/ff1.c      | 6 ++++++
 src/fpe/ff1_cmac.c | 6 ++++++
 src/fpe/ff3.c      | 6 ++++++
 src/fpe/ff3_gmac.c | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..09bb051 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -155,6 +158,9 @@ cleanup:
 
 int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..fa5055f 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -29,6 +29,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -201,6 +204,9 @@ cleanup:
 
 int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..2988cc2 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -3,6 +3,9 @@
 
 int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -84,6 +87,9 @@ cleanup:
 
 int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..9954426 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -81,6 +81,9 @@ int gmac_gen_H(WBCRYPTO_fpe_mac_context *ctx, uint64_t *HH, uint64_t *HL) {
 
 int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
@@ -178,6 +181,9 @@ cleanup:
 
 int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
     int ret = 0;
+    if (strlen(input) < 2) {
+        return 0;
+    }
     BIGNUM *bnum = BN_new(),
             *y = BN_new(),
             *c = BN_new(),
-- 
2.43.0


From c9b78edbf702594c47c3e1bb3e0d1db64f8301f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 12/19] fix: FF1-CMAC uses the value before the last block when
 Q is a single block (was uninitialised)

---
 src/fpe/ff1_cmac.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index fa5055f..ea1a0fb 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -123,6 +123,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
@@ -297,6 +298,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-- 
2.43.0


From bbe915a7b56429bdb6ba4ee5b6b23e78fa9aff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 13/19] fix: FPE applications leave room for the terminator,
 report FPE failures and zero-extend short keys

---
 src/fpe_app/cn_utf8.c | 6 ++++--
 src/fpe_app/idcard.c  | 6 ++++--
 src/fpe_app/init.c    | 2 +-
 src/fpe_app/phone.c   | 6 ++++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..6ded319 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -21,7 +21,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -62,7 +62,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if ((*block)(fpe_ctx, input, ans) != 1) {
+        goto cleanup;
+    }
 
     char *ori_add = cn;
     char *ans_p = ans;
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..e79108e 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -22,7 +22,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -45,7 +45,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if ((*block)(fpe_ctx, input, ans) != 1) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..86bf059 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -6,7 +6,7 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     ctx->cipher = cipher;
     ctx->ffx = ffx;
     keylen = keylen >= 16 ? 16 : keylen;
-    uint8_t input_key[16];
+    uint8_t input_key[16] = {0};
     memcpy(input_key, key, keylen);
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..70b1a0e 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -18,7 +18,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -39,7 +39,9 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if ((*block)(fpe_ctx, input, ans) != 1) {
+        goto cleanup;
+    }
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
-- 
2.43.0


From 66df2a32db0a950dc716360bbe8f1b885fd22994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:41 +0000
Subject: [PATCH 14/19] fix: Chinese text encryption reports characters outside
 U+4E00..U+9EFF instead of using uninitialised digits

---
 src/fpe_app/cn_utf8.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 6ded319..a87f0f7 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -10,6 +10,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     int ret = 0;
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
 
     for (i = 0; i < strlen(sample); i++) {
         if (sample[i] == '*') {
@@ -29,6 +30,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
         for (i = 0; i < len; i++, ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
+            if (uc_int < 0 || uc_int > 20735) { // not four base-12 digits
+                goto cleanup;
+            }
             utf8IntToCharDuodecimal(uc_int, input_p);
             input_p += 4;
         }
@@ -36,6 +40,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
         for (i = 0; i < strlen(sample); ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
+            if (uc_int < 0 || uc_int > 20735) { // not four base-12 digits
+                goto cleanup;
+            }
             if (sample[i] == '*') {
                 utf8IntToCharDuodecimal(uc_int, input_p);
                 input_p += 4;
@@ -50,7 +57,6 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     input[(len - tweak_len) * 4] = '\0';
     tweak[tweak_len * 4] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
-- 
2.43.0


From 916cb82670ee02226b244dee24286b2ac535e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:09 +0000
Subject: [PATCH 15/19] fix: WBSM4 dummy rounds have defined tables and
 adjacent dummy groups do not shift the round keys

---
 src/wbsm4/wbsm4_gen.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..d420edc 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point = 0;  // the sm4 round which round i computes, dummy rounds not counted
+    for (i = 0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,12 +226,15 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From 88619fabdd178873faa74a4567330ca0ce5a7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 16/19] fix: WBSM4 key files and key streams hold the tables,
 restore into any context and report errors

---
 src/wbsm4/wbsm4_exkey.c | 131 ++++++++++++++++++++++++++++++++++------
 1 file changed, 112 insertions(+), 19 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..7813cf1 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -1,15 +1,60 @@
 #include "wbsm4_local.h"
 
+#define WBSM4_MAX_ROUNDS (32 + 4 * 4096)
+
+// give ctx tables for the stored number of rounds, whatever it was initialised with
+static int wbsm4_resize(WBCRYPTO_wbsm4_context *ctx, int rounds){
+    int i,j,k;
+    if(rounds == ctx->rounds){
+        return 1;
+    }
+    if(rounds < 32 || rounds > WBSM4_MAX_ROUNDS || rounds % 4 != 0){
+        return 0;
+    }
+    WBCRYPTO_wbsm4_context *tmp = WBCRYPTO_wbsm4_context_init(ctx->encmode, (rounds - 32) / 4);
+    if(tmp == NULL){
+        return 0;
+    }
+    for(i = 0; i < ctx->rounds; i++){
+        for(j = 0; j < 4; j++){
+            for(k = 0; j < 3 && k < 4; k++){
+                free(ctx->MM[i][j][k]);
+            }
+            if(j < 3){
+                free(ctx->MM[i][j]);
+            }
+            free(ctx->CC[i][j]);
+            free(ctx->DD[i][j]);
+            free(ctx->Table[i][j]);
+        }
+        free(ctx->MM[i]);
+        free(ctx->CC[i]);
+        free(ctx->DD[i]);
+        free(ctx->Table[i]);
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+    ctx->MM = tmp->MM;
+    ctx->CC = tmp->CC;
+    ctx->DD = tmp->DD;
+    ctx->Table = tmp->Table;
+    ctx->rounds = rounds;
+    free(tmp);
+    return 1;
+}
+
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey = NULL;
     int i,j,k,l;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
-    if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
+    if(fputs("DummyRound-WBSM4", wkey) < 0
+        ||!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
     }
@@ -43,13 +88,15 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey != NULL && fclose(wkey) != 0){
+        ret=0;
+    }
     return ret;
 }
 
 int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey = NULL;
     int i,j,k,l;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
@@ -61,7 +108,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     if(strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
+    int rounds;
+    if(!fread(&rounds, sizeof(int), 1, rkey)
+       ||!wbsm4_resize(ctx, rounds)
        ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
@@ -95,20 +144,50 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey != NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
+// the tables in the order in which they are stored in a key stream
+static void wbsm4_tables(const WBCRYPTO_wbsm4_context *ctx, int i, uint32_t *t[24]){
+    int j,n=0;
+    for(j = 0; j < 12; j++){
+        t[n++] = ctx->MM[i][j / 4][j % 4];
+    }
+    for(j = 0; j < 4; j++){
+        t[n++] = ctx->CC[i][j];
+        t[n++] = ctx->DD[i][j];
+        t[n++] = ctx->Table[i][j];
+    }
+}
+
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    int i,j;
+    uint32_t *t[24];
+    uint32_t ks_len = 3*sizeof(uint32_t) + sizeof(ctx->SE) + sizeof(ctx->FE)
+            + ctx->rounds*24*256*sizeof(uint32_t);
 
-    ks_len = sizeof(struct wbsm4_context);
-    ks_len += sizeof(uint32_t);
-    *kstream = malloc(ks_len);
-    *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
+    char *ds = *kstream = malloc(ks_len);
+    if(ds == NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
+    memcpy(ds, &ks_len, sizeof(uint32_t));
+    memcpy(ds + 4, &ctx->rounds, sizeof(uint32_t));
+    memcpy(ds + 8, &ctx->encmode, sizeof(uint32_t));
+    ds += 12;
+    memcpy(ds, ctx->SE, sizeof(ctx->SE));
+    ds += sizeof(ctx->SE);
+    memcpy(ds, ctx->FE, sizeof(ctx->FE));
+    ds += sizeof(ctx->FE);
+    for(i = 0; i < ctx->rounds; i++){
+        wbsm4_tables(ctx, i, t);
+        for(j = 0; j < 24; j++, ds += 256*sizeof(uint32_t)){
+            memcpy(ds, t[j], 256*sizeof(uint32_t));
+        }
+    }
 
     ret=1;
 cleanup:
@@ -117,14 +196,28 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    int i,j,rounds;
+    uint32_t *t[24];
+    const char *ptr = kstream;
 
-    const uint8_t  *ptr = kstream;
-    ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
+    memcpy(&rounds, ptr + 4, sizeof(uint32_t));
+    if(!wbsm4_resize(ctx, rounds)){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    memcpy(&ctx->encmode, ptr + 8, sizeof(uint32_t));
+    ptr += 12;
+    memcpy(ctx->SE, ptr, sizeof(ctx->SE));
+    ptr += sizeof(ctx->SE);
+    memcpy(ctx->FE, ptr, sizeof(ctx->FE));
+    ptr += sizeof(ctx->FE);
+    for(i = 0; i < ctx->rounds; i++){
+        wbsm4_tables(ctx, i, t);
+        for(j = 0; j < 24; j++, ptr += 256*sizeof(uint32_t)){
+            memcpy(t[j], ptr, 256*sizeof(uint32_t));
+        }
+    }
 
     ret=1;
 cleanup:
     return ret;
 }
-
-
-- 
2.43.0


From 522c88d3a0d9c90cbd4701f061a07f738da89cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:11 +0000
Subject: [PATCH 17/19] fix: white-box AES table generation zero-extends short
 keys instead of reading past them

---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..35f70ac 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -20,7 +20,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16] = {0};
+    memcpy(input_key, key, keylen >= 16 ? 16 : keylen);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..a51ad63 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16] = {0};
+    memcpy(input_key, key, keylen >= 16 ? 16 : keylen);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..16fbaa3 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16] = {0};
+    memcpy(input_key, key, keylen >= 16 ? 16 : keylen);
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From 1b62de1b05907ba06452d30f177d7d9c8c45d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:26 +0000
Subject: [PATCH 18/19] fix: white-box GCM tags: both mask contexts compute the
 same tag, empty messages are tagged, lengths are size_t, 64-bit IV length,
 setiv forgets old additional data

---
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 30 +++++++++++++-------------
 src/wbaes/wbaes_wbgcm_mask_mode.c | 35 ++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..1285fcf 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
@@ -116,7 +117,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
-        PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
+        PUT_UINT32_BE(len >> 29, work_buf, 8);   // place the IV bit length into buffer
+        PUT_UINT32_BE(len << 3, work_buf, 12);
 
         p = iv;
         while (len > 0) {
@@ -155,7 +157,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
         return -1;
     } else {
@@ -205,7 +207,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
         return -1;
     } else {
@@ -263,22 +265,20 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    for (i = 0; i < len; i++) {
+        buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
-        }
+        tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
     }
     return 1;
 }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a227c76 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
@@ -125,7 +126,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     } else    // if we don't have a 12-byte IV, we GHASH whatever we've been given
     {
         memset(work_buf, 0x00, 16);               // clear the working buffer
-        PUT_UINT32_BE(len * 8, work_buf, 12);  // place the IV into buffer
+        PUT_UINT32_BE(len >> 29, work_buf, 8);   // place the IV bit length into buffer
+        PUT_UINT32_BE(len << 3, work_buf, 12);
 
         p = iv;
         while (len > 0) {
@@ -168,7 +170,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
         return -1;
     } else {
@@ -223,7 +225,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;
     if (outlen < inlen) {
         return -1;
     } else {
@@ -286,21 +288,26 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    for (i = 0; i < len; i++) {
+        buff_change[i] = ctx->buf[i];
+        if (!key->encMode) { //dec mode: its boxes undo L1, the tag is transformed by L1 as in enc mode
+            buff_change[i] = MatMulNumM8(key->L1[i], buff_change[i]);
+        }
+        buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        if (!key->encMode) {
+            tag[i] = MatMulNumM8(key->L1[i], tag[i]);
         }
     }
     return 1;
-- 
2.43.0


From cc9e93cc1023573e1d4ac78186f1f22e2320b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:54 +0000
Subject: [PATCH 19/19] fix: FF1 asserted on an empty tweak whose padding is
 empty (unsigned tweaklen + pad - 1 wrapped)

---
 src/fpe/ff1.c      | 4 ++--
 src/fpe/ff1_cmac.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 09bb051..1ce6ee7 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -66,7 +66,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad < Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
@@ -220,7 +220,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     // initialize Q
     memcpy(Q, ctx->tweak, ctx->tweaklen);
     memset(Q + ctx->tweaklen, 0x00, pad);
-    assert(ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->tweaklen + pad < Qlen);
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index ea1a0fb..b5a5fe3 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -92,7 +92,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad < Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
@@ -267,7 +267,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     // initialize Q
     memcpy(Q, ctx->fpe_ctx->tweak, ctx->fpe_ctx->tweaklen);
     memset(Q + ctx->fpe_ctx->tweaklen, 0x00, pad);
-    assert(ctx->fpe_ctx->tweaklen + pad - 1 <= Qlen);
+    assert(ctx->fpe_ctx->tweaklen + pad < Qlen);
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-- 
2.43.0

