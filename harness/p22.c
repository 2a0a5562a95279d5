#include "h.h"
#include <openssl/evp.h>
#include <wbcrypto/aes.h>
#include <wbcrypto/sm4.h>
#include <wbcrypto/fpe.h>
#include <wbcrypto/wbaes.h>
#include <wbcrypto/wbsm4.h>
static void ref(const EVP_CIPHER *ci, const u8 *k, const u8 *x, u8 *y, int enc) {
    static EVP_CIPHER_CTX *c; int n;
    if (!c) c = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(c, ci, 0, k, 0, enc);
    EVP_CIPHER_CTX_set_padding(c, 0);
    EVP_CipherUpdate(c, y, &n, x, 16);
}
static void gcm_ref(const u8 *k, const u8 *iv, const u8 *in, int n, u8 *out, u8 *tag) {
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l;
    EVP_EncryptInit_ex(c, EVP_aes_128_gcm(), 0, k, iv);
    EVP_EncryptUpdate(c, out, &l, in, n);
    EVP_EncryptFinal_ex(c, out, &l);
    EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, tag);
    EVP_CIPHER_CTX_free(c);
}
static void cbc_ref(const EVP_CIPHER *ci, const u8 *k, const u8 *iv, const u8 *in, int n, u8 *out) {
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); int l;
    EVP_EncryptInit_ex(c, ci, 0, k, iv);
    EVP_CIPHER_CTX_set_padding(c, 0);
    EVP_EncryptUpdate(c, out, &l, in, n);
    EVP_CIPHER_CTX_free(c);
}
static int h_case(void) {
    size_t kl = rnd(3) ? 16 : rnd(40);
    u8 *key = gbuf(kl), *in = gbuf(16), *out = gbuf(16), pk[16] = {0}, e[16], b[16];
    memcpy(pk, key, kl > 16 ? 16 : kl);
    WBCRYPTO_aes_context *c = WBCRYPTO_aes_context_init();
    CHECK(c, "context_init failed");
    CHECK(WBCRYPTO_aes_init_key(c, key, kl) == 1, "init_key failed");
    ref(EVP_aes_128_ecb(), pk, in, e, 1);
    CHECK(WBCRYPTO_aes_encrypt(in, out, c) == 1, "encrypt failed");
    CHECK(!memcmp(out, e, 16), "encrypt key=%s (len %zu) in=%s got=%s want=%s", hex(key, kl), kl, hex(in, 16), hex(out, 16), hex(e, 16));
    CHECK(WBCRYPTO_aes_decrypt(out, b, c) == 1, "decrypt failed");
    CHECK(!memcmp(b, in, 16), "decrypt(encrypt(x)) != x key=%s in=%s", hex(key, kl), hex(in, 16));
    memcpy(b, in, 16);
    WBCRYPTO_aes_encrypt(b, b, c);
    CHECK(!memcmp(b, e, 16), "in-place encrypt differs");
    ref(EVP_aes_128_ecb(), pk, in, e, 0);
    WBCRYPTO_aes_decrypt(in, b, c);
    CHECK(!memcmp(b, e, 16), "decrypt is not AES decryption");
    /* front ends: AES and SM4, full blocks with a last byte that is no padding, and padded messages */
    WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init();
    u8 sk[16]; rbytes(sk, 16);
    WBCRYPTO_sm4_init_key(s, sk, 16);
    size_t n = rnd(100), m = (n + 15) / 16 * 16;
    u8 *msg = gbuf(n), *ct = gbuf(m), *pt = gbuf(m), *want = gbuf(m), pad[128], iv[16], iv2[16];
    if (n) msg[n - 1] |= 0x80;
    memcpy(pad, msg, n);
    memset(pad + n, (int) (m - n), m - n);
    rbytes(iv, 16);
    size_t ul = 77;
    for (int f = 0; f < 2; f++) {
        cbc_ref(f ? EVP_sm4_cbc() : EVP_aes_128_cbc(), f ? sk : pk, iv, pad, (int) m, want);
        memcpy(iv2, iv, 16);
        int r = f ? WBCRYPTO_sm4_cbc_encrypt(msg, n, ct, m, &ul, s, iv2) : WBCRYPTO_aes_cbc_encrypt(msg, n, ct, m, &ul, c, iv2);
        CHECK(r == 1, "cbc encrypt failed n=%zu", n);
        CHECK(ul == m, "cbc used length %zu for n=%zu", ul, n);
        CHECK(!memcmp(ct, want, m), "family %d: cbc ciphertext differs n=%zu", f, n);
        if (!n) continue;
        memcpy(iv2, iv, 16);
        r = f ? WBCRYPTO_sm4_cbc_decrypt(ct, m, pt, m, &ul, s, iv2) : WBCRYPTO_aes_cbc_decrypt(ct, m, pt, m, &ul, c, iv2);
        CHECK(r == 1, "cbc decrypt failed n=%zu", n);
        CHECK(ul == n, "family %d: cbc decrypted length %zu for n=%zu", f, ul, n);
        CHECK(!memcmp(pt, msg, n), "family %d: cbc plaintext differs n=%zu", f, n);
        u8 sm[1]; size_t ul2 = 3;
        r = f ? WBCRYPTO_sm4_cbc_encrypt(msg, n, sm, 1, &ul2, s, iv2) : WBCRYPTO_aes_cbc_encrypt(msg, n, sm, 1, &ul2, c, iv2);
        CHECK(r == 0, "family %d: cbc with a too small output succeeded", f);
    }
    u8 tag[16], wt[16];
    WBCRYPTO_gcm_context *g = WBCRYPTO_aes_gcm_init(c);
    CHECK(g && WBCRYPTO_gcm_setiv(g, iv, 12) == 1, "gcm init");
    WBCRYPTO_gcm_encrypt(g, msg, n, ct, m);
    WBCRYPTO_gcm_finish(g, tag, 16);
    gcm_ref(pk, iv, msg, (int) n, want, wt);
    CHECK(!memcmp(ct, want, n) && !memcmp(tag, wt, 16), "aes gcm differs from AES-128-GCM n=%zu", n);
    WBCRYPTO_gcm_free(g);
    g = WBCRYPTO_sm4_gcm_init(s);
    memset(iv2, 0, 16); memcpy(iv2, iv, 12); iv2[15] = 2;
    WBCRYPTO_gcm_setiv(g, iv, 12);
    WBCRYPTO_gcm_encrypt(g, msg, n, ct, m);
    ref(EVP_sm4_ecb(), sk, iv2, e, 1);
    for (size_t i = 0; i < n && i < 16; i++) CHECK(ct[i] == (msg[i] ^ e[i]), "sm4 gcm key stream differs");
    WBCRYPTO_gcm_free(g);
    WBCRYPTO_gcmfile_context *gf = WBCRYPTO_aes_gcmfile_init(c), *gs = WBCRYPTO_sm4_gcmfile_init(s);
    CHECK(gf && gs, "gcmfile init");
    WBCRYPTO_gcmfile_free(gf); WBCRYPTO_gcmfile_free(gs);
    WBCRYPTO_fpe_context *fa = WBCRYPTO_aes_fpe_init(c, (char *) iv, 8, 10), *fs = WBCRYPTO_sm4_fpe_init(s, (char *) iv, 8, 10);
    WBCRYPTO_fpe_context *ra = WBCRYPTO_fpe_init((char *) iv, 8, 10, c, (block128_f) WBCRYPTO_aes_encrypt), *rs = WBCRYPTO_fpe_init((char *) iv, 8, 10, s, (block128_f) WBCRYPTO_sm4_encrypt);
    CHECK(fa && fs && ra && rs, "fpe init");
    char d[11] = "0123456789", o1[11], o2[11];
    for (int i = 0; i < 10; i++) d[i] = '0' + rnd(10);
    for (int f = 0; f < 2; f++) {
        memset(o1, 0, 11); memset(o2, 0, 11);
        CHECK(WBCRYPTO_ff1_encrypt(f ? fs : fa, d, o1) == 1 && WBCRYPTO_ff1_encrypt(f ? rs : ra, d, o2) == 1, "ff1");
        CHECK(!strcmp(o1, o2), "family %d: fpe front end differs", f);
    }
    WBCRYPTO_fpe_free(fa); WBCRYPTO_fpe_free(fs); WBCRYPTO_fpe_free(ra); WBCRYPTO_fpe_free(rs);
    /* white-box families (tables generated once): one-block CBC and GCM against the family's block routine */
    static WBCRYPTO_wbaes_context *wa; static WBCRYPTO_wbsm4_context *we, *wd;
    if (!wa) {
        wa = WBCRYPTO_wbaes_context_init(); we = WBCRYPTO_wbsm4_context_init(WBCRYPTO_ENCRYPT_MODE, 2); wd = WBCRYPTO_wbsm4_context_init(WBCRYPTO_DECRYPT_MODE, 1);
        WBCRYPTO_wbaes_gen_table(wa, sk, 16); WBCRYPTO_wbsm4_gen_table(we, sk, 16); WBCRYPTO_wbsm4_gen_table(wd, sk, 16);
    }
    if (rnd(8) == 0) {
        u8 blk[16], w1[16], o[16], y[16] = {0};
        in[15] |= 0x80;
        for (int i = 0; i < 16; i++) blk[i] = in[i] ^ iv[i];
        memcpy(y, iv, 12); y[15] = 2;
        for (int f = 0; f < 2; f++) {
            memcpy(iv2, iv, 16);
            if (f) WBCRYPTO_wbsm4_encrypt(blk, w1, we); else WBCRYPTO_wbaes_encrypt(blk, w1, wa);
            int r = f ? WBCRYPTO_wbsm4_cbc_encrypt(in, 16, o, 16, &ul, we, iv2) : WBCRYPTO_wbaes_cbc_encrypt(in, 16, o, 16, &ul, wa, iv2);
            CHECK(r == 1 && ul == 16 && !memcmp(o, w1, 16), "white-box family %d: cbc front end differs", f);
            g = f ? WBCRYPTO_wbsm4_gcm_init(we) : WBCRYPTO_wbaes_gcm_init(wa);
            WBCRYPTO_gcm_setiv(g, iv, 12);
            WBCRYPTO_gcm_encrypt(g, in, 16, o, 16);
            if (f) WBCRYPTO_wbsm4_encrypt(y, w1, we); else WBCRYPTO_wbaes_encrypt(y, w1, wa);
            for (int i = 0; i < 16; i++) CHECK(o[i] == (w1[i] ^ in[i]), "white-box family %d: gcm front end differs", f);
            WBCRYPTO_gcm_free(g);
            fa = f ? WBCRYPTO_wbsm4_fpe_init(we, (char *) iv, 8, 10) : WBCRYPTO_wbaes_fpe_init(wa, (char *) iv, 8, 10);
            fs = WBCRYPTO_fpe_init((char *) iv, 8, 10, f ? (void *) we : (void *) wa, f ? (block128_f) WBCRYPTO_wbsm4_encrypt : (block128_f) WBCRYPTO_wbaes_encrypt);
            memset(o1, 0, 11); memset(o2, 0, 11);
            CHECK(WBCRYPTO_ff1_encrypt(fa, d, o1) == 1 && WBCRYPTO_ff1_encrypt(fs, d, o2) == 1 && !strcmp(o1, o2), "white-box family %d: fpe front end differs", f);
            WBCRYPTO_fpe_free(fa); WBCRYPTO_fpe_free(fs);
        }
        WBCRYPTO_wbsm4_decrypt(in, w1, wd);
        for (int i = 0; i < 16; i++) w1[i] ^= iv[i];
        memcpy(iv2, iv, 16);
        CHECK(WBCRYPTO_wbsm4_cbc_decrypt(in, 16, o, 16, &ul, wd, iv2) == 1 && !memcmp(o, w1, 16), "white-box SM4: cbc decryption front end differs");
    }
    snprintf(h_desc, sizeof h_desc, "keylen=%zu n=%zu", kl, n);
    h_distinct++;
    free(key); free(in); free(out); free(c); free(s); free(msg); free(ct); free(pt); free(want);
    return 0;
}
