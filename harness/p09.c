#include "h.h"
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
unsigned int __wrap_cus_random(void) { return (unsigned) h_next(); }
static const u8 *rk;
static void raw(const u8 *in, u8 *out) { AES_KEY a; AES_set_encrypt_key(rk, 128, &a); AES_encrypt(in, out, &a); }
#include "gcmref.h"
static void oracle(const u8 *k, const u8 *iv, size_t ivn, const u8 *a, size_t an, const u8 *m, size_t n, u8 *c, u8 *tag) {
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
    if (ivn > 120) { rk = k; ref(iv, ivn, a, an, m, n, c, tag); return; }  /* OpenSSL stops at 128 */
    EVP_EncryptInit_ex(x, EVP_aes_128_gcm(), 0, 0, 0);
    EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, ivn, 0); EVP_EncryptInit_ex(x, 0, 0, k, iv);
    if (an) EVP_EncryptUpdate(x, 0, &l, a, an);
    if (n) EVP_EncryptUpdate(x, c, &l, m, n);
    EVP_EncryptFinal_ex(x, c + n, &l); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, tag);
    EVP_CIPHER_CTX_free(x);
}
static WBCRYPTO_wbaes_wbgcm_ee_context *K;
static int h_case(void) {
    u8 k[16], tag[16];
    rbytes(k, 16);
    free(K); K = malloc(sizeof *K); memset(K, 0xa5, sizeof *K);
    WBCRYPTO_wbaes_wbgcm_ee_gen_table(K, k, 16);
    WBCRYPTO_wbgcm_ee_context *g = WBCRYPTO_wbaes_wbgcm_ee_init(K);
    CHECK(g, "init");
    for (int t = 0; t < 60; t++) {
        size_t n = rnd(20) == 0 ? 16 * (250 + rnd(400)) : t < 34 ? t : h_len(1500), an = t < 20 ? 19 - t : h_len(300), ivn = rnd(3) ? 12 : rnd(3) ? 1 + rnd(70) : 1 + rnd(rnd(4) ? 128 : 1500);
        u8 *m = gbuf(n), *a = gbuf(an), *iv = gbuf(ivn), *c = gbuf(n), *w = malloc(n + 16), *d = gbuf(n);
        oracle(k, iv, ivn, a, an, m, n, w, tag);
        if (rnd(3) == 0) { /* dirty context: an unfinished earlier message */
            u8 z[33], zo[33]; rbytes(z, 33); WBCRYPTO_wbaes_wbgcm_ee_setiv(g, z, 16); WBCRYPTO_wbaes_wbgcm_ee_aad(g, z, 5 + rnd(20)); WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, z, 33, zo, 33);
        }
        for (int dec = 0; dec < 2; dec++) for (int ip = 0; ip < 2; ip++) {
            const u8 *src = dec ? w : m, *want = dec ? m : w;
            u8 *buf = gbuf(n), *o = ip ? buf : (dec ? d : c); memcpy(buf, src, n);
            CHECK(WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv, ivn) == 1, "setiv(%zu)", ivn);
            if (an || rnd(2)) CHECK(WBCRYPTO_wbaes_wbgcm_ee_aad(g, a, an) == 1, "aad");
            size_t pos = 0;
            while (pos < n || n == 0) {
                size_t l = n - pos; if (l > 16 && rnd(2)) l = 16 * (1 + rnd(l / 16));
                int r = dec ? WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, buf + pos, l, o + pos, n - pos) : WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, buf + pos, l, o + pos, n - pos);
                CHECK(r == 1, "%s returned %d", dec ? "decrypt" : "encrypt", r);
                pos += l; if (n == 0) break;
            }
            size_t tl = rnd(3) ? 16 : rnd(17); u8 *tg = gbuf(tl);
            CHECK(WBCRYPTO_wbaes_wbgcm_ee_finish(g, tg, tl) == 1, "finish");
            CHECK(!memcmp(o, want, n), "%s output differs from AES-128-GCM: key %s length %zu ivlen %zu inplace %d", dec ? "decrypt" : "encrypt", hex(k, 16), n, ivn, ip);
            CHECK(!memcmp(tg, tag, tl), "%s tag differs from AES-128-GCM: key %s length %zu aad %zu ivlen %zu inplace %d tag length %zu", dec ? "decrypt" : "encrypt", hex(k, 16), n, an, ivn, ip, tl);
            free(buf); free(tg);
        }
        /* counter wrap and long running lengths, from a chosen context state */
        WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv, ivn);
        if (rnd(2)) {
            memset(g->y + 12, 0xff, 4); g->y[15] = 0xff - rnd(4);
            u8 y[16], ks[16], z[16] = {0}; int l; memcpy(y, g->y, 16);
            EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); EVP_EncryptInit_ex(x, EVP_aes_128_ecb(), 0, k, 0); EVP_CIPHER_CTX_set_padding(x, 0);
            CHECK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, m, n, c, n) == 1, "encrypt");
            for (size_t i = 0; i < n; i++) {
                if (i % 16 == 0) { for (int j = 15; j >= 12; j--) if (++y[j]) break; EVP_EncryptUpdate(x, ks, &l, y, 16); }
                CHECK(c[i] == (m[i] ^ ks[i % 16]), "counter sequence at byte %zu, key %s, counter block %s", i, hex(k, 16), hex(y, 16));
            }
            (void) z; EVP_CIPHER_CTX_free(x);
        }
        if (n) {
            WBCRYPTO_wbaes_wbgcm_ee_setiv(g, iv, ivn);
            WBCRYPTO_wbgcm_ee_context keep = *g; u8 *sm = malloc(1);
            CHECK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(g, m, n, sm, rnd(n)) != 1, "encrypt accepted a too small buffer");
            CHECK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(g, m, n, sm, rnd(n)) != 1, "decrypt accepted a too small buffer");
            CHECK(!memcmp(&keep, g, sizeof keep), "context changed by a rejected call");
            free(sm);
        }
        snprintf(h_desc, sizeof h_desc, "key %s length %zu aad %zu iv %zu", hex(k, 16), n, an, ivn); h_distinct++;
        free(m); free(a); free(iv); free(c); free(w); free(d);
    }
    WBCRYPTO_wbaes_wbgcm_ee_free(g);
    return 0;
}
