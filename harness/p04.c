#include "h.h"
#include <wbcrypto/modes.h>
#include <openssl/aes.h>
#include <openssl/evp.h>
/* cipher: real AES (oracle: OpenSSL GCM), or an arbitrary function (oracle: SP 800-38D written out below) */
static long calls, fail_at; static AES_KEY ak; static const void *wantkey; static int badkey;
static void raw(const u8 *in, u8 *out) { AES_encrypt(in, out, &ak); }
static int blk(const unsigned char in[16], unsigned char out[16], const void *key) {
    u8 t[16]; raw(in, t); memcpy(out, t, 16);
    if (key != wantkey) __sync_fetch_and_or(&badkey, 1);
    return __sync_fetch_and_add(&calls, 1) == fail_at ? 0 : 1;
}
#include "gcmref.h"
/* preimage of a chosen counter block: pick an IV of 16 bytes so that J0 has a chosen low word (forces carries) */
static int h_case(void) {
    u8 k[16], tag[16], t2[16]; rbytes(k, 16); AES_set_encrypt_key(k, 128, &ak); fail_at = -1; badkey = 0;
    int keyobj; wantkey = &keyobj;
    size_t n = rnd(40) == 0 ? 16 * (250 + rnd(800)) : h_len(2000), an = h_len(300), ivn = rnd(3) ? 12 : rnd(3) ? 1 + rnd(70) : h_len(600);
    u8 *m = gbuf(n), *a = gbuf(an), *iv = gbuf(ivn), *c = gbuf(n), *w = malloc(n + 1), *d = gbuf(n);
    ref(iv, ivn, a, an, m, n, w, tag);
    if (ivn) {
        static EVP_CIPHER_CTX *x; int l; u8 t3[16], *o = malloc(n + 16);
        if (!x) x = EVP_CIPHER_CTX_new();
        EVP_EncryptInit_ex(x, EVP_aes_128_gcm(), 0, 0, 0);
        if (EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, ivn, 0) == 1 && EVP_EncryptInit_ex(x, 0, 0, k, iv) == 1) {
            if (an) EVP_EncryptUpdate(x, 0, &l, a, an);
            if (n) EVP_EncryptUpdate(x, o, &l, m, n);
            EVP_EncryptFinal_ex(x, o + n, &l); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, t3);
            CHECK(!memcmp(t3, tag, 16) && !memcmp(o, w, n), "harness oracle disagrees with OpenSSL");
        }
        free(o);
    }
    calls = 0;
    WBCRYPTO_gcm_context *g = WBCRYPTO_gcm_init(&keyobj, blk);
    CHECK(g, "init");
    if (rnd(2)) { /* dirty context: an unfinished earlier message */
        u8 z[33], zo[33]; rbytes(z, 33); WBCRYPTO_gcm_setiv(g, z, 16); WBCRYPTO_gcm_aad(g, z, 5 + rnd(20)); WBCRYPTO_gcm_encrypt(g, z, 33, zo, 33);
    }
    for (int dec = 0; dec < 2; dec++) for (int ip = 0; ip < 2; ip++) {
        const u8 *src = dec ? w : m, *want = dec ? m : w;
        u8 *buf = gbuf(n), *o = ip ? buf : (dec ? d : c); memcpy(buf, src, n);
        CHECK(WBCRYPTO_gcm_setiv(g, iv, ivn) == 1, "setiv(%zu)", ivn);
        if (an || rnd(2)) CHECK(WBCRYPTO_gcm_aad(g, a, an) == 1, "aad");
        size_t pos = 0;
        while (pos < n || n == 0) {
            size_t l = n - pos; if (l > 16 && rnd(2)) l = 16 * (1 + rnd(l / 16));
            size_t cap = n - pos;
            int r = dec ? WBCRYPTO_gcm_decrypt(g, buf + pos, l, o + pos, cap) : WBCRYPTO_gcm_encrypt(g, buf + pos, l, o + pos, cap);
            CHECK(r == 1, "%s returned %d", dec ? "decrypt" : "encrypt", r);
            pos += l; if (n == 0) break;
        }
        size_t tl = rnd(3) ? 16 : rnd(17); u8 *tg = gbuf(tl);
        CHECK(WBCRYPTO_gcm_finish(g, tg, tl) == 1, "finish");
        CHECK(!memcmp(o, want, n), "%s output differs: length %zu ivlen %zu inplace %d", dec ? "decrypt" : "encrypt", n, ivn, ip);
        CHECK(!memcmp(tg, tag, tl), "%s tag differs: length %zu aad %zu ivlen %zu inplace %d tag length %zu", dec ? "decrypt" : "encrypt", n, an, ivn, ip, tl);
        if (!ip) CHECK(!memcmp(buf, src, n), "input modified");
        free(buf); free(tg);
    }
    CHECK(!badkey, "cipher called with another key");
    /* counter wrap and long running lengths, from a chosen context state */
    {
        WBCRYPTO_gcm_setiv(g, iv, ivn);
        memset(g->y + 12 + rnd(4), 0xff, 4 - 0 > 4 ? 4 : 1); if (rnd(2)) memset(g->y + 12, 0xff, 4);
        if (rnd(2)) { g->len = h_next() >> (4 + rnd(40)); g->add_len = h_next() >> (4 + rnd(40)); }
        g->len &= ~15ULL;
        u8 y[16], s[16], ks[16], b[16], e0[16]; memcpy(y, g->y, 16); memcpy(s, g->buf, 16); memcpy(e0, g->base_ectr, 16);
        uint64_t L = g->len, A = g->add_len;
        CHECK(WBCRYPTO_gcm_encrypt(g, m, n, c, n) == 1, "encrypt");
        for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { inc(y); raw(y, ks); } CHECK(c[i] == (m[i] ^ ks[i % 16]), "counter sequence at byte %zu (start %s)", i, hex(y, 16)); }
        memset(Hk, 0, 16); raw(Hk, Hk);
        gh(s, c, n); lens(s, A, L + n);
        CHECK(g->len == L + n && g->add_len == A, "lengths in the context");
        CHECK(WBCRYPTO_gcm_finish(g, b, 16) == 1, "finish");
        if (L + n || A) for (int i = 0; i < 16; i++) CHECK(b[i] == (s[i] ^ e0[i]), "tag for len=%llu add_len=%llu", (unsigned long long)(L + n), (unsigned long long)A);
    }
    if (n) {
        WBCRYPTO_gcm_setiv(g, iv, ivn);
        WBCRYPTO_gcm_context keep = *g; u8 *sm = malloc(1);
        CHECK(WBCRYPTO_gcm_encrypt(g, m, n, sm, rnd(n)) == 0, "encrypt accepted a too small buffer");
        CHECK(WBCRYPTO_gcm_decrypt(g, m, n, sm, rnd(n)) == 0, "decrypt accepted a too small buffer");
        CHECK(!memcmp(&keep, g, sizeof keep), "context changed by a rejected call");
        free(sm);
        calls = 0; fail_at = rnd((n + 15) / 16);
        CHECK(WBCRYPTO_gcm_encrypt(g, m, n, c, n) != 1, "failure of cipher call %ld not reported by encrypt", fail_at);
        calls = 0;
        CHECK(WBCRYPTO_gcm_decrypt(g, m, n, c, n) != 1, "failure of cipher call %ld not reported by decrypt", fail_at);
    }
    calls = fail_at = 0;
    CHECK(WBCRYPTO_gcm_setiv(g, iv, ivn) != 1, "failure of the cipher not reported by setiv");
    snprintf(h_desc, sizeof h_desc, "length %zu aad %zu ivlen %zu", n, an, ivn); h_distinct++;
    free(m); free(a); free(iv); free(c); free(w); free(d); free(g);
    return 0;
}
