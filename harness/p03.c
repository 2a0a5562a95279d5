#include "h.h"
#include <wbcrypto/modes.h>
/* an arbitrary keyed permutation as block cipher, failing at a chosen call */
static long calls, fail_at;
typedef struct { u8 k[16]; } KK;
static u8 T[256], Ti[256];
static int enc(const unsigned char in[16], unsigned char out[16], const void *key) {
    const KK *k = key; u8 t[16];
    for (int i = 0; i < 16; i++) t[i] = in[i];
    for (int r = 0; r < 3; r++) { u8 p = k->k[r]; for (int i = 0; i < 16; i++) { t[i] = T[t[i] ^ p ^ k->k[i]]; p = t[i]; } }
    for (int i = 0; i < 16; i++) out[i] = t[i];
    return calls++ == fail_at ? 0 : 1;
}
static int dec(const unsigned char in[16], unsigned char out[16], const void *key) {
    const KK *k = key; u8 t[16];
    for (int i = 0; i < 16; i++) t[i] = in[i];
    for (int r = 2; r >= 0; r--) for (int i = 15; i >= 0; i--) { u8 p = i ? t[i - 1] : k->k[r]; t[i] = Ti[t[i]] ^ p ^ k->k[i]; }
    for (int i = 0; i < 16; i++) out[i] = t[i];
    return calls++ == fail_at ? 0 : 1;
}
static int h_case(void) {
    for (int i = 0; i < 256; i++) T[i] = i;
    for (int i = 255; i > 0; i--) { int j = rnd(i + 1); u8 x = T[i]; T[i] = T[j]; T[j] = x; }
    for (int i = 0; i < 256; i++) Ti[T[i]] = i;
    KK key; rbytes(&key, 16);
    size_t n = h_len(3000), pl = (n + 15) / 16 * 16, nb = pl / 16, use = 0x5a5a5a;
    u8 *m = gbuf(n), iv[16], iv2[16], *out = gbuf(pl), *want = malloc(pl + 1), *keep = malloc(n + 1);
    rbytes(iv, 16); memcpy(iv2, iv, 16); memcpy(keep, m, n);
    u8 c[16]; memcpy(c, iv, 16); fail_at = -1; calls = 0;
    for (size_t b = 0; b < nb; b++) {
        for (int i = 0; i < 16; i++) { size_t o = 16 * b + i; c[i] ^= o < n ? m[o] : (u8)(pl - n); }
        enc(c, c, &key); memcpy(want + 16 * b, c, 16);
    }
    size_t cap = rnd(2) ? pl : pl + rnd(100);
    calls = 0;
    int r = WBCRYPTO_cbc128_encrypt(m, n, out, cap, &use, &key, iv2, enc);
    CHECK(r == 1, "encrypt of %zu bytes returned %d", n, r);
    CHECK(use == pl, "reported length %zu for %zu bytes", use, n);
    CHECK(!memcmp(out, want, pl), "ciphertext differs, %zu bytes", n);
    CHECK(!memcmp(keep, m, n), "message modified");
    u8 *d = gbuf(pl);
    memcpy(iv2, iv, 16); calls = 0;
    r = WBCRYPTO_cbc128_decrypt(out, pl, d, cap, &use, &key, iv2, dec);
    CHECK(r == 1, "decrypt returned %d", r);
    CHECK(!memcmp(d, m, n), "decryption differs, %zu bytes", n);
    for (size_t i = n; i < pl; i++) CHECK(d[i] == pl - n, "fill byte");
    CHECK(!memcmp(out, want, pl), "ciphertext modified by decryption");
    memcpy(d, out, pl); memcpy(iv2, iv, 16);
    r = WBCRYPTO_cbc128_decrypt(d, pl, d, cap, &use, &key, iv2, dec);
    CHECK(r == 1 && !memcmp(d, m, n), "in-place decryption differs, %zu bytes", n);
    if (pl) {
        memset(out, 0x77, pl); memcpy(iv2, iv, 16);
        u8 *sm = malloc(1);
        CHECK(WBCRYPTO_cbc128_encrypt(m, n, sm, rnd(pl), &use, &key, iv2, enc) == 0, "encrypt accepted a too small buffer");
        CHECK(WBCRYPTO_cbc128_decrypt(want, pl, sm, rnd(pl), &use, &key, iv2, dec) == 0, "decrypt accepted a too small buffer");
        free(sm);
        fail_at = rnd(nb);
        for (int w = 0; w < 3; w++) {
            memcpy(iv2, iv, 16); calls = 0;
            memcpy(d, want, pl);
            r = w == 0 ? WBCRYPTO_cbc128_encrypt(m, n, out, cap, &use, &key, iv2, enc)
              : w == 1 ? WBCRYPTO_cbc128_decrypt(want, pl, out, cap, &use, &key, iv2, dec)
                       : WBCRYPTO_cbc128_decrypt(d, pl, d, cap, &use, &key, iv2, dec);
            CHECK(r == 0, "failure of cipher call %ld is not reported (form %d, %zu blocks)", fail_at, w, nb);
        }
    }
    snprintf(h_desc, sizeof h_desc, "length %zu capacity %zu key %s", n, cap, hex(&key, 16));
    h_distinct++;
    free(m); free(out); free(want); free(keep); free(d);
    return 0;
}
