#include "h.h"
#include <wbcrypto/fpe_app.h>
/* reference: the application result is FF1/FF3 of the starred symbols under the right family, kept symbols as tweak */
static const char *fams[] = {"sm4", "aes", "wbsm4", "wbaes", "zz"}, *ffx[] = {"ff1", "ff3", "yy"};
static int h_case(void) {
    static WBCRYPTO_fpe_app_context A[5]; static u8 K[5][16]; static int have[5];
    int f = rnd(12) ? (int) rnd(2) : (int) rnd(5), x = (int) rnd(3), kind = (int) rnd(3);
    WBCRYPTO_fpe_app_context c, fresh;
    size_t kl = rnd(3) ? 16 : rnd(30);
    u8 *key = gbuf(kl), k16[16] = {0};
    memcpy(k16, key, kl > 16 ? 16 : kl);
    if (f == 2 || f == 3) {
        if (!have[f]) { have[f] = 1; rbytes(K[f], 16); CHECK(WBCRYPTO_fpe_app_init(&A[f], K[f], 16, (char *) fams[f], "ff1") == 1, "app_init"); }
        c = A[f];
        memcpy(k16, K[f], 16);
    } else CHECK(WBCRYPTO_fpe_app_init(&c, key, kl, (char *) fams[f], (char *) ffx[x]) == 1, "app_init");
    c.ffx = (char *) ffx[x];
    if (f == 0) { WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, k16, 16); fresh.cipher_ctx = s; }
    if (f == 1 || f == 4) { WBCRYPTO_aes_context *s = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(s, k16, 16); fresh.cipher_ctx = s; }
    if (f == 2) { WBCRYPTO_sm4_context *s = WBCRYPTO_sm4_context_init(); WBCRYPTO_sm4_init_key(s, k16, 16); fresh.cipher_ctx = s; }
    if (f == 3) { WBCRYPTO_aes_context *s = WBCRYPTO_aes_context_init(); WBCRYPTO_aes_init_key(s, k16, 16); fresh.cipher_ctx = s; }
    char in[200], out[200], back[200], sample[200], dig[400], res[400];
    int n = kind == 0 ? (rnd(2) ? 11 : 5 + (int) rnd(20)) : kind == 1 ? (rnd(2) ? 18 : 15) : 1 + (int) rnd(12);
    int star[64], nstar = 0, smp = (int) rnd(3), w = kind == 2 ? 3 : 1, tail = 0;
    memset(in, 0, sizeof in); memset(out, 0, sizeof out); memset(back, 0, sizeof back); memset(sample, 0, sizeof sample);
    for (int i = 0; i < n; i++) {
        if (kind < 2) in[i] = (char) ('0' + rnd(10));
        else { unsigned u = 0x4e00 + (unsigned) (rnd(10) ? rnd(20736) : rnd(2) ? rnd(3) : 20735 - rnd(3)); in[3 * i] = (char) (0xe0 | u >> 12); in[3 * i + 1] = (char) (0x80 | (u >> 6 & 63)); in[3 * i + 2] = (char) (0x80 | (u & 63)); }
        star[i] = smp == 0 || rnd(3);
    }
    if (kind == 1 && rnd(3) == 0) { in[n - 1] = 'X'; tail = 1; }
    int m = n - tail;
    for (int i = 0; i < m; i++) nstar += star[i];
    if (kind < 2 && nstar < 2) { star[0] = star[1] = 1; nstar = 0; for (int i = 0; i < m; i++) nstar += star[i]; }
    if (kind == 2 && nstar < 1) { star[0] = 1; nstar = 1; }
    if (smp) {
        char *p = sample;
        for (int i = 0; i < n; i++) { if (star[i]) *p++ = '*'; else if (kind < 2) *p++ = smp == 1 ? in[i] : '#'; else { memcpy(p, in + 3 * i, 3); p += 3; } }
    }
    /* expected: digits of the starred positions and the tweak of the kept ones */
    char tw[400]; int nd = 0, nt = 0;
    for (int i = 0; i < m; i++) {
        if (kind < 2) { if (star[i]) dig[nd++] = in[i]; else tw[nt++] = in[i]; }
        else {
            unsigned u = ((in[3 * i] & 15u) << 12 | (in[3 * i + 1] & 63u) << 6 | (in[3 * i + 2] & 63u)) - 0x4e00;
            for (int k = 0; k < 4; k++, u /= 12) { char ch = "0123456789ab"[u % 12]; if (star[i]) dig[nd++] = ch; else tw[nt++] = ch; }
        }
    }
    dig[nd] = 0; tw[nt++] = 0;
    size_t ol = (size_t) (n * w);
    char *gin = malloc(ol + 1), *gout = malloc(ol + 1), *gback = malloc(ol + 1), *gs = malloc(strlen(sample) + 1);
    memcpy(gin, in, ol + 1); memset(gout, 0, ol + 1); memset(gback, 0, ol + 1); strcpy(gs, sample);
    int r;
#define CALL(D, a, b) (kind == 0 ? (smp ? WBCRYPTO_fpe_##D##_phone_with_sample(&c, a, b, gs) : WBCRYPTO_fpe_##D##_phone(&c, a, b)) \
    : kind == 1 ? (smp ? WBCRYPTO_fpe_##D##_idcard_with_sample(&c, a, b, gs) : WBCRYPTO_fpe_##D##_idcard(&c, a, b)) \
    : (smp ? WBCRYPTO_fpe_##D##_cn_utf8_with_sample(&c, a, b, gs) : WBCRYPTO_fpe_##D##_cn_utf8(&c, a, b)))
    r = CALL(encrypt, gin, gout);
    CHECK(r == 1, "kind %d encrypt returned %d for %s sample %s", kind, r, in, sample);
    CHECK(!memcmp(gin, in, ol + 1), "input modified");
    CHECK(strlen(gout) == ol, "kind %d: output length %zu for %zu (%s)", kind, strlen(gout), ol, in);
    r = CALL(decrypt, gout, gback);
    CHECK(r == 1, "kind %d decrypt returned %d", kind, r);
    CHECK(!strcmp(gback, in), "kind %d family %s %s: %s -> %s -> %s (sample %s)", kind, fams[f], ffx[x], in, gout, gback, sample);
    int nd2 = 0; char got[400];
    for (int i = 0; i < n; i++) {
        if (tail && i == n - 1) { CHECK(gout[i] == 'X', "X not kept"); continue; }
        if (!star[i]) { CHECK(!memcmp(gout + i * w, in + i * w, (size_t) w), "kind %d: position %d not preserved: %s -> %s sample %s", kind, i, in, gout, sample); continue; }
        if (kind < 2) { CHECK(gout[i] >= '0' && gout[i] <= '9', "kind %d: position %d is no digit", kind, i); got[nd2++] = gout[i]; }
        else {
            CHECK((gout[3 * i] & 0xf0) == 0xe0 && (gout[3 * i + 1] & 0xc0) == 0x80 && (gout[3 * i + 2] & 0xc0) == 0x80, "character %d is no three-byte character", i);
            unsigned u = ((gout[3 * i] & 15u) << 12 | (gout[3 * i + 1] & 63u) << 6 | (gout[3 * i + 2] & 63u));
            CHECK(u >= 0x4e00 && u < 0x4e00 + 20736, "character %d out of range: %x", i, u);
            u -= 0x4e00;
            for (int k = 0; k < 4; k++, u /= 12) got[nd2++] = "0123456789ab"[u % 12];
        }
    }
    got[nd2] = 0;
    WBCRYPTO_fpe_context *fc = f == 0 || f == 2 ? WBCRYPTO_sm4_fpe_init(fresh.cipher_ctx, tw, (size_t) nt, kind == 2 ? 12 : 10) : WBCRYPTO_aes_fpe_init(fresh.cipher_ctx, tw, (size_t) nt, kind == 2 ? 12 : 10);
    memset(res, 0, sizeof res);
    r = x == 0 ? WBCRYPTO_ff1_encrypt(fc, dig, res) : WBCRYPTO_ff3_encrypt(fc, dig, res);
    CHECK(r == 1 && !strcmp(res, got), "kind %d: not %s/%s of the starred symbols: %s, want %s", kind, fams[f], ffx[x], got, res);
    WBCRYPTO_fpe_free(fc);
    /* the result does not depend on the heap or earlier calls */
    memset(gback, 0, ol + 1);
    CALL(encrypt, gin, gback);
    CHECK(!strcmp(gback, gout), "encryption is not deterministic");
    if (kind == 2 && ol > 3) { gin[0] = (char) 0xe2; r = CALL(encrypt, gin, gback); CHECK(r != 1, "unsupported character accepted"); }
    free(gin); free(gout); free(gback); free(gs); free(key); free(fresh.cipher_ctx);
    if (f != 2 && f != 3) free(c.cipher_ctx);
    snprintf(h_desc, sizeof h_desc, "kind %d %s/%s %s sample %s", kind, fams[f], ffx[x], in, sample);
    h_distinct++;
    return 0;
}
