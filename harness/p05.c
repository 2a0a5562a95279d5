#include "h.h"
#include <wbcrypto/modes.h>
static u8 Hk[16]; static int okv; static const void *gk;
static int blk(const unsigned char in[16], unsigned char out[16], const void *key) {
    int z = 1; for (int i = 0; i < 16; i++) z &= in[i] == 0;
    gk = key;
    for (int i = 0; i < 16; i++) out[i] = z ? Hk[i] : (u8)~Hk[i];
    return okv;
}
static void mul(const u8 *x, const u8 *y, u8 *z) {
    u8 v[16], r[16] = {0}; memcpy(v, y, 16);
    for (int i = 0; i < 128; i++) {
        if (x[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; j++) r[j] ^= v[j];
        int l = v[15] & 1;
        for (int j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7;
        v[0] >>= 1; if (l) v[0] ^= 0xe1;
    }
    memcpy(z, r, 16);
}
static int h_case(void) {
    rbytes(Hk, 16); int dummy; okv = 1; gk = 0;
    WBCRYPTO_gcm_context *c = WBCRYPTO_gcm_init(&dummy, blk), keep;
    CHECK(c && gk == &dummy && c->key == &dummy && c->block == blk, "init");
    CHECK(c->len == 0 && c->add_len == 0, "lengths not zero");
    for (int t = 0; t < 4; t++) {
        u8 *x = gbuf(16), *o = gbuf(16), w[16], kx[16];
        if (t == 1) { memset(x, 0, 16); int b = rnd(128); x[b / 8] |= 0x80 >> b % 8; }
        memcpy(kx, x, 16); keep = *c;
        mul(x, Hk, w);
        gcm_mult(c, x, o);
        CHECK(!memcmp(o, w, 16), "H=%s X=%s got %s want %s", hex(Hk, 16), hex(x, 16), hex(o, 16), hex(w, 16));
        CHECK(!memcmp(x, kx, 16) && !memcmp(&keep, c, sizeof keep), "input or context modified");
        gcm_mult(c, x, x);
        CHECK(!memcmp(x, w, 16), "in place: H=%s X=%s", hex(Hk, 16), hex(kx, 16));
        memcpy(c->buf, kx, 16); keep = *c; memcpy(keep.buf, w, 16);
        gcm_mult(c, c->buf, c->buf);
        CHECK(!memcmp(&keep, c, sizeof keep), "context buffer: H=%s X=%s", hex(Hk, 16), hex(kx, 16));
        free(x); free(o);
    }
    okv = 0;
    CHECK(WBCRYPTO_gcm_init(&dummy, blk) == NULL, "failing cipher not reported");
    free(c);
    snprintf(h_desc, sizeof h_desc, "H=%s", hex(Hk, 16)); h_distinct++;
    return 0;
}
