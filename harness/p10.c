#include "h.h"
#include <wbcrypto/wbaes_wbgcm_mask.h>
unsigned int __wrap_cus_random(void) { return (unsigned) h_next(); }
static WBCRYPTO_wbaes_wbgcm_mask_context *fresh(void) {
    WBCRYPTO_wbaes_wbgcm_mask_context *k = WBCRYPTO_wbaes_wbgcm_mask_init_table();
    return k;
}
static void drop(WBCRYPTO_wbaes_wbgcm_mask_context *k) {
    for (int i = 0; i < 16; i++) { for (int j = 0; j < 256; j++) free(k->GBOX_TypeIII[i][j]); free(k->GBOX_TypeIII[i]); }
    free(k->GBOX_TypeIII); free(k);
}
static int h_case(void) {
    u8 k[16];
    rbytes(k, 16);
    WBCRYPTO_wbaes_wbgcm_mask_context *ek = fresh(), *dk = fresh();
    CHECK(ek && dk, "no context");
    WBCRYPTO_wbaes_wbgcm_mask_gen_table(ek, dk, k, 16);
    WBCRYPTO_wbgcm_mask_context *e = WBCRYPTO_wbaes_wbgcm_mask_init(ek), *g = WBCRYPTO_wbaes_wbgcm_mask_init(dk);
    CHECK(e && g, "init");
    for (int t = 0; t < 80; t++) {
        size_t n = rnd(20) == 0 ? 16 * (250 + rnd(400)) : t < 34 ? t : h_len(1500), an = t < 20 ? 19 - t : h_len(300), ivn = rnd(3) ? 12 : h_len(300);
        u8 *m = gbuf(n), *a = gbuf(an), *iv = gbuf(ivn), *c = gbuf(n), *d = gbuf(n), *c2 = gbuf(n);
        u8 te[16], td[16], t2[16];
        for (int side = 0; side < 2; side++) if (rnd(3) == 0) { /* dirty context: an unfinished earlier message */
            u8 z[33], zo[33]; rbytes(z, 33); WBCRYPTO_wbgcm_mask_context *x = side ? g : e;
            WBCRYPTO_wbaes_wbgcm_mask_setiv(x, z, 16); WBCRYPTO_wbaes_wbgcm_mask_aad(x, z, 5 + rnd(20)); WBCRYPTO_wbaes_wbgcm_mask_encrypt(x, z, 33, zo, 33);
        }
        int wrap = rnd(4) == 0, noad = an == 0 && rnd(2), ip = rnd(2);
        u8 ctr[4] = {0xff, 0xff, rnd(2) ? 0xff : 0xfe, 0xff - rnd(4)};
        CHECK(WBCRYPTO_wbaes_wbgcm_mask_setiv(e, iv, ivn) == 1 && WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv, ivn) == 1, "setiv(%zu)", ivn);
        if (wrap) memcpy(e->y + 12, ctr, 4), memcpy(g->y + 12, ctr, 4);
        if (!noad) CHECK(WBCRYPTO_wbaes_wbgcm_mask_aad(e, a, an) == 1 && WBCRYPTO_wbaes_wbgcm_mask_aad(g, a, an) == 1, "aad");
        if (ip) memcpy(c, m, n);
        for (size_t pos = 0; pos < n || n == 0;) {
            size_t l = n - pos; if (l > 16 && rnd(2)) l = 16 * (1 + rnd(l / 16));
            int r = WBCRYPTO_wbaes_wbgcm_mask_encrypt(e, (ip ? c : m) + pos, l, c + pos, n - pos);
            CHECK(r == 1, "encrypt returned %d", r);
            pos += l; if (n == 0) break;
        }
        memcpy(c2, c, n); if (ip) memcpy(d, c, n);
        for (size_t pos = 0; pos < n || n == 0;) {
            size_t l = n - pos; if (l > 16 && rnd(2)) l = 16 * (1 + rnd(l / 16));
            int r = WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, (ip ? d : c) + pos, l, d + pos, n - pos);
            CHECK(r == 1, "decrypt returned %d", r);
            pos += l; if (n == 0) break;
        }
        size_t tl = rnd(3) ? 16 : rnd(17);
        CHECK(WBCRYPTO_wbaes_wbgcm_mask_finish(e, te, tl) == 1 && WBCRYPTO_wbaes_wbgcm_mask_finish(g, td, tl) == 1, "finish");
        CHECK(!memcmp(m, d, n), "decryption does not return the message: key %s length %zu aad %zu ivlen %zu inplace %d counter wrap %d", hex(k, 16), n, an, ivn, ip, wrap);
        CHECK(!memcmp(te, td, tl), "tags differ: key %s length %zu aad %zu ivlen %zu tag length %zu counter wrap %d", hex(k, 16), n, an, ivn, tl, wrap);
        CHECK(!memcmp(c, c2, n), "decryption modified its input");
        if (n && !wrap) { /* a changed ciphertext or additional data gives another tag */
            c[rnd(n)] ^= 1 << rnd(8);
            WBCRYPTO_wbaes_wbgcm_mask_setiv(g, iv, ivn); WBCRYPTO_wbaes_wbgcm_mask_aad(g, a, an); WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, c, n, d, n);
            WBCRYPTO_wbaes_wbgcm_mask_finish(g, t2, 16); WBCRYPTO_wbaes_wbgcm_mask_finish(e, te, 0);
            if (tl == 16) CHECK(memcmp(td, t2, 16), "same tag for a changed ciphertext");
            u8 *sm = malloc(1);
            CHECK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(e, m, n, sm, rnd(n)) != 1, "encrypt accepted a too small buffer");
            CHECK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(g, m, n, sm, rnd(n)) != 1, "decrypt accepted a too small buffer");
            free(sm);
        }
        snprintf(h_desc, sizeof h_desc, "key %s length %zu aad %zu iv %zu", hex(k, 16), n, an, ivn); h_distinct++;
        free(m); free(a); free(iv); free(c); free(d); free(c2);
    }
    WBCRYPTO_wbaes_wbgcm_mask_free(e); WBCRYPTO_wbaes_wbgcm_mask_free(g);
    drop(ek); drop(dk);
    return 0;
}
