#include "h.h"
#include "fpe_ref.h"
typedef int (*f_t)(WBCRYPTO_fpe_mac_context *, const char *, char *);
typedef int (*g_t)(WBCRYPTO_fpe_mac_context *, char *, size_t *);
static int h_case(void) {
    int a3 = rnd(2);
    f_t enc = a3 ? WBCRYPTO_ff3_gmac_encrypt : WBCRYPTO_ff1_cmac_encrypt, dec = a3 ? WBCRYPTO_ff3_gmac_decrypt : WBCRYPTO_ff1_cmac_decrypt;
    g_t fin = a3 ? WBCRYPTO_ff3_gmac_finish : WBCRYPTO_ff1_cmac_finish;
    pick(a3);
    WBCRYPTO_fpe_mac_context *c = WBCRYPTO_fpe_mac_init(tw_, T_, R_, &ckey, blk), *d = WBCRYPTO_fpe_mac_init(tw_, T_, R_, &ckey, blk);
    WBCRYPTO_fpe_context *p = WBCRYPTO_fpe_init(tw_, T_, R_, &ckey, blk);
    CHECK(c && d && p, "init");
    char *in = (char *)gbuf(N_ + 1), *out = (char *)gbuf(N_ + 1), *back = (char *)gbuf(N_ + 1), want[700], plain[700];
    char *t1 = (char *)gbuf(16), *t2 = (char *)gbuf(16), *t3 = (char *)gbuf(16); size_t l = 0;
    to_str(D_, N_, plain); strcpy(in, plain);
    if (a3) ref_ff3(E_, N_, R_, twp, 1); else ref_ff1(E_, N_, R_, tw_, T_, 1);
    to_str(E_, N_, want);
    CHECK(enc(c, in, out) == 1 && !memcmp(out, want, N_ + 1), "%s radix %d tweaklen %d: encrypt(%s) = %s want %s", a3 ? "FF3-GMAC" : "FF1-CMAC", R_, T_, plain, out, want);
    CHECK(fin(c, t1, &l) == 1 && l == 16, "finish");
    if (a3) CHECK(WBCRYPTO_ff3_encrypt(p, in, back) == 1 && !strcmp(back, out), "differs from FF3"); else CHECK(WBCRYPTO_ff1_encrypt(p, in, back) == 1 && !strcmp(back, out), "differs from FF1");
    CHECK(dec(d, out, back) == 1 && !memcmp(back, plain, N_ + 1), "%s radix %d tweaklen %d: decrypt(encrypt(%s)) = %s", a3 ? "FF3-GMAC" : "FF1-CMAC", R_, T_, plain, back);
    CHECK(fin(d, t2, &l) == 1 && !memcmp(t1, t2, 16), "%s radix %d len %d tweaklen %d: tags differ: %s after encryption, %s after decryption of %s", a3 ? "FF3-GMAC" : "FF1-CMAC", R_, N_, T_, hex(t1, 16), hex(t2, 16), plain);
    CHECK(enc(d, in, in) == 1 && !strcmp(in, want) && fin(d, t3, &l) == 1 && !memcmp(t1, t3, 16), "%s radix %d len %d: tag of a reused context or in-place result differs", a3 ? "FF3-GMAC" : "FF1-CMAC", R_, N_);
    WBCRYPTO_fpe_mac_free(c); WBCRYPTO_fpe_mac_free(d); WBCRYPTO_fpe_free(p); free(in); free(out); free(back); free(t1); free(t2); free(t3);
    snprintf(h_desc, sizeof h_desc, "%d radix %d len %d tweak %d", a3, R_, N_, T_); h_distinct++;
    return 0;
}
