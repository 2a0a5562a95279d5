#include "h.h"
#include "fpe_ref.h"
#ifndef ALG3
#define ALG3 0
#define ENC WBCRYPTO_ff1_encrypt
#define DEC WBCRYPTO_ff1_decrypt
#define REF(x, e) ref_ff1(x, N_, R_, tw_, T_, e)
#endif
static int h_case(void) {
    pick(ALG3);
    u8 *tw = gbuf(T_); memcpy(tw, tw_, T_);
    WBCRYPTO_fpe_context *c = WBCRYPTO_fpe_init(tw, T_, R_, &ckey, blk);
    CHECK(c != NULL, "init refused radix %d", R_);
    memset(tw, 0xee, T_); free(tw);
    char *in = (char *)gbuf(N_ + 1), *out = (char *)gbuf(N_ + 1), *back = (char *)gbuf(N_ + 1), want[700], plain[700];
    to_str(D_, N_, plain); strcpy(in, plain);
    REF(E_, 1); to_str(E_, N_, want);
    CHECK(ENC(c, in, out) == 1, "encrypt failed: radix %d len %d", R_, N_);
    CHECK(!memcmp(out, want, N_ + 1), "radix %d tweaklen %d: encrypt(%s) = %s want %s", R_, T_, plain, out, want);
    CHECK(!strcmp(in, plain), "input modified");
    CHECK(DEC(c, out, back) == 1 && !memcmp(back, plain, N_ + 1), "radix %d tweaklen %d: decrypt(encrypt(%s)) = %s", R_, T_, plain, back);
    memcpy(E_, D_, sizeof D_); REF(E_, 0); to_str(E_, N_, want);
    CHECK(DEC(c, in, out) == 1 && !memcmp(out, want, N_ + 1), "radix %d tweaklen %d: decrypt(%s) = %s want %s", R_, T_, plain, out, want);
    CHECK(DEC(c, in, in) == 1 && !strcmp(in, want), "in-place decrypt(%s) = %s want %s", plain, in, want);
    CHECK(ENC(c, in, in) == 1 && !strcmp(in, plain), "in-place encrypt gives %s want %s", in, plain);
    char s1[2] = "1", o1[2] = "x";
    CHECK(ENC(c, s1, o1) == 0 && DEC(c, s1, o1) == 0 && o1[0] == 'x', "one symbol not refused");
    CHECK(WBCRYPTO_fpe_init((const uint8_t *)"", 0, 1, &ckey, blk) == NULL && WBCRYPTO_fpe_init((const uint8_t *)"", 0, 37, &ckey, blk) == NULL, "bad radix accepted");
    WBCRYPTO_fpe_free(c); free(in); free(out); free(back);
    snprintf(h_desc, sizeof h_desc, "radix %d len %d tweak %d", R_, N_, T_); h_distinct++;
    return 0;
}
