#include "h.h"
#include <openssl/evp.h>
#include <wbcrypto/wbsm4.h>
unsigned int __wrap_cus_random(void) { return (unsigned) h_next(); }
static void ref(const u8 *k, const u8 *in, u8 *out, int enc) {
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
    EVP_CipherInit_ex(x, EVP_sm4_ecb(), 0, k, 0, enc); EVP_CIPHER_CTX_set_padding(x, 0);
    EVP_CipherUpdate(x, out, &l, in, 16); EVP_CIPHER_CTX_free(x);
}
static void drop(WBCRYPTO_wbsm4_context *c) {
    for (int i = 0; i < c->rounds; i++) {
        for (int j = 0; j < 4; j++) {
            if (j < 3) { for (int k = 0; k < 4; k++) free(c->MM[i][j][k]); free(c->MM[i][j]); }
            free(c->CC[i][j]); free(c->DD[i][j]); free(c->Table[i][j]);
        }
        free(c->MM[i]); free(c->CC[i]); free(c->DD[i]); free(c->Table[i]);
    }
    free(c->MM); free(c->CC); free(c->DD); free(c->Table); free(c);
}
static int h_case(void) {
    u8 k[16], in[16], out[16], want[16];
    static const int ds[] = {0, 1, 2, 3, 5, 9, 32, 64};
    int d = ds[rnd(8)];
    rbytes(k, 16);
    for (int mode = 0; mode < 2; mode++) {
        WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(mode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE, d);
        CHECK(c, "no context");
        CHECK(WBCRYPTO_wbsm4_gen_table(c, k, 16) == 1, "gen_table failed");
        for (int i = 0; i < 300; i++) {
            rbytes(in, 16); ref(k, in, want, mode);
            int r = mode || i % 2 ? WBCRYPTO_wbsm4_encrypt(in, out, c) : WBCRYPTO_wbsm4_decrypt(in, out, c);
            CHECK(r == 1 && !memcmp(out, want, 16), "%s, %d dummy rounds: key %s block %s gives %s want %s", mode ? "encryption" : "decryption", d, hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
            memcpy(out, in, 16);
            if (mode) WBCRYPTO_wbsm4_encrypt(out, out, c); else WBCRYPTO_wbsm4_decrypt(out, out, c);
            CHECK(!memcmp(out, want, 16), "in place, %d dummy rounds: key %s block %s gives %s want %s", d, hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
        }
        drop(c);
    }
    snprintf(h_desc, sizeof h_desc, "%d dummy rounds, key %s", d, hex(k, 16)); h_distinct++;
    return 0;
}
