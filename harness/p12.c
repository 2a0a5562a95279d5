#include "h.h"
#include <openssl/evp.h>
#include <wbcrypto/se_wbsm4.h>
static int rmode;
unsigned int __wrap_cus_random(void) { return rmode == 1 ? (unsigned) (2038 + 2039 * rnd(2)) * (rnd(40) != 0) + (rnd(4) == 0 ? (unsigned) h_next() : 0) : (unsigned) h_next(); }
static void ref(const u8 *k, const u8 *in, u8 *out, int enc) {
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
    EVP_CipherInit_ex(x, EVP_sm4_ecb(), 0, k, 0, enc); EVP_CIPHER_CTX_set_padding(x, 0);
    EVP_CipherUpdate(x, out, &l, in, 16); EVP_CIPHER_CTX_free(x);
}
static int h_case(void) {
    u8 k[16], in[16], out[16], want[16];
    rmode = rnd(3);
    rbytes(k, 16);
    for (int mode = 0; mode < 2; mode++) {
        WBCRYPTO_se_wbsm4_context *c = WBCRYPTO_se_wbsm4_context_init(mode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE);
        CHECK(c, "no context");
        CHECK(WBCRYPTO_se_wbsm4_gen_table(c, k, 16) == 1, "gen_table failed");
        for (int i = 0; i < 6; i++) {
            rbytes(in, 16); ref(k, in, want, mode);
            int r = mode || i % 2 ? WBCRYPTO_se_wbsm4_encrypt(in, out, c) : WBCRYPTO_se_wbsm4_decrypt(in, out, c);
            CHECK(r == 1 && !memcmp(out, want, 16), "%s: key %s block %s gives %s want %s", mode ? "encryption" : "decryption", hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
            memcpy(out, in, 16);
            if (mode) WBCRYPTO_se_wbsm4_encrypt(out, out, c); else WBCRYPTO_se_wbsm4_decrypt(out, out, c);
            CHECK(!memcmp(out, want, 16), "in place: key %s block %s gives %s want %s", hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
        }
        free(c);
    }
    snprintf(h_desc, sizeof h_desc, "key %s", hex(k, 16)); h_distinct++;
    return 0;
}
