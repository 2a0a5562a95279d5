#include "h.h"
#include <openssl/evp.h>
#include <wbcrypto/wbaes.h>
unsigned int __wrap_cus_random(void) { return (unsigned) h_next(); }
static int h_case(void) {
    u8 k[16], in[16], out[16], want[16];
    static WBCRYPTO_wbaes_context *c;
    rbytes(k, 16);
    if (c) free(c);
    c = WBCRYPTO_wbaes_context_init();
    CHECK(c, "no context");
    CHECK(WBCRYPTO_wbaes_gen_table(c, k, 16) == 1, "gen_table failed");
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l;
    EVP_EncryptInit_ex(x, EVP_aes_128_ecb(), 0, k, 0); EVP_CIPHER_CTX_set_padding(x, 0);
    for (int i = 0; i < 4000; i++) {
        rbytes(in, 16);
        if (i < 256) in[i % 16] = (u8) i;
        EVP_EncryptUpdate(x, want, &l, in, 16);
        int r = WBCRYPTO_wbaes_encrypt(in, out, c);
        CHECK(r == 1 && !memcmp(out, want, 16), "key %s block %s gives %s want %s", hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
        memcpy(out, in, 16); WBCRYPTO_wbaes_encrypt(out, out, c);
        CHECK(!memcmp(out, want, 16), "in place: key %s block %s gives %s want %s", hex(k, 16), hex(in, 16), hex(out, 16), hex(want, 16));
    }
    EVP_CIPHER_CTX_free(x);
    snprintf(h_desc, sizeof h_desc, "key %s", hex(k, 16)); h_distinct++;
    return 0;
}
