#include "h.h"
#include <openssl/evp.h>
#include <wbcrypto/sm4.h>
static void ref(const u8 *k, const u8 *x, u8 *y, int enc) {
    static EVP_CIPHER_CTX *c; int n;
    if (!c) c = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(c, EVP_sm4_ecb(), 0, k, 0, enc);
    EVP_CIPHER_CTX_set_padding(c, 0);
    EVP_CipherUpdate(c, y, &n, x, 16);
}
static int h_case(void) {
    size_t kl = rnd(3) ? 16 : rnd(40);
    u8 *key = gbuf(kl), *in = gbuf(16), *out = gbuf(16), pk[16], e[16], keep[16];
    for (size_t i = 0; i < 16; i++) pk[i] = i < kl ? key[i] : (u8)(16 - kl);
    memcpy(keep, in, 16);
    WBCRYPTO_sm4_context *c = WBCRYPTO_sm4_context_init(), c2;
    CHECK(c, "context_init failed");
    CHECK(WBCRYPTO_sm4_init_key(c, key, kl) == 1, "init_key failed keylen=%zu", kl);
    c2 = *c;
    ref(pk, in, e, 1);
    CHECK(WBCRYPTO_sm4_encrypt(in, out, c) == 1, "encrypt failed");
    CHECK(!memcmp(out, e, 16), "encrypt key=%s (len %zu) in=%s got=%s want=%s", hex(key, kl), kl, hex(in, 16), hex(out, 16), hex(e, 16));
    CHECK(!memcmp(keep, in, 16), "input modified");
    u8 *b = gbuf(16);
    CHECK(WBCRYPTO_sm4_decrypt(out, b, c) == 1, "decrypt failed");
    CHECK(!memcmp(b, in, 16), "decrypt(encrypt(x)) != x key=%s in=%s", hex(key, kl), hex(in, 16));
    memcpy(b, in, 16);
    WBCRYPTO_sm4_encrypt(b, b, c);
    CHECK(!memcmp(b, e, 16), "in-place encrypt differs");
    WBCRYPTO_sm4_decrypt(b, b, c);
    CHECK(!memcmp(b, in, 16), "in-place decrypt differs");
    ref(pk, in, e, 0);
    WBCRYPTO_sm4_decrypt(in, b, c);
    CHECK(!memcmp(b, e, 16), "decrypt is not the standard inverse");
    CHECK(!memcmp(c, &c2, sizeof c2), "context modified by use");
    CHECK(aux_sm4_init_key(&c2, key, kl, WBCRYPTO_DECRYPT_MODE) == 1, "aux init failed");
    WBCRYPTO_sm4_encrypt(in, b, &c2);
    CHECK(!memcmp(b, e, 16), "encryption with the decryption key schedule is not the inverse cipher");
    snprintf(h_desc, sizeof h_desc, "keylen=%zu key=%s in=%s", kl, hex(key, kl), hex(in, 16));
    h_distinct++;
    free(key); free(in); free(out); free(b); free(c);
    return 0;
}
