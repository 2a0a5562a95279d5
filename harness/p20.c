#include "h.h"
#include <wbcrypto/utils.h>
static int h_case(void) {
    size_t n = rnd(2) ? rnd(40) : h_len(5000);
    u8 *s = gbuf(n), *k = gbuf(16), *z = gbuf(16), *keep = malloc(n + 1);
    memcpy(keep, s, n);
    size_t m = n < 16 ? n : 16, pl = (n + 15) / 16 * 16;
    CHECK(WBCRYPTO_key_padding_pkcs7(s, n, k) == 16 && WBCRYPTO_key_padding_zeros(s, n, z) == 16, "key padding length");
    CHECK(!memcmp(k, s, m) && !memcmp(z, s, m), "key padding copy, length %zu", n);
    for (size_t i = m; i < 16; i++) CHECK(k[i] == 16 - n && z[i] == 0, "key padding fill, length %zu byte %zu: %d %d", n, i, k[i], z[i]);
    CHECK(WBCRYPTO_padding_pkcs7_merge_length(s, n) == pl, "merge_length(%zu)", n);
    u8 *d = gbuf(pl);
    CHECK(WBCRYPTO_padding_pkcs7_merge(s, n, d) == pl, "merge(%zu) length", n);
    CHECK(!memcmp(d, s, n), "merge(%zu) copy", n);
    for (size_t i = n; i < pl; i++) CHECK(d[i] == pl - n, "merge(%zu) fill byte %zu = %d", n, i, d[i]);
    /* aligned messages ending in 1..16 are the known finding */
    if (n != pl || n == 0 || s[n - 1] == 0 || s[n - 1] > 16) {
        CHECK(WBCRYPTO_padding_pkcs7_separate_length(d, pl) == n, "separate_length: %zu for message length %zu", WBCRYPTO_padding_pkcs7_separate_length(d, pl), n);
        u8 *b = gbuf(n);
        CHECK(WBCRYPTO_padding_pkcs7_separate(d, pl, b) == n, "separate length");
        CHECK(!memcmp(b, s, n), "separate(merge) differs, length %zu", n);
        free(b);
    }
    /* a whole block of padding, as other implementations append to aligned messages */
    u8 *f = gbuf(pl + 16); memcpy(f, d, pl); memset(f + pl, 16, 16);
    CHECK(WBCRYPTO_padding_pkcs7_separate_length(f, pl + 16) == pl, "separate_length: %zu for %zu bytes followed by a block of padding", WBCRYPTO_padding_pkcs7_separate_length(f, pl + 16), pl);
    free(f);
    CHECK(!memcmp(keep, s, n), "source modified");
    snprintf(h_desc, sizeof h_desc, "length %zu", n);
    h_distinct++;
    free(s); free(k); free(z); free(keep); free(d);
    return 0;
}
