#include "h.h"
#include <wbcrypto/sm3.h>
#include <openssl/evp.h>
static int h_case(void) {
    size_t n = rnd(3) ? rnd(300) : h_len(6000);
    u8 *m = gbuf(n), d[32], w[32], *e = gbuf(32); unsigned l;
    EVP_Digest(m, n, w, &l, EVP_sm3(), 0);
    CHECK(WBCRYPTO_sm3(m, n, e) == 1 && !memcmp(e, w, 32), "one-shot length %zu: %s want %s", n, hex(e, 32), hex(w, 32));
    WBCRYPTO_sm3_context *c = malloc(sizeof *c);
    memset(c, 0xa5, sizeof *c);
    CHECK(WBCRYPTO_sm3_init(c) == 1, "init");
    size_t o = 0; int k = 0;
    if (rnd(8) == 0) {    /* a long history: start from a large bit count, both sides adjusted */
        static const uint64_t B[] = {0xfffffff8u, 0xfffffe00u, 0xffffffffffffff00ULL & ~511ULL, 0x100000000ULL, 0x1fffffe00ULL};
        uint64_t b = B[rnd(5)] & ~511ULL;
        c->Nl = (unsigned) b; c->Nh = (unsigned) (b >> 32);
        uint64_t tot = b + 8 * (uint64_t) n;
        for (; o < n || k == 0; k++) { size_t p = rnd(130); if (p > n - o) p = n - o; u8 *q = gbuf(p); memcpy(q, m + o, p); CHECK(WBCRYPTO_sm3_update(c, q, p) == 1, "update"); free(q); o += p; }
        CHECK(((uint64_t) c->Nh << 32 | c->Nl) == tot, "bit count %08x%08x want %016llx", c->Nh, c->Nl, (unsigned long long) tot);
    } else {
        while (o < n || rnd(3)) {
            static const size_t P[] = {0, 1, 63, 64, 65, 128, 55, 56, 57, 8, 127, 192};
            size_t p = rnd(2) ? P[rnd(12)] : rnd(200); if (p > n - o) p = n - o;
            u8 *q = gbuf(p); memcpy(q, m + o, p);
            CHECK(WBCRYPTO_sm3_update(c, q, p) == 1, "update"); free(q); o += p; k++;
        }
        CHECK(WBCRYPTO_sm3_final(c, d) == 1 && !memcmp(d, w, 32), "length %zu in %d pieces: %s want %s", n, k, hex(d, 32), hex(w, 32));
    }
    snprintf(h_desc, sizeof h_desc, "length %zu in %d pieces", n, k);
    h_distinct += k > 1;
    free(m); free(e); free(c);
    return 0;
}
