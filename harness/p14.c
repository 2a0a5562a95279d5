#include "h.h"
#include <wbcrypto/utils.h>
#include <WBMatrix/WBMatrix.h>
static int style;
static unsigned rv(void) {
    switch (style) {
    case 0: return (unsigned)rnd(0x7fffffff) * 2u + rnd(2);
    case 1: return 0xffffffffu;
    case 2: return 0;
    case 3: return rnd(2) ? 0xffffffffu : 0;
    case 4: return 0x80000000u + rnd(300);
    default: return rnd(300);
    }
}
unsigned int __wrap_cus_random(void) { return rv(); }
int __wrap_rand(void) { return rv() & 0x7fffffff; }
static int h_case(void) {
    style = rnd(7);
    u8 *p = gbuf(16), *q = gbuf(16);
    genPermutation4(p, q);
    int seen[256] = {0};
    for (int i = 0; i < 16; i++) { CHECK(p[i] < 16 && !seen[p[i]]++, "genPermutation4: entry %d = %d repeated or out of range (style %d): %s", i, p[i], style, hex(p, 16)); CHECK(q[p[i]] == i, "genPermutation4: inverse[perm[%d]] = %d", i, q[p[i]]); }
    free(p); free(q);
    p = gbuf(256); q = gbuf(256); memset(seen, 0, sizeof seen);
    genPermutation8(p, q);
    for (int i = 0; i < 256; i++) { CHECK(!seen[p[i]]++, "genPermutation8: entry %d = %d repeated (style %d)", i, p[i], style); CHECK(q[p[i]] == i, "genPermutation8: inverse[perm[%d]] = %d", i, q[p[i]]); }
    free(p); free(q);
    int n = rnd(4) ? rnd(50) : rnd(400), cnt[256] = {0};
    p = gbuf(n);
    for (int i = 0; i < n; i++) cnt[p[i]]++;
    CHECK(wRandomShuffleU8(p, n) == 0, "wRandomShuffleU8 return value, n=%d", n);
    for (int i = 0; i < n; i++) cnt[p[i]]--;
    for (int i = 0; i < 256; i++) CHECK(!cnt[i], "wRandomShuffleU8: value %d occurs %d times less than before, n=%d style %d", i, cnt[i], n, style);
    free(p);
    snprintf(h_desc, sizeof h_desc, "style %d n %d", style, n); h_distinct++;
    return 0;
}
