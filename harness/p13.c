#include "h.h"
#include <WBMatrix/WBMatrix.h>
static int style, budget;
static unsigned last;
unsigned int __wrap_cus_random(void) {
    switch (style) {
    case 1: return 0;
    case 2: return 0xffffffffu;
    case 3: return rnd(3) ? last : (last = (unsigned)h_next());
    case 4: return budget-- > 0 ? (unsigned)h_next() : 0;
    case 5: return budget-- > 0 ? 0 : (unsigned)h_next();
    case 6: return 1u << rnd(32);
    case 7: return (unsigned)h_next() & (unsigned)h_next() & (unsigned)h_next();
    default: return (unsigned)h_next();
    }
}
/* bit j of row i, as documented: column 0 is the most significant bit */
#define B4(m, i, j) ((m).M[i] >> (3 - (j)) & 1)
#define BN(m, i, j, n) ((int)((m).M[i] >> ((n) - 1 - (j)) & 1))
#define B128(m, i, j) ((int)((m).M[i][(j) / 64] >> (63 - (j) % 64) & 1))
static u8 X[128][128], Y[128][128], Z[128][128];
static int inverse(int n) {   /* X * Y == I ? */
    for (int i = 0; i < n; i++) {
        u8 row[128] = {0};
        for (int k = 0; k < n; k++) if (X[i][k]) for (int j = 0; j < n; j++) row[j] ^= Y[k][j];
        for (int j = 0; j < n; j++) if (row[j] != (i == j)) return 0;
    }
    return 1;
}
#define GET(D, m, n) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) D[i][j] = BN(m, i, j, n)
#define GET4(D, m) for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) D[i][j] = B4(m, i, j)
#define GET128(D, m) for (int i = 0; i < 128; i++) for (int j = 0; j < 128; j++) D[i][j] = B128(m, i, j)
#define PAIR(n, T, G) do { T *a = malloc(sizeof *a), *b = malloc(sizeof *b); rbytes(a, sizeof *a); rbytes(b, sizeof *b); last = h_next(); budget = rnd(n * 2 + 4); \
    genMatpairM##n(a, b); G(X, a); G(Y, b); CHECK(inverse(n), "genMatpairM%d: product is not the identity (random style %d, case M[0] %s)", n, style, hex(a, 16)); \
    G(Y, a); G(X, b); CHECK(inverse(n), "genMatpairM%d: reverse product is not the identity (style %d)", n, style); free(a); free(b); } while (0)
#define G4(D, p) GET4(D, *p)
#define G8(D, p) GET(D, *p, 8)
#define G16(D, p) GET(D, *p, 16)
#define G32(D, p) GET(D, *p, 32)
#define G64(D, p) GET(D, *p, 64)
#define G128(D, p) GET128(D, *p)
#define AFF(n, T, U) do { T a, b; rbytes(&a, sizeof a); rbytes(&b, sizeof b); budget = rnd(n * 2 + 4); genaffinepairM##n(&a, &b); for (int k = 0; k < 20; k++) { U x = (U)h_next() & (n == 4 ? (U)15 : (U)-1); \
    CHECK(affineU##n(b, affineU##n(a, x)) == x && affineU##n(a, affineU##n(b, x)) == x, "genaffinepairM%d: not inverse at x=%llx style %d", n, (unsigned long long)x, style); } } while (0)
#define PROD(n, T, U) do { T a, b, c; rbytes(&a, sizeof a); rbytes(&b, sizeof b); if (n == 4) for (int i = 0; i < (int)sizeof a; i++) { ((u8 *)&a)[i] &= 15; ((u8 *)&b)[i] &= 15; } \
    rbytes(&c, sizeof c); MatMulMatM##n(a.Mat, b.Mat, &c.Mat); T m; affinemixM##n(a, b, &m); \
    for (int k = 0; k < 5; k++) { U x = (U)h_next() & (n == 4 ? (U)15 : (U)-1); U y = MatMulNumM##n(b.Mat, x), w = 0; \
        for (int i = 0; i < n; i++) w |= (U)__builtin_parityll(b.Mat.M[i] & x) << (n - 1 - i); \
        CHECK(y == w, "MatMulNumM%d: got %llx want %llx", n, (unsigned long long)y, (unsigned long long)w); \
        CHECK(MatMulNumM##n(c.Mat, x) == MatMulNumM##n(a.Mat, y), "MatMulMatM%d is not the product", n); \
        CHECK(affineU##n(m, x) == affineU##n(a, affineU##n(b, x)), "affinemixM%d is not the composition", n); } } while (0)
static int h_case(void) {
    style = rnd(9);
    PAIR(4, M4, G4); PAIR(8, M8, G8); PAIR(16, M16, G16); PAIR(32, M32, G32);
    if (!rnd(3)) PAIR(64, M64, G64);
    if (!rnd(8)) PAIR(128, M128, G128);
    AFF(4, Aff4, u8); AFF(8, Aff8, u8); AFF(16, Aff16, uint16_t); AFF(32, Aff32, uint32_t); AFF(64, Aff64, uint64_t);
    PROD(4, Aff4, u8); PROD(8, Aff8, u8); PROD(16, Aff16, uint16_t); PROD(32, Aff32, uint32_t); PROD(64, Aff64, uint64_t);
    if (!rnd(6)) {
        Aff128 *a = malloc(sizeof *a), *b = malloc(sizeof *b), *m = malloc(sizeof *m); rbytes(a, sizeof *a); rbytes(b, sizeof *b);
        affinemixM128(*a, *b, m); uint64_t x[2] = {h_next(), h_next()}, y[2], z[2], w[2];
        affineU128(*b, x, y); affineU128(*a, y, z); affineU128(*m, x, w);
        CHECK(!memcmp(z, w, 16), "affinemixM128 is not the composition");
        for (int i = 0; i < 128; i++) { int q = __builtin_parityll(b->Mat.M[i][0] & x[0]) ^ __builtin_parityll(b->Mat.M[i][1] & x[1]) ^ (int)(b->Vec.V[i / 64] >> (63 - i % 64) & 1); CHECK(q == (int)(y[i / 64] >> (63 - i % 64) & 1), "affineU128 bit %d", i); }
        genaffinepairM128(a, b); affineU128(*a, x, y); affineU128(*b, y, z); CHECK(!memcmp(x, z, 16), "genaffinepairM128: not inverse, style %d", style);
        free(a); free(b); free(m);
    }
    M8 d[4]; M32 D; rbytes(d, sizeof d); rbytes(&D, sizeof D); MatrixcomM8to32(d[0], d[1], d[2], d[3], &D);
    for (int i = 0; i < 32; i++) CHECK(D.M[i] == (uint32_t)d[i / 8].M[i % 8] << (24 - i / 8 * 8), "MatrixcomM8to32 row %d", i);
    M4 e[2]; M8 E8; rbytes(e, sizeof e); for (int i = 0; i < 8; i++) ((u8 *)e)[i] &= 15; MatrixcomM4to8(e[0], e[1], &E8);
    for (int i = 0; i < 8; i++) CHECK(E8.M[i] == (u8)(e[i / 4].M[i % 4] << (i < 4 ? 4 : 0)), "MatrixcomM4to8 row %d", i);
    Aff8 f[4]; Aff32 g; rbytes(f, sizeof f); affinecomM8to32(f[0], f[1], f[2], f[3], &g); uint32_t x = h_next(), w = 0;
    for (int i = 0; i < 4; i++) w |= (uint32_t)affineU8(f[i], x >> (24 - 8 * i)) << (24 - 8 * i);
    CHECK(affineU32(g, x) == w, "affinecomM8to32");
    snprintf(h_desc, sizeof h_desc, "style %d", style); h_distinct++;
    return 0;
}
