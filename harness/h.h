/* common driver for the concrete harnesses: every case is a deterministic function of a 64-bit seed */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
typedef unsigned char u8;
static uint64_t h_s, h_distinct;
static char h_msg[4096];
static uint64_t h_next(void) {
    uint64_t z = (h_s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t rnd(uint64_t n) { return n ? h_next() % n : 0; }
static void rbytes(void *p, size_t n) {
    u8 *b = p;
    uint64_t mode = rnd(12);
    for (size_t i = 0; i < n; i++) b[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (u8)i : (u8)h_next();
}
/* exact-size heap buffer (address sanitizer guards both ends) */
static u8 *gbuf(size_t n) { u8 *p = malloc(n ? n : 1); if (n) rbytes(p, n); return p; }
static size_t h_len(size_t max) {
    static const int e[] = {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 16*17, 16*33, 511, 512, 513, 1023, 1024, 1025, 4096, 4097};
    uint64_t r = rnd(10);
    size_t v = r < 5 ? (size_t) e[rnd(sizeof e / sizeof *e)] : r < 9 ? rnd(200) : rnd(6000);
    return v > max ? rnd(max + 1) : v;
}
static char *hex(const void *p, size_t n) {
    static char b[8][2200]; static int k; char *o = b[k++ & 7];
    size_t m = n > 1000 ? 1000 : n;
    for (size_t i = 0; i < m; i++) sprintf(o + 2 * i, "%02x", ((const u8 *) p)[i]);
    o[2 * m] = 0; return o;
}
#define FAIL(...) do { snprintf(h_msg, sizeof h_msg, __VA_ARGS__); return 1; } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
static int h_case(void);            /* returns non-zero on a violation */
static char h_desc[512];
int main(int argc, char **argv) {
    if (argc < 5) return 2;
    uint64_t seed = strtoull(argv[2], 0, 10);
    double secs = atof(argv[3]);
    int fd = open(argv[4], O_CREAT | O_RDWR | O_TRUNC, 0600);
    char t[64];
    struct timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    FILE *so = fdopen(dup(1), "w");
    if (!freopen("/dev/null", "w", stdout)) return 2;
    uint64_t n = 0;
    int one = !strcmp(argv[1], "case");
    for (;;) {
        uint64_t cs = one ? seed : seed * 1000003ULL + n;
        int l = snprintf(t, sizeof t, "%-24llu\n", (unsigned long long) cs);
        if (fd >= 0) pwrite(fd, t, l, 0);
        h_s = cs * 0x2545F4914F6CDD1DULL + 88172645463325252ULL; h_next(); h_next();
        srand((unsigned) h_next());
        h_desc[0] = 0;
        if (h_case()) { fprintf(so, "FAIL case=%llu %s\n", (unsigned long long) cs, h_msg); fflush(so); return 1; }
        n++;
        if (n <= 3 && h_desc[0]) fprintf(so, "sample case=%llu %s\n", (unsigned long long) cs, h_desc);
        if (one) break;
        clock_gettime(CLOCK_MONOTONIC, &b);
        if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
    }
    fprintf(so, "cases=%llu nontrivial=%llu\n", (unsigned long long) n, (unsigned long long) h_distinct);
    fflush(so);
    return 0;
}
#endif
