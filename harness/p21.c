#include "h.h"
#include <wbcrypto/utils.h>
#include <wbcrypto/wbsm4.h>
/* fault injection: the k-th I/O call of the library call under test fails */
static long io_n, io_fail = -1; static int io_on, io_hit;
static int hit(void) { if (!io_on) return 0; if (io_n++ == io_fail) { io_hit = 1; return 1; } return 0; }
FILE *__real_fopen(const char *, const char *);
size_t __real_fread(void *, size_t, size_t, FILE *), __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fclose(FILE *);
static int opened;
static char lastmode[8];
FILE *__wrap_fopen(const char *p, const char *m) { if (hit()) return 0; FILE *f = __real_fopen(p, m); if (io_on && f) { opened++; snprintf(lastmode, 8, "%s", m); } return f; }
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { if (hit()) return n ? n - 1 : 0; return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (hit()) return n ? n - 1 : 0; return __real_fwrite(p, s, n, f); }
int __wrap_fclose(FILE *f) { int h = 0; if (io_on) { opened--; if (lastmode[0] == 'w') h = hit(); } int r = __real_fclose(f); return h ? EOF : r; }
#define LIB(e) (io_on = 1, io_n = 0, io_hit = 0, opened = 0, lib_r = (e), io_on = 0, lib_r)
static int lib_r;
static WBCRYPTO_wbsm4_context *gen(int d, int mode, const u8 *k) { WBCRYPTO_wbsm4_context *c = WBCRYPTO_wbsm4_context_init(mode, d); WBCRYPTO_wbsm4_gen_table(c, k, 16); return c; }
static int same(const WBCRYPTO_wbsm4_context *a, const WBCRYPTO_wbsm4_context *b) {
    if (a->rounds != b->rounds || a->encmode != b->encmode || memcmp(a->SE, b->SE, sizeof a->SE) || memcmp(a->FE, b->FE, sizeof a->FE)) return 0;
    for (int i = 0; i < a->rounds; i++) for (int j = 0; j < 4; j++) {
        if (memcmp(a->CC[i][j], b->CC[i][j], 1024) || memcmp(a->DD[i][j], b->DD[i][j], 1024) || memcmp(a->Table[i][j], b->Table[i][j], 1024)) return 0;
        if (j < 3) for (int k = 0; k < 4; k++) if (memcmp(a->MM[i][j][k], b->MM[i][j][k], 1024)) return 0;
    }
    return 1;
}
static int h_case(void) {
    char f[] = "k.bin", nd[] = "nodir/k.bin";
    size_t n = rnd(6) ? rnd(600) : rnd(200000), m;
    u8 *c = gbuf(n), *d = gbuf(n);
    io_fail = -1;
    unlink(f);
    CHECK(LIB(WBCRYPTO_keystore_file_to_key(d, n, f)) == 0, "load of a missing file succeeded");
    CHECK(LIB(WBCRYPTO_keystore_key_to_file(c, n, nd)) == 0, "store to a missing directory succeeded");
    CHECK(LIB(WBCRYPTO_keystore_key_to_file(c, n, f)) == 1, "store failed n=%zu", n);
    CHECK(opened == 0, "store leaves the stream open");
    CHECK(LIB(WBCRYPTO_keystore_file_to_key(d, n, f)) == 1, "load failed n=%zu", n);
    CHECK(opened == 0, "load leaves the stream open");
    CHECK(!memcmp(c, d, n), "loaded bytes differ n=%zu", n);
    if (n) {
        m = rnd(n);
        CHECK(!truncate(f, m), "truncate");
        CHECK(LIB(WBCRYPTO_keystore_file_to_key(d, n, f)) == 0, "load of a short file (%zu of %zu) succeeded", m, n);
        LIB(WBCRYPTO_keystore_key_to_file(c, n, f));
        for (int w = 0; w < 2; w++) {
            io_fail = rnd(3);
            int r = w ? LIB(WBCRYPTO_keystore_file_to_key(d, n, f)) : LIB(WBCRYPTO_keystore_key_to_file(c, n, f));
            CHECK(r == !io_hit, "%s: I/O call %ld failed but the call returned %d (n=%zu)", w ? "load" : "store", io_fail, r, n);
            CHECK(opened == 0, "a failed call leaves the stream open");
            io_fail = -1;
            LIB(WBCRYPTO_keystore_key_to_file(c, n, f));
        }
    }
    free(c); free(d);
    if (rnd(12) == 0) {
        static WBCRYPTO_wbsm4_context *a[3]; static u8 k[16];
        if (!a[0]) { rbytes(k, 16); a[0] = gen(0, WBCRYPTO_ENCRYPT_MODE, k); a[1] = gen(1, WBCRYPTO_DECRYPT_MODE, k); a[2] = gen(3, WBCRYPTO_ENCRYPT_MODE, k); }
        WBCRYPTO_wbsm4_context *s = a[rnd(3)], *b = WBCRYPTO_wbsm4_context_init(rnd(2) ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE, (int) rnd(4));
        u8 x[16], y[16], z[16]; rbytes(x, 16);
        int how = (int) rnd(6);
        if (how < 2) {
            char *ks = 0;
            CHECK(WBCRYPTO_wbsm4_key2bytes(s, &ks) == 1, "key2bytes failed");
            CHECK(WBCRYPTO_wbsm4_bytes2key(b, ks) == 1, "bytes2key failed");
            free(ks);
            CHECK(same(s, b), "context restored from bytes differs");
        } else if (how < 4) {
            unlink(f);
            CHECK(LIB(WBCRYPTO_wbsm4_file2key(b, f)) == 0, "wbsm4 load of a missing file succeeded");
            CHECK(LIB(WBCRYPTO_wbsm4_key2file(s, nd)) == 0, "wbsm4 store to a missing directory succeeded");
            CHECK(LIB(WBCRYPTO_wbsm4_key2file(s, f)) == 1 && opened == 0, "wbsm4 store failed");
            CHECK(LIB(WBCRYPTO_wbsm4_file2key(b, f)) == 1 && opened == 0, "wbsm4 load failed");
            CHECK(same(s, b), "context restored from the file differs");
        } else {
            LIB(WBCRYPTO_wbsm4_key2file(s, f));
            long tot = io_n;
            if (how == 4) {
                FILE *q = fopen(f, "rb"); fseek(q, 0, SEEK_END); long len = ftell(q); fclose(q);
                m = rnd(3) ? rnd(len) : len - 1 - rnd(8);
                CHECK(!truncate(f, m), "truncate");
                CHECK(LIB(WBCRYPTO_wbsm4_file2key(b, f)) == 0, "wbsm4 load of a file cut to %zu of %ld bytes succeeded", m, len);
            } else for (int w = 0; w < 2; w++) {
                io_fail = rnd(3) ? rnd(tot) : rnd(2) ? rnd(8) : tot - 1 - rnd(4);
                int r = w ? LIB(WBCRYPTO_wbsm4_file2key(b, f)) : LIB(WBCRYPTO_wbsm4_key2file(s, f));
                CHECK(r == !io_hit, "wbsm4 %s: I/O call %ld failed but the call returned %d", w ? "load" : "store", io_fail, r);
                io_fail = -1;
                if (!w) LIB(WBCRYPTO_wbsm4_key2file(s, f));
            }
        }
        if (how < 4) {
            if (s->encmode == WBCRYPTO_ENCRYPT_MODE) { WBCRYPTO_wbsm4_encrypt(x, y, s); WBCRYPTO_wbsm4_encrypt(x, z, b); }
            else { WBCRYPTO_wbsm4_decrypt(x, y, s); WBCRYPTO_wbsm4_decrypt(x, z, b); }
            CHECK(!memcmp(y, z, 16), "restored context encrypts differently");
        }
        for (int i = 0; i < b->rounds; i++) {
            for (int j = 0; j < 4; j++) { free(b->CC[i][j]); free(b->DD[i][j]); free(b->Table[i][j]); if (j < 3) { for (int q = 0; q < 4; q++) free(b->MM[i][j][q]); free(b->MM[i][j]); } }
            free(b->CC[i]); free(b->DD[i]); free(b->Table[i]); free(b->MM[i]);
        }
        free(b->CC); free(b->DD); free(b->Table); free(b->MM); free(b);
        snprintf(h_desc, sizeof h_desc, "wbsm4 variant %d", how);
    } else snprintf(h_desc, sizeof h_desc, "raw n=%zu", n);
    h_distinct++;
    return 0;
}
