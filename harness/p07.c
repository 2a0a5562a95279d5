#include "h.h"
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <wbcrypto/modes.h>
#include <wbcrypto/wbaes_wbgcm_ee.h>
#include <wbcrypto/wbaes_wbgcm_mask.h>
static long io_n, io_fail = -1; static int io_on, io_hit, opened;
static int hit(void) { if (!io_on) return 0; if (io_n++ == io_fail) { io_hit = 1; return 1; } return 0; }
FILE *__real_fopen(const char *, const char *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *p, const char *m) { if (hit()) return 0; FILE *f = __real_fopen(p, m); if (io_on && f) opened++; return f; }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (hit()) return n ? n - 1 : 0; return __real_fwrite(p, s, n, f); }
int __wrap_fclose(FILE *f) { if (io_on) opened--; return __real_fclose(f); }
static void blk(const uint8_t *in, uint8_t *out, const void *k) { AES_encrypt(in, out, k); }
static u8 key[16]; static AES_KEY ak; static int fl;
static WBCRYPTO_wbaes_wbgcm_ee_context *eet; static WBCRYPTO_wbaes_wbgcm_mask_context *met, *mdt;
static u8 iv[16], aad[40]; static size_t ivn, aadn;
static WBCRYPTO_gcmfile_context *g; static WBCRYPTO_wbgcm_ee_context *e; static WBCRYPTO_wbgcm_mask_context *m;
static int op(int dec, char *in, char *out) {
    int r = -1;
    if (fl == 0) {
        g = WBCRYPTO_gcmfile_init(&ak, (block128_f) blk);
        if (!g || WBCRYPTO_gcmfile_setiv(g, iv, ivn) != 1 || (aadn && WBCRYPTO_gcmfile_aad(g, aad, aadn) != 1)) return -1;
    } else if (fl == 1) {
        e = WBCRYPTO_wbaes_wbgcm_ee_init(eet);
        if (WBCRYPTO_wbaes_wbgcm_ee_setiv(e, iv, ivn) != 1 || (aadn && WBCRYPTO_wbaes_wbgcm_ee_aad(e, aad, aadn) != 1)) return -1;
    } else {
        m = WBCRYPTO_wbaes_wbgcm_mask_init(dec ? mdt : met);
        if (WBCRYPTO_wbaes_wbgcm_mask_setiv(m, iv, ivn) != 1 || (aadn && WBCRYPTO_wbaes_wbgcm_mask_aad(m, aad, aadn) != 1)) return -1;
    }
    io_on = 1; io_n = 0; io_hit = 0; opened = 0;
    if (fl == 0) r = dec ? WBCRYPTO_gcmfile_decrypt(g, in, out) : WBCRYPTO_gcmfile_encrypt(g, in, out);
    else if (fl == 1) r = dec ? WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(e, in, out) : WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(e, in, out);
    else r = dec ? WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(m, in, out) : WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(m, in, out);
    io_on = 0;
    return r;
}
static void put(const char *p, const u8 *b, size_t n) { FILE *f = __real_fopen(p, "wb"); if (n) __real_fwrite(b, 1, n, f); __real_fclose(f); }
static u8 *get(const char *p, size_t *n) {
    FILE *f = __real_fopen(p, "rb"); if (!f) { *n = (size_t) -1; return 0; }
    fseek(f, 0, SEEK_END); *n = ftell(f); rewind(f);
    u8 *b = malloc(*n + 1); if (fread(b, 1, *n, f) != *n) abort(); __real_fclose(f); return b;
}
static const char *NM[] = {"gcmfile", "wbgcmfile_ee", "wbgcmfile_mask"};
static int h_case(void) {
    if (!eet) {
        for (int i = 0; i < 16; i++) key[i] = i * 17 + 3;
        srand(7);
        eet = calloc(1, sizeof *eet); WBCRYPTO_wbaes_wbgcm_ee_gen_table(eet, key, 16);
        met = WBCRYPTO_wbaes_wbgcm_mask_init_table(); mdt = WBCRYPTO_wbaes_wbgcm_mask_init_table();
        WBCRYPTO_wbaes_wbgcm_mask_gen_table(met, mdt, key, 16);
        AES_set_encrypt_key(key, 128, &ak);
    }
    char in[] = "in.bin", ct[] = "ct.bin", pt[] = "pt.bin", no[] = "missing.bin", nd[] = "nodir/x.bin";
    fl = rnd(3);
    static const int ns[] = {0, 1, 16, 127, 128, 129, 255, 256, 257, 384, 1280, 1281};
    size_t n = rnd(2) ? (size_t) ns[rnd(12)] : rnd(5) ? rnd(700) : rnd(9000), cn, pn;
    u8 *p = gbuf(n); ivn = rnd(2) ? 12 : 1 + rnd(16); rbytes(iv, 16); rbytes(aad, 40); aadn = rnd(41);
    const char *w = NM[fl];
    put(in, p, n); remove(ct); remove(pt); io_fail = -1;
    CHECK(op(0, in, ct) == 1, "%s: encryption of %zu bytes reports failure", w, n);
    CHECK(opened == 0, "%s: encryption leaves %d streams open", w, opened);
    u8 *c = get(ct, &cn);
    CHECK(cn == n + 24, "%s: %zu bytes encrypt to a container of %zu bytes", w, n, cn);
    uint64_t L = 0; for (int i = 0; i < 8; i++) L |= (uint64_t) c[16 + i] << (8 * i);
    CHECK(L == n, "%s: %zu bytes: length field %llu", w, n, (unsigned long long) L);
    if (fl < 2) {
        EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l; u8 t[16], *o = malloc(n + 16);
        EVP_EncryptInit_ex(x, EVP_aes_128_gcm(), 0, 0, 0); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, (int) ivn, 0);
        EVP_EncryptInit_ex(x, 0, 0, key, iv);
        if (aadn) EVP_EncryptUpdate(x, 0, &l, aad, (int) aadn);
        if (n) EVP_EncryptUpdate(x, o, &l, p, (int) n);
        EVP_EncryptFinal_ex(x, o + n, &l); EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, t); EVP_CIPHER_CTX_free(x);
        CHECK(!memcmp(c, t, 16), "%s: %zu bytes: tag %s want %s", w, n, hex(c, 16), hex(t, 16));
        CHECK(!memcmp(c + 24, o, n), "%s: %zu bytes: wrong ciphertext", w, n);
        free(o);
    }
    CHECK(op(1, ct, pt) == 1, "%s: decryption of %zu encrypted bytes reports failure", w, n);
    CHECK(opened == 0, "%s: decryption leaves %d streams open", w, opened);
    u8 *q = get(pt, &pn);
    CHECK(pn == n && !memcmp(q, p, n), "%s: %zu bytes decrypt to something else", w, n);
    free(q);
    /* modified or truncated containers */
    for (int k = 0; k < 4; k++) {
        size_t mn = cn, at = rnd(cn); u8 *d = malloc(cn + 40);
        memcpy(d, c, cn);
        int how = rnd(4);
        if (how == 0) d[at] ^= 1u << rnd(8);
        else if (how == 1) mn = at;
        else if (how == 2) { mn = cn + 1 + rnd(33); memset(d + cn, (int) rnd(2), 40); }
        else { at = rnd(24); d[at] ^= 1 + rnd(255); }
        put(ct, d, mn);
        CHECK(op(1, ct, pt) == 0, "%s: container of %zu bytes %s at %zu is accepted", w, n, how == 1 ? "truncated" : how == 2 ? "extended" : "modified", at);
        CHECK(opened == 0, "%s: rejecting leaves %d streams open", w, opened);
        free(d);
    }
    put(ct, c, cn);
    /* paths that cannot be opened, failing writes */
    CHECK(op(0, no, pt) == 0 && opened == 0 && op(1, no, pt) == 0 && opened == 0, "%s: missing input", w);
    CHECK(op(0, in, nd) == 0 && opened == 0 && op(1, ct, nd) == 0 && opened == 0, "%s: output that cannot be created", w);
    io_fail = rnd(8);
    int r = op(0, in, pt);
    CHECK(!io_hit || r == 0, "%s: encryption of %zu bytes reports success although I/O call %ld failed", w, n, io_fail);
    CHECK(opened == 0, "%s: failing I/O leaves %d streams open", w, opened);
    r = op(1, ct, pt);
    CHECK(!io_hit || r == 0, "%s: decryption of %zu bytes reports success although I/O call %ld failed", w, n, io_fail);
    CHECK(opened == 0, "%s: failing I/O leaves %d streams open", w, opened);
    snprintf(h_desc, sizeof h_desc, "%s %zu bytes aad %zu iv %zu", w, n, aadn, ivn); h_distinct++;
    free(c); free(p);
    return 0;
}
