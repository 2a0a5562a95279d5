/* SP 800-38D over the block function raw() that the including file defines */
static u8 Hk[16];
static void mul(u8 *x) {
    u8 v[16], r[16] = {0}; memcpy(v, Hk, 16);
    for (int i = 0; i < 128; i++) {
        if (x[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; j++) r[j] ^= v[j];
        int l = v[15] & 1;
        for (int j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7;
        v[0] >>= 1; if (l) v[0] ^= 0xe1;
    }
    memcpy(x, r, 16);
}
static void gh(u8 *s, const u8 *p, size_t n) {
    for (size_t i = 0; i < n; i += 16) { for (size_t j = 0; j < 16 && i + j < n; j++) s[j] ^= p[i + j]; mul(s); }
}
static void lens(u8 *s, uint64_t a, uint64_t b) {
    u8 t[16]; a *= 8; b *= 8;
    for (int i = 0; i < 8; i++) { t[7 - i] = a >> 8 * i; t[15 - i] = b >> 8 * i; }
    gh(s, t, 16);
}
static void inc(u8 *y) { for (int i = 15; i >= 12; i--) if (++y[i]) break; }
static void ref(const u8 *iv, size_t ivn, const u8 *a, size_t an, const u8 *m, size_t n, u8 *c, u8 *tag) {
    u8 y[16] = {0}, e0[16], ks[16], s[16] = {0};
    memset(Hk, 0, 16); raw(Hk, Hk);
    if (ivn == 12) { memcpy(y, iv, 12); y[15] = 1; } else { gh(y, iv, ivn); lens(y, 0, ivn); }
    raw(y, e0);
    for (size_t i = 0; i < n; i++) { if (i % 16 == 0) { inc(y); raw(y, ks); } c[i] = m[i] ^ ks[i % 16]; }
    gh(s, a, an); gh(s, c, n); lens(s, an, n);
    for (int i = 0; i < 16; i++) tag[i] = s[i] ^ e0[i];
}
