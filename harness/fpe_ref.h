/* independent FF1 / FF3 on big integers held as base-256 arrays */
#include <openssl/bn.h>
#include <wbcrypto/fpe.h>
static u8 ck[16]; static int ckey;
static void prf(const u8 *in, u8 *out) {   /* arbitrary keyed function: mixes all bytes */
    uint64_t a = 0x9E3779B97F4A7C15ull ^ ck[0], b = 0xD1B54A32D192ED03ull ^ ck[1];
    for (int i = 0; i < 16; i++) { a = (a ^ in[i] ^ ck[i]) * 0x100000001B3ull; a ^= a >> 29; b = (b + in[15 - i] * 3 + ck[i]) * 0xBF58476D1CE4E5B9ull; b ^= b >> 31; }
    a += b * 7; b ^= a >> 13;
    for (int i = 0; i < 8; i++) { out[i] = a >> (8 * i); out[8 + i] = b >> (8 * i); }
}
static int blk(const unsigned char *in, unsigned char *out, const void *key) { u8 t[16]; if (key != &ckey) { out[0] ^= 1; return 0; } prf(in, t); memcpy(out, t, 16); return 1; }
static BIGNUM *num_of(const int *d, int n, int r) { BIGNUM *b = BN_new(); BN_zero(b); for (int i = 0; i < n; i++) { BN_mul_word(b, r); BN_add_word(b, d[i]); } return b; }
static void str_of(const BIGNUM *b, int *d, int n, int r) { BIGNUM *t = BN_dup(b); for (int i = n - 1; i >= 0; i--) d[i] = (int)BN_div_word(t, r); BN_free(t); }
static void addsub(const BIGNUM *a, const BIGNUM *y, int r, int m, int enc, int *out) {
    BN_CTX *c = BN_CTX_new(); BIGNUM *q = BN_new(), *z = BN_new(); BN_one(q); for (int i = 0; i < m; i++) BN_mul_word(q, r);
    if (enc) BN_add(z, a, y); else BN_sub(z, a, y);
    BN_nnmod(z, z, q, c); str_of(z, out, m, r); BN_free(q); BN_free(z); BN_CTX_free(c);
}
static void rev(int *d, int n) { for (int i = 0; i < n / 2; i++) { int t = d[i]; d[i] = d[n - 1 - i]; d[n - 1 - i] = t; } }
static void ref_ff1(int *x, int n, int r, const u8 *tw, int t, int enc) {
    int u = n / 2, v = n - u, A[600], B[600], C[600]; memcpy(A, x, u * sizeof *x); memcpy(B, x + u, v * sizeof *x); int la = u, lb = v;
    BIGNUM *q = BN_new(); BN_one(q); for (int i = 0; i < v; i++) BN_mul_word(q, r); BN_sub_word(q, 1); int b = (BN_num_bits(q) + 7) / 8; BN_free(q);
    int d = 4 * ((b + 3) / 4) + 4;
    u8 P[16] = {1, 2, 1, 0, 0, r, 10, u % 256, n >> 24, n >> 16, n >> 8, n, t >> 24, t >> 16, t >> 8, t};
    int pad = (((-t - b - 1) % 16) + 16) % 16, ql = t + pad + 1 + b; u8 *Q = calloc(ql, 1), S[512], R[16];
    memcpy(Q, tw, t);
    for (int k = 0; k < 10; k++) {
        int i = enc ? k : 9 - k, m = i % 2 ? v : u, *src = enc ? B : A, ls = enc ? lb : la;
        Q[t + pad] = i; BIGNUM *s = num_of(src, ls, r); BN_bn2binpad(s, Q + ql - b, b); BN_free(s);
        prf(P, R); for (int j = 0; j < ql; j += 16) { for (int z = 0; z < 16; z++) R[z] ^= Q[j + z]; u8 o[16]; prf(R, o); memcpy(R, o, 16); }
        memcpy(S, R, 16); for (int j = 1; 16 * j < d; j++) { u8 T[16]; memcpy(T, R, 16); T[15] ^= j; T[14] ^= j >> 8; prf(T, S + 16 * j); }
        BIGNUM *y = BN_bin2bn(S, d, NULL), *a = enc ? num_of(A, la, r) : num_of(B, lb, r);
        addsub(a, y, r, m, enc, C); BN_free(y); BN_free(a);
        if (enc) { memcpy(A, B, lb * sizeof *x); la = lb; memcpy(B, C, m * sizeof *x); lb = m; }
        else { memcpy(B, A, la * sizeof *x); lb = la; memcpy(A, C, m * sizeof *x); la = m; }
    }
    memcpy(x, A, la * sizeof *x); memcpy(x + la, B, lb * sizeof *x); free(Q);
}
static void ref_ff3(int *x, int n, int r, const u8 *tw, int enc) {
    int u = (n + 1) / 2, v = n - u, A[600], B[600], C[600]; memcpy(A, x, u * sizeof *x); memcpy(B, x + u, v * sizeof *x); int la = u, lb = v;
    for (int k = 0; k < 8; k++) {
        int i = enc ? k : 7 - k, m = i % 2 ? v : u; const u8 *W = i % 2 ? tw : tw + 4; int T[600], lt = enc ? lb : la;
        memcpy(T, enc ? B : A, lt * sizeof *x); rev(T, lt); BIGNUM *s = num_of(T, lt, r);
        u8 P[16], Z[16], S[16]; memcpy(P, W, 4); P[3] ^= i; BN_bn2binpad(s, P + 4, 12); BN_free(s);
        for (int j = 0; j < 16; j++) Z[j] = P[15 - j]; prf(Z, P); for (int j = 0; j < 16; j++) S[j] = P[15 - j];
        int la2 = enc ? la : lb; memcpy(T, enc ? A : B, la2 * sizeof *x); rev(T, la2);
        BIGNUM *y = BN_bin2bn(S, 16, NULL), *a = num_of(T, la2, r); addsub(a, y, r, m, enc, C); rev(C, m); BN_free(y); BN_free(a);
        if (enc) { memcpy(A, B, lb * sizeof *x); la = lb; memcpy(B, C, m * sizeof *x); lb = m; }
        else { memcpy(B, A, la * sizeof *x); lb = la; memcpy(A, C, m * sizeof *x); la = m; }
    }
    memcpy(x, A, la * sizeof *x); memcpy(x + la, B, lb * sizeof *x);
}
static void to_str(const int *d, int n, char *s) { for (int i = 0; i < n; i++) s[i] = d[i] < 10 ? '0' + d[i] : 'a' + d[i] - 10; s[n] = 0; }
static int R_, N_, T_, D_[600], E_[600]; static u8 tw_[4096], twp[4096];
static void pick(int ff3) {
    rbytes(ck, 16); R_ = rnd(3) ? (int[]){2, 10, 16, 26, 36}[rnd(5)] : 2 + (int)rnd(35);
    int mx = 0; if (ff3) { double lim = 96.0; while ((mx + 1) * __builtin_log2(R_) <= lim + 1e-9) mx++; mx *= 2; } else mx = rnd(8) ? 40 : rnd(4) ? 260 : 590;
    N_ = 2 + rnd(rnd(2) ? (mx - 1) : (mx < 12 ? mx - 1 : 10)); if (!rnd(8)) N_ = mx - rnd(2);
    T_ = ff3 ? (rnd(6) ? 8 : rnd(20)) : (rnd(4) ? rnd(20) : rnd(4) ? rnd(40) : rnd(8) ? rnd(320) : rnd(4000)); if (ff3 && T_ > 40) T_ = 8;
    memset(twp, 0, sizeof twp); rbytes(tw_, T_ < 64 ? 64 : T_); memcpy(twp, tw_, T_);
    int mode = rnd(6);
    for (int i = 0; i < N_; i++) D_[i] = mode == 0 ? 0 : mode == 1 ? R_ - 1 : mode == 2 ? (rnd(6) ? 0 : rnd(R_)) : (int)rnd(R_);
    memcpy(E_, D_, sizeof D_);
}
