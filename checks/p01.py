from common import *
from specs import sm4 as S

SM4 = ['src/sm4/sm4.c', 'src/utils/padding.c']
INIT = '@aux_sm4_init_key'


def rk_terms(ex, st, ctx):
    return [ex.load(st, add(ctx, C64(4 * i)), 4) for i in range(32)]


def run_init(c, keylen, mode, K, fn=INIT):
    """keylen: int or 64-bit term; returns round-key terms"""
    ex = c.exec()
    st = sym.State()
    if isinstance(keylen, int):
        key = ex.new_obj(st, 'key', keylen, 'arg', mem.BV(K) if keylen else mem.Bytes(b''), wr=False)
        kl = C64(keylen)
    else:
        kl = keylen
        key = ex.new_obj(st, 'key', kl, 'arg', mem.Sym('keybytes'), wr=False)
        K = concat(*[tm.sel('keybytes', C64(i)) for i in range(16)])
    ctx = ex.new_obj(st, 'ctx', 128, 'arg', mem.Sym('ctx0'))
    args = [ctx, key, kl] + ([C32(mode)] if fn == INIT else [])
    out = ex.call(st, fn, args)
    if len(out) != 1:
        raise sym.EngineLimit('several return paths')
    st, r = out[0]
    ret_is(ex, st, r, 1, fn)
    leak_free(ex, st)
    return ex, st, rk_terms(ex, st, ctx), K


def leak_free(ex, st):
    for n, o in st.objs.items():
        if o.kind == 'heap' and o.alive:
            ex.oblige(st, FALSE, 'postcondition', 'temporary key buffer is released', soft=True, record=False)


def modes():
    import re
    h = open(os.path.join(ir.REPO, 'include/wbcrypto/conf.h')).read()
    e = int(re.search(r'WBCRYPTO_ENCRYPT_MODE\s+(\d+)', h).group(1))
    d = int(re.search(r'WBCRYPTO_DECRYPT_MODE\s+(\d+)', h).group(1))
    return e, d


def u_keysched(c):
    S.selftest()
    e, d = modes()
    Kv = var(128, 'K')
    want = S.keysched(Kv)
    for fn, mode in ((INIT, e), (INIT, d), ('@WBCRYPTO_sm4_init_key', e)):
        ex, st, rk16, K = run_init(c, 16, mode, Kv, fn)
        w = want if mode == e else want[::-1]
        for i in range(32):
            ex.oblige(st, eq(rk16[i], w[i]), 'postcondition', '%s mode %d: round key %d is the standard one' % (fn, mode, i))


def u_keylen(lens):
    def f(c):
        e, d = modes()
        for n in lens:
            if n is None:
                ln = var(64, 'keylen', 17, (1 << 62))
            else:
                kb = var(8 * n, 'Kshort%d' % n) if n else None
            for mode in (e, d):
                if n is None:
                    ex, st, rk, K2 = run_init(c, ln, mode, None)
                else:
                    ex, st, rk, _ = run_init(c, n, mode, kb)
                    K2 = S.padkey(bytes_of(kb) if n else [])
                exp = S.keysched(K2)
                for i in range(32):
                    ex.oblige(st, eq(rk[i], exp[i if mode == e else 31 - i]), 'postcondition', 'keylen %s mode %d: round key %d is that of the padded key' % (n if n is not None else '> 16', mode, i))
    return f


def crypt_unit(fn, rev):
    def f(c):
        X = var(128, 'X')
        RK = [var(32, 'rk%d' % i) for i in range(32)]
        for inplace in (False, True):
            ex = c.exec()
            st = sym.State()
            out = ex.new_obj(st, 'out', 16, 'arg', mem.BV(X) if inplace else mem.Sym('out0'))
            inp = out if inplace else ex.new_obj(st, 'in', 16, 'arg', mem.BV(X), wr=False)
            ctx = ex.new_obj(st, 'ctx', 128, 'arg', mem.BV(concat(*[le(r) for r in RK])), wr=False)
            rs = ex.call(st, fn, [inp, out, ctx])
            if len(rs) != 1:
                raise sym.EngineLimit('several return paths')
            st, r = rs[0]
            ret_is(ex, st, r, 1, fn)
            spec = S.crypt(X, RK[::-1] if rev else RK)
            ex.oblige(st, eq(ex.load_be(st, out, 16), spec), 'postcondition', '%s%s computes the SM4 rounds with the context round keys%s' % (fn, ' in place' if inplace else '', ' in reverse order' if rev else ''))
    return f


def u_lemma(c):
    """decryption inverts encryption, for any round function and any round keys"""
    ex = c.exec()
    st = sym.State()
    X = var(128, 'X')
    RK = [var(32, 'rk%d' % i) for i in range(32)]
    T = lambda x: tm.raw_uf('T', 32, x)
    y = S.crypt(X, RK, T)
    ex.oblige(st, eq(S.crypt(y, RK[::-1], T), X), 'lemma', 'D(E(x)) = x')
    ex.oblige(st, eq(S.crypt(S.crypt(X, RK[::-1], T), RK, T), X), 'lemma', 'E(D(x)) = x')


UNITS = [
    Unit('key schedule', u_keysched, SM4, 'aux_sm4_init_key, WBCRYPTO_sm4_init_key with WBCRYPTO_key_padding_pkcs7 inlined'),
] + [Unit('key schedule, key length %s' % ', '.join('> 16' if x is None else str(x) for x in g), u_keylen(g), SM4, 'every other key length: 0..15 one by one, > 16 symbolic')
     for g in ((0, 1, 2), (3, 4, 5), (6, 7, 8), (9, 10, 11), (12, 13, 14), (15, None))] + [
    Unit('encrypt', crypt_unit('@WBCRYPTO_sm4_encrypt', False), SM4, 'WBCRYPTO_sm4_encrypt, separate buffers and in place'),
    Unit('decrypt', crypt_unit('@WBCRYPTO_sm4_decrypt', True), SM4, 'WBCRYPTO_sm4_decrypt, separate buffers and in place'),
    Unit('inverse lemma', u_lemma, SM4, 'Feistel inversion over the two contracts'),
]
H = Harness('p01.c', SM4, quick_s=4)
if __name__ == '__main__':
    sys.exit(main('P01', UNITS, H))
