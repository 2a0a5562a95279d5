import gc
from linmaps import *
from modes import one
from gcmcrypt import *
from gcmtab import u_mult, u_init

F = ['src/wbaes/wbaes_wbgcm_ee_init.c', 'src/wbaes/wbaes_local.c']
P = '@WBCRYPTO_wbaes_wbgcm_ee_'


def u_block(c):
    gc.disable()        # nothing here is garbage, collecting only costs time
    ex = c.exec()
    ex.summary_min = 200
    ex.summary_nest = True
    M = Maps(ex, AES.S)
    st = sym.State()
    kb = [var(8, 'key%d' % i) for i in range(16)]
    key = ex.new_obj(st, 'key', 16, 'arg', mem.BV(concat(*kb)), wr=False)
    G1, G3, size = keylayout()
    ctx = ex.new_obj(st, 'ctx', size, 'arg', mem.Sym('ctx0'))
    st, r = one(ex.call(st, P + 'gen_table', [ctx, key, C64(16)]), 'gen_table')
    X = [var(8, 'X%d' % i) for i in range(16)]
    want = M.aes(X, AES.expand(kb))
    for inplace in (False, True):
        s2 = st.fork()
        inp = ex.new_obj(s2, 'in', 16, 'arg', mem.BV(concat(*X)), wr=inplace)
        out = inp if inplace else ex.new_obj(s2, 'out', 16, 'arg', mem.Sym('out0'))
        s2, r = one(ex.call(s2, '@aux_WBCRYPTO_wbaes_wbgcm_ee_encrypt', [inp, out, ctx]), 'encrypt')
        got = []
        for i in range(16):
            e = ex.load(s2, add(out, C64(i)), 1)
            b = var(8, 'B%d' % i)
            m = ex.load(s2, add(ctx, add(C64(G1 + 256 * i), tm.zext(b, 64))), 1)
            idx = add(tm.mulc(tm.zext(e, 64), 256), tm.zext(m, 64))
            g = ex.load(s2, add(ctx, add(C64(G3 + 65536 * i), idx)), 1)
            got.append(xor(g, b))
        M.same_sets(s2, got, want, 'encrypt' + (', in place' if inplace else ''))


HDR = 'wbcrypto/wbaes_wbgcm_ee.h'
KEY = 'struct wbaes_wbgcm_ee_context'


def keylayout():
    o, size = offsets(KEY, HDR, ('GBOX_TypeI', 'GBOX_TypeIII'))
    return o['GBOX_TypeI'], o['GBOX_TypeIII'], size


def ee(i, x):
    return tm.uf(('ee', i), 8, x)


def g3_rule(name, w, args):
    a, b = args
    if all(t.op == 'uf' and isinstance(t.v, tuple) for t in args) and a.v == ('ee', name[1]) and b.v == ('g1', name[1]):
        return xor(a.args[0], b.args[0])
    return None


class EE(Plain):
    N, MULT, BLK = P, '@wbgcm_mult', '@aux_WBCRYPTO_wbaes_wbgcm_ee_encrypt'
    F = ['src/wbaes/wbaes_wbgcm_ee_mode.c']
    bad = -1

    def __init__(self):
        self.layout = lambda: Layout('struct wbgcm_ee_context', HDR)

    def key(self, ex, st):
        g1, g3, size = keylayout()
        tm.UF_RULES['g3'] = g3_rule

        def fn(off):
            lo, hi = tm.umin(off), tm.umax(off)
            if lo >= g1 and hi < g1 + 4096 and (lo - g1) >> 8 == (hi - g1) >> 8:
                return tm.uf(('g1', (lo - g1) >> 8), 8, ext(tm.urem(sub(off, C64(g1)), C64(256)), 7, 0))
            if lo >= g3 and hi < g3 + (16 << 16) and (lo - g3) >> 16 == (hi - g3) >> 16:
                rel = sub(off, C64(g3 + ((lo - g3) >> 16 << 16)))
                return tm.uf(('g3', (lo - g3) >> 16), 8, ext(tm.udiv(rel, C64(256)), 7, 0), ext(tm.urem(rel, C64(256)), 7, 0))
            raise sym.EngineLimit('access to white-box tables other than one row of a GBOX table')
        return ex.new_obj(st, 'key', size, 'arg', mem.Fn(fn), wr=False)

    def stored(self, v):
        return concat(*[ee(i, byte(v, i)) for i in range(16)])


V = EE()
M = V.F
UNITS = [Unit('block', u_block, F, budget=700)] + groups('encrypt', False, V, False) + groups('decrypt', True, V, False) + [
    Unit('setiv', u_setiv(['12'] + list(range(16)), V=V), M, 'any IV length'),
    Unit('aad', u_aad(range(16), V), M),
    Unit('finish', u_finish(V), M, 'tag lengths 0..16'),
    Unit('tables', u_init(V), M),
    Unit('mult', u_mult('no', V), M),
    Unit('mult in place', u_mult('same', V), M),
    Unit('mult inside the context', u_mult('ctx', V), M),
]
H = Harness('p09.c', F + V.F + ['src/utils/wrandom.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c'], quick_s=12, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P09', UNITS, H, assumptions=['wbgcm_mult contract: ghmul is the product with the hash key (units mult and tables here, product lemma in P05)', 'contracts of the WBMatrix functions and of genPermutation4/8: proved by P13 and P14']))
