import gc
from linmaps import *
from modes import one
from gcmcrypt import *
from gcmtab import u_mult, u_init

F = ['src/wbaes/wbaes_wbgcm_mask_init.c', 'src/wbaes/wbaes_local.c']
P = '@WBCRYPTO_wbaes_wbgcm_mask_'
HDR = 'wbcrypto/wbaes_wbgcm_mask.h'
KEY = 'struct wbaes_wbgcm_mask_context'


def keylayout():
    return offsets(KEY, HDR, ('encMode', 'TypeIb', 'GBOX_TypeI', 'GBOX_TypeII', 'GBOX_TypeIII', 'L1'))


def rows(ex, st, name, content=None, wr=True):
    """the three-level GBOX_TypeIII table: the rows of box i are the slices of one object"""
    top = ex.new_obj(st, name, 128, 'arg', mem.Sym(name + '0'))
    for i in range(16):
        g = ex.new_obj(st, '%sG%d' % (name, i), 65536, 'arg', content(i) if content else mem.Sym('%sG%d' % (name, i)), wr=wr)

        def fn(off, g=g):
            p = add(g, tm.mulc(tm.udiv(off, C64(8)), 256))
            k = tm.urem(off, C64(8))
            if k.op != 'const':
                raise sym.EngineLimit('unaligned access to the row pointers')
            return ext(p, 8 * k.v + 7, 8 * k.v)
        r = ex.new_obj(st, '%sR%d' % (name, i), 2048, 'arg', mem.Fn(fn), wr=False)
        ex.store(st, add(top, C64(8 * i)), r)
    return top


def context(ex, st, o, size, name):
    ctx = ex.new_obj(st, name, size, 'arg', mem.Sym(name + '0'))
    ex.store(st, add(ctx, C64(o['GBOX_TypeIII'])), rows(ex, st, name + 'box'))
    return ctx


def at8(ex, st, p, idx):
    return ex.load(st, add(p, tm.zext(idx, 64)), 1)


def box3(ex, st, ctx, o, i, a, b):
    t = ex.load(st, add(ctx, C64(o['GBOX_TypeIII'])), 8)
    r = ex.load(st, add(t, C64(8 * i)), 8)
    return at8(ex, st, ex.load(st, add(r, tm.mulc(tm.zext(a, 64), 8)), 8), b)


def u_tables(c):
    gc.disable()        # nothing here is garbage, collecting only costs time
    o, size = keylayout()
    ex = c.exec()
    ex.summary_min = 200
    ex.summary_nest = True
    M = Maps(ex, AES.S)
    st = sym.State()
    kb = [var(8, 'key%d' % i) for i in range(16)]
    key = ex.new_obj(st, 'key', 16, 'arg', mem.BV(concat(*kb)), wr=False)
    ctxs = [context(ex, st, o, size, n) for n in ('enc', 'dec')]
    st, r = one(ex.call(st, P + 'gen_table', ctxs + [key, C64(16)]), 'gen_table')
    X = [var(8, 'X%d' % i) for i in range(16)]
    ks = M.aes(X, AES.expand(kb))
    inv = [[M.token([ex.load(st, add(cx, C64(o['L1'] + 8 * i + k)), 1) for k in range(8)], 8) for i in range(16)] for cx in ctxs]
    for i in range(16):
        ex.oblige(st, TRUE if M.inv.get(inv[0][i]) == inv[1][i] else FALSE, 'postcondition', 'maps %d of the two contexts are inverse' % i)
    for side, ctx in enumerate(ctxs):
        ex.oblige(st, eq(ex.load(st, add(ctx, C64(o['encMode'])), 4), C32(1 - side)), 'postcondition', 'encMode')
        s2 = st.fork()
        inp = ex.new_obj(s2, 'in', 16, 'arg', mem.BV(concat(*X)), wr=False)
        out = ex.new_obj(s2, 'out', 16, 'arg', mem.Sym('out0'))
        s2, r = one(ex.call(s2, '@aux_WBCRYPTO_wbaes_wbgcm_mask_encrypt', [inp, out, ctx]), 'encrypt')
        got, want = [], []
        for i in range(16):
            b = var(8, 'B%d' % i)
            e = at8(ex, s2, add(ctx, C64(o['GBOX_TypeII'] + 256 * i)), ex.load(s2, add(out, C64(i)), 1))
            m = at8(ex, s2, add(ctx, C64(o['GBOX_TypeI'] + 256 * i)), b)
            g = box3(ex, s2, ctx, o, i, m, e)
            # encryption: A(b ^ ks) for A = dec.L1; decryption: B(b) ^ ks for B = enc.L1
            got.append(xor(M.app(inv[0][i], g), b) if side == 0 else xor(g, M.app(inv[0][i], b)))
        M.same_sets(s2, got, ks, ('encryption', 'decryption')[side] + ' boxes')


class Mask(Plain):
    """contract of the tables, proved by the unit above: with a the cipher output byte as the cipher function stores
    it, TypeIII(TypeI(b), TypeII(a)) is A(b ^ a) in an encryption context and B(b) ^ a in a decryption context, where
    A = dec.L1, B = enc.L1 are inverse"""
    N, MULT, BLK = P, '@wbgcm_mult', '@aux_WBCRYPTO_wbaes_wbgcm_mask_encrypt'
    F = ['src/wbaes/wbaes_wbgcm_mask_mode.c']
    bad = -1

    def __init__(self, side):
        self.side = side
        self.layout = lambda: Layout('struct wbgcm_mask_context', HDR)

    def A(self, i, x):
        return tm.uf(('mA', i), 8, x)

    def B(self, i, x):
        return tm.uf(('mB', i), 8, x)

    def key(self, ex, st):
        o, size = keylayout()
        tm.UF_RULES['mA'] = tm.UF_RULES['mB'] = ab_rule
        tm.UF_RULES['k3'] = k3_rule
        side = self.side

        def fn(off):
            lo, hi = tm.umin(off), tm.umax(off)
            for nm, f in (('GBOX_TypeI', 'k1'), ('GBOX_TypeII', 'k2')):
                b = o[nm]
                if lo >= b and hi < b + 4096 and (lo - b) >> 8 == (hi - b) >> 8:
                    return tm.uf((f, (lo - b) >> 8), 8, ext(tm.urem(sub(off, C64(b)), C64(256)), 7, 0))
            if off.op == 'const' and o['L1'] <= lo < o['L1'] + 128:
                return tm.sel('L1bytes', off)
            raise sym.EngineLimit('access to white-box tables other than one row of a GBOX table')
        key = ex.new_obj(st, 'key', size, 'arg', mem.Fn(fn))

        def box(i):
            return mem.Fn(lambda off: tm.uf(('k3', i, side), 8, ext(tm.udiv(off, C64(256)), 7, 0), ext(tm.urem(off, C64(256)), 7, 0)))
        ex.store(st, add(key, C64(o['GBOX_TypeIII'])), rows(ex, st, 'box', box, wr=False))
        ex.store(st, add(key, C64(o['encMode'])), C32(1 - side))
        st.objs[tm.is_ptr_base(key)[0].v].wr = False
        mats = [concat(*[tm.sel('L1bytes', C64(o['L1'] + 8 * i + k)) for k in range(8)][::-1]) for i in range(16)]

        def num8(ex, st, a):
            for i in range(16):
                if a[0] is mats[i]:
                    return (self.A if side else self.B)(i, a[1])
            raise sym.EngineLimit('matrix other than one of the context')
        ex.contracts['@MatMulNumM8'] = num8
        return key

    def stored(self, v):
        return concat(*[tm.uf(('ke', i), 8, byte(v, i)) for i in range(16)])

    def base(self, v):
        return concat(*[tm.uf(('k2', i), 8, tm.uf(('ke', i), 8, byte(v, i))) for i in range(16)])

    def out(self, i, ks, b):
        return xor(self.B(i, b), ks) if self.side else self.A(i, xor(b, ks))

    def tag(self, i, e, s):
        return self.A(i, xor(e, s))


def ab_rule(name, w, args):
    x = args[0]
    if x.op == 'const' and x.v == 0:
        return x
    if x.op == 'uf' and isinstance(x.v, tuple) and {x.v[0], name[0]} == {'mA', 'mB'} and x.v[1] == name[1]:
        return x.args[0]
    return None


def k3_rule(name, w, args):
    b, a = args
    i = name[1]
    if all(t.op == 'uf' and isinstance(t.v, tuple) for t in args) and b.v == ('k1', i) and a.v == ('k2', i):
        a = a.args[0]
        if a.op == 'uf' and a.v == ('ke', i):
            a, b = a.args[0], b.args[0]
            return xor(tm.uf(('mB', i), 8, b), a) if name[2] else tm.uf(('mA', i), 8, xor(b, a))
    return None


def u_alloc(c):
    """the allocated tables have the shape the other units assume: 16 x 256 separate rows of 256 bytes"""
    c.need(P + 'init_table')
    o, size = keylayout()
    ex = c.exec()
    ex.no_summary = True
    st = sym.State()
    st, r = one(ex.call(st, P + 'init_table', []), 'init_table')

    def heap(p, n, what):
        b = tm.is_ptr_base(p)
        if b is None or p is not b[0]:
            raise sym.EngineLimit(what + ' is not the start of an object')
        ob = st.objs[b[0].v]
        ex.oblige(st, TRUE if ob.alive and ob.kind == 'heap' else FALSE, 'postcondition', what + ' is a live allocation')
        ex.oblige(st, ule(C64(n), ob.size if isinstance(ob.size, tm.T) else C64(ob.size)), 'postcondition', what + ' is large enough')
        return b[0].v
    names = [heap(r, size, 'context')]
    t = ex.load(st, add(r, C64(o['GBOX_TypeIII'])), 8)
    names.append(heap(t, 128, 'table'))
    for i in range(16):
        rr = ex.load(st, add(t, C64(8 * i)), 8)
        names.append(heap(rr, 2048, 'row pointers'))
        for j in range(256):
            names.append(heap(ex.load(st, add(rr, C64(8 * j)), 8), 256, 'row'))
    ex.oblige(st, TRUE if len(set(names)) == len(names) else FALSE, 'postcondition', 'all rows are separate')


def u_lemma(c):
    ex = c.exec()
    st = sym.State()
    tm.UF_RULES['mA'] = tm.UF_RULES['mB'] = ab_rule
    m, k = var(8, 'm'), var(8, 'ks')
    for i in range(16):
        ex.oblige(st, eq(DEC.out(i, k, ENC.out(i, k, m)), m), 'lemma', 'decryption undoes encryption, byte %d' % i)
        ex.oblige(st, eq(DEC.tag(i, k, m), ENC.tag(i, k, m)), 'lemma', 'both sides compute the same tag, byte %d' % i)


ENC, DEC = Mask(0), Mask(1)
MF = ENC.F
UNITS = [Unit('tables', u_tables, F, budget=840), Unit('allocation', u_alloc, F), Unit('lemma', u_lemma, F)] + \
    groups('encrypt', False, ENC, False) + groups('decrypt', True, DEC, False) + [
    Unit(n + s, f(V), MF) for V, s in ((ENC, ', encryption context'), (DEC, ', decryption context')) for n, f in (
        ('setiv', lambda V: u_setiv(['12'] + list(range(16)), V=V)), ('aad', lambda V: u_aad(range(16), V)), ('finish', u_finish), ('hash tables', u_init))] + [
    Unit('mult', u_mult('no', ENC), MF),
    Unit('mult in place', u_mult('same', ENC), MF),
    Unit('mult inside the context', u_mult('ctx', ENC), MF),
]
H = Harness('p10.c', F + MF + ['src/utils/wrandom.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c'], quick_s=12, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P10', UNITS, H, assumptions=[
        'wbgcm_mult contract: ghmul is the product with the hash key (units mult and hash tables here, product lemma in P05)',
        'contracts of the WBMatrix functions and of genPermutation4/8: proved by P13 and P14',
        'the rows of GBOX_TypeIII are modelled as consecutive slices of one object per box; unit allocation shows that they are separate 256-byte arrays']))
