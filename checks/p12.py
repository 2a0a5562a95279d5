from linmaps import *
from modes import one
from p01 import modes
import gcmctx

F = ['src/se_wbsm4/se_wbsm4.c', 'src/se_wbsm4/se_wbsm4_local.c']
N = 2039
P = '@WBCRYPTO_se_wbsm4_'


def par(x):
    return bin(x).count('1') & 1


def apply8(rows, v, x):
    r = 0
    for i in range(8):
        r = r << 1 | par(rows[i] & x)
    return r ^ v


def u_pairs(c):
    """SE_initial stores self-equivalences of the S-box: B(S(A(x))) = S(x), A and B invertible"""
    c.need('@SE_initial')
    ex = c.exec()
    st = sym.State()
    a, b = ex.obj_of(st, '@A'), ex.obj_of(st, '@B')
    if a is None or b is None or a.size.v % 9 or a.size is not b.size:
        raise sym.EngineLimit('the arrays A and B of affine maps')
    n = a.size.v // 9
    st, r = one(ex.call(st, '@SE_initial', []), 'SE_initial')

    def get(name):
        bs = ex.content_bytes(st, name, C64(0), 9 * n)
        if any(x.op != 'const' for x in bs):
            raise sym.EngineLimit('bytes of %s that are not constant' % name)
        return [x.v for x in bs]
    A, B = get('@A'), get('@B')
    ex.oblige(st, const(1, int(n == N)), 'postcondition', 'there are 2039 pairs')
    S = S4.S
    for i in range(n):
        ra, va, rb, vb = A[9 * i:9 * i + 8], A[9 * i + 8], B[9 * i:9 * i + 8], B[9 * i + 8]
        fa = [apply8(ra, va, x) for x in range(256)]
        fb = [apply8(rb, vb, x) for x in range(256)]
        ex.oblige(st, const(1, int(all(fb[S[fa[x]]] == S[x] for x in range(256)))), 'postcondition', 'pair %d is a self-equivalence of the S-box' % i)
        ex.oblige(st, const(1, int(len(set(fa)) == 256 and len(set(fb)) == 256)), 'postcondition', 'the maps of pair %d are bijections' % i)
    # calling it again changes nothing
    m = dict((k, get(k)) for k in ('@A', '@B'))
    st, r = one(ex.call(st, '@SE_initial', []), 'SE_initial')
    ex.oblige(st, const(1, int(all(get(k) == m[k] for k in m))), 'postcondition', 'SE_initial is idempotent')


def setkey(ex, encm, decm, rk, keyp, klen, calls):
    def init(ex, st, a):
        o = ex.new_obj(st, 'sm4 key', 128, 'heap', mem.Sym('rkjunk'))
        return o

    def kinit(ex, st, a):
        ex.oblige(st, band(eq(a[1], keyp), eq(a[2], klen)), 'call-precondition', 'key and length are passed on')
        m = a[3]
        if m.op != 'const' or m.v not in (encm, decm):
            raise sym.EngineLimit('mode of the key schedule')
        ks = rk if m.v == encm else rk[::-1]
        for i in range(32):
            ex.store(st, add(a[0], C64(4 * i)), ks[i])
        calls.append(m.v)
        return C32(1)
    ex.contracts['@WBCRYPTO_sm4_context_init'] = init
    ex.contracts['@aux_sm4_init_key'] = kinit
    ex.contracts['@WBCRYPTO_sm4_init_key'] = lambda ex, st, a: kinit(ex, st, a + [C32(encm)])
    ex.contracts['@WBCRYPTO_sm4_context_free'] = lambda ex, st, a: None


def u_crypt(c):
    c.need(P + 'context_init', P + 'gen_table', P + 'encrypt', P + 'decrypt')
    encm, decm = modes()
    for mode, fn in ((encm, 'encrypt'), (decm, 'encrypt'), (decm, 'decrypt')):
        ex = c.exec()
        ex.no_summary = True
        M = Maps(ex)

        def se_initial(ex, st, a):
            for g, s in (('@A', 'SEA'), ('@B', 'SEB')):
                o = ex.obj_of(st, g)
                st.mem[g] = mem.Sym(s)
            return None
        ex.contracts['@SE_initial'] = se_initial
        st = sym.State()
        rk = [var(32, 'rk%d' % i) for i in range(32)]
        klen = var(64, 'keylen')
        key = ex.new_obj(st, 'key', 16, 'arg', mem.Sym('key0'), wr=False)
        calls = []
        setkey(ex, encm, decm, rk, key, klen, calls)
        rs = [(s, r) for s, r in ex.call(st, P + 'context_init', [C32(mode)]) if not (r.op == 'const' and r.v == 0)]
        st, ctx = one(rs, 'context_init')
        st, r = one(ex.call(st, P + 'gen_table', [ctx, key, klen]), 'gen_table')
        ret_is(ex, st, r, 1, 'gen_table')
        want = M.sm4([var(32, 'X%d' % i) for i in range(4)], rk if mode == encm else rk[::-1])
        for inplace in (False, True):
            s2 = st.fork()
            X = concat(*[var(32, 'X%d' % i) for i in range(4)])
            inp = ex.new_obj(s2, 'in', 16, 'arg', mem.BV(X), wr=inplace)
            out = inp if inplace else ex.new_obj(s2, 'out', 16, 'arg', mem.Sym('out0'))
            s2, r = one(ex.call(s2, P + fn, [inp, out, ctx]), fn)
            ret_is(ex, s2, r, 1, fn)
            got = [ex.load(s2, add(out, C64(i)), 1) for i in range(16)]
            M.same_bytes(s2, got, want, '%s with a context for %s%s' % (fn, 'encryption' if mode == encm else 'decryption', ', in place' if inplace else ''))


UNITS = [Unit('self-equivalences', u_pairs, F, budget=400), Unit('encryption', u_crypt, F, budget=300)]
H = Harness('p12.c', F + ['src/sm4/sm4.c', 'src/utils/padding.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c'], quick_s=5, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P12', UNITS, H))
