from linmaps import *
from modes import one
from p01 import modes
from p12 import setkey

F = ['src/wbsm4/wbsm4.c', 'src/wbsm4/wbsm4_gen.c']
P = '@WBCRYPTO_wbsm4_'


def run_case(c, mode, fns, order, inplace):
    """order: the shuffled array of real (0) and dummy (1) rounds"""
    encm, decm = modes()
    ex = c.exec()
    ex.summary_min = 200
    M = Maps(ex)

    def shuffle(ex, st, a):
        n = len(order)
        ex.oblige(st, eq(a[1], const(a[1].w, n)), 'call-precondition', 'number of rounds shuffled')
        bs = [ex.load(st, add(a[0], C64(i)), 1) for i in range(n)]
        if any(b.op != 'const' for b in bs):
            raise sym.EngineLimit('rounds that are not constant')
        ex.oblige(st, const(1, int(sorted(b.v for b in bs) == sorted(order))), 'call-precondition', 'the array has 32 real rounds and the dummy rounds')
        ex.store_bytes(st, a[0], [const(8, o) for o in order], 'shuffle')
        return None
    ex.contracts['@wRandomShuffleU8'] = shuffle
    st = sym.State()
    rk = [var(32, 'rk%d' % i) for i in range(32)]
    klen = var(64, 'keylen')
    key = ex.new_obj(st, 'key', 16, 'arg', mem.Sym('key0'), wr=False)
    setkey(ex, encm, decm, rk, key, klen, [])
    st, ctx = one(ex.call(st, P + 'context_init', [C32(mode), C32(len(order) - 32)]), 'context_init')
    st, r = one(ex.call(st, P + 'gen_table', [ctx, key, klen]), 'gen_table')
    ret_is(ex, st, r, 1, 'gen_table')
    want = M.sm4([var(32, 'X%d' % i) for i in range(4)], rk if mode == encm else rk[::-1])
    for fn in fns:
        s2 = st.fork()
        X = concat(*[var(32, 'X%d' % i) for i in range(4)])
        inp = ex.new_obj(s2, 'in', 16, 'arg', mem.BV(X), wr=inplace)
        out = inp if inplace else ex.new_obj(s2, 'out', 16, 'arg', mem.Sym('out0'))
        s2, r = one(ex.call(s2, P + fn, [inp, out, ctx]), fn)
        ret_is(ex, s2, r, 1, fn)
        got = [ex.load(s2, add(out, C64(i)), 1) for i in range(16)]
        M.same_bytes(s2, got, want, '%s with a context for %s, rounds %s%s' % (fn, 'encryption' if mode == encm else 'decryption', ''.join(map(str, order)), ', in place' if inplace else ''))


NEED = [P + x for x in ('context_init', 'gen_table', 'encrypt', 'decrypt')]


def u_enc(c):
    c.need(*NEED)
    encm, decm = modes()
    run_case(c, encm, ('encrypt',), [0] * 32, False)


def u_dec(c):
    c.need(*NEED)
    encm, decm = modes()
    run_case(c, decm, ('encrypt', 'decrypt'), [0] * 32, True)


def dummies(places, n):
    o = [0] * 32
    for p in sorted(places, reverse=True):
        o.insert(p, 1)
    return o


def u_dummy(places):
    """dummy rounds inserted before these rounds"""
    def u(c):
        c.need(*NEED)
        c.mark_bounded('dummy rounds before the rounds %s' % (list(places),))
        encm, decm = modes()
        run_case(c, encm if len(places) % 2 else decm, ('encrypt',), dummies(places, len(places)), False)
    return u


QUICK = [(0,), (13,), (32,), (31, 32), (0, 0, 17)]
MORE = [(i,) for i in range(33) if (i,) not in QUICK] + [(0, 32), (5, 5), (1, 2, 3, 4), (32, 32, 32)]


def units():
    us = [Unit('encryption', u_enc, F, budget=600), Unit('decryption', u_dec, F, budget=600)]
    qs = list(QUICK)
    if os.environ.get('VERIF_TIER') == 'thorough' or '--thorough' in sys.argv:
        qs += MORE
    for p in qs:
        us.append(Unit('dummy rounds before %s' % ','.join(map(str, p)), u_dummy(p), F, bounded=True, budget=600))
    return us


UNITS = units()
H = Harness('p11.c', F + ['src/sm4/sm4.c', 'src/utils/wrandom.c', 'src/utils/padding.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c'], quick_s=6, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P11', UNITS, H))
