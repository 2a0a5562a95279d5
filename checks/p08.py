import gc
from linmaps import *
from modes import one

F = ['src/wbaes/wbaes.c', 'src/wbaes/wbaes_local.c']
P = '@WBCRYPTO_wbaes_'


def u_crypt(c):
    gc.disable()        # nothing here is garbage, collecting only costs time
    c.need(P + 'context_init', P + 'gen_table', P + 'encrypt')
    ex = c.exec()
    ex.summary_min = 200
    ex.summary_nest = True
    M = Maps(ex, AES.S)
    st = sym.State()
    kb = [var(8, 'key%d' % i) for i in range(16)]
    key = ex.new_obj(st, 'key', 16, 'arg', mem.BV(concat(*kb)), wr=False)
    st, ctx = one(ex.call(st, P + 'context_init', []), 'context_init')
    st, r = one(ex.call(st, P + 'gen_table', [ctx, key, C64(16)]), 'gen_table')
    ret_is(ex, st, r, 1, 'gen_table')
    X = [var(8, 'X%d' % i) for i in range(16)]
    want = M.aes(X, AES.expand(kb))
    for inplace in (False, True):
        s2 = st.fork()
        inp = ex.new_obj(s2, 'in', 16, 'arg', mem.BV(concat(*X)), wr=inplace)
        out = inp if inplace else ex.new_obj(s2, 'out', 16, 'arg', mem.Sym('out0'))
        s2, r = one(ex.call(s2, P + 'encrypt', [inp, out, ctx]), 'encrypt')
        ret_is(ex, s2, r, 1, 'encrypt')
        got = [ex.load(s2, add(out, C64(i)), 1) for i in range(16)]
        M.same_sets(s2, got, want, 'encrypt' + (', in place' if inplace else ''))


UNITS = [Unit('encryption', u_crypt, F, budget=700)]
H = Harness('p08.c', F + ['src/utils/wrandom.c', 'src/utils/padding.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c'], quick_s=6, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P08', UNITS, H))
