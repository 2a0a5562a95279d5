"""contracts shared by the mode proofs"""
from common import *

NMAX = 1 << 36


def E(x, name='E'):
    return tm.raw_uf(name, 128, x)


def byte(t, i):
    """i-th byte (big-endian order) of a 128-bit term"""
    n = t.w // 8
    return ext(t, 8 * (n - i) - 1, 8 * (n - i) - 8)


def be_block(arr, base):
    return concat(*[tm.sel(arr, add(base, C64(i))) for i in range(16)])


def cipher(key, name='E', failing=False):
    """contract of the block function: reads 16 bytes, writes 16 bytes, returns success"""
    def h(ex, st, a):
        ex.oblige(st, eq(a[2], key), 'call-precondition', 'the block cipher gets the caller\'s key')
        x = ex.load_be(st, a[0], 16)
        ex.store_be(st, a[1], E(x, name))
        if failing:
            r = tm.fresh(32, 'cret', 0, 1)
            st.ghost['failed'] = bor(st.ghost.get('failed', FALSE), eq(r, C32(0)))
            return r
        return C32(1)
    return h


def fnptr(name):
    return tm.addr('fn:' + name)


def one(rs, fn):
    if len(rs) != 1:
        raise sym.EngineLimit('%s: %d return paths' % (fn, len(rs)))
    return rs[0]


from engine import loops


def pick(block, j):
    """byte j (64-bit term 0..15) of a block, big-endian order"""
    if j.op == 'const':
        return byte(block, j.v)
    r = byte(block, 15)
    for i in range(15):
        r = ite(eq(j, C64(i)), byte(block, i), r)
    return r
