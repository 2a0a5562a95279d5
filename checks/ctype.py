"""contracts of the <ctype.h>/<string.h> functions the text code uses (C locale)"""
from common import *
import ctypes

_libc = ctypes.CDLL(None)
_libc.__ctype_b_loc.restype = ctypes.POINTER(ctypes.POINTER(ctypes.c_ushort))


def ctype_table():
    p = _libc.__ctype_b_loc()[0]
    base = ctypes.addressof(p.contents) - 256
    raw = (ctypes.c_ushort * 384).from_address(base)
    return b''.join(int(x).to_bytes(2, 'little') for x in raw)


def b_loc(ex, st, a):
    if 'ctype' not in st.ghost:
        t = ex.new_obj(st, 'ctype_b', 768, 'const', mem.Bytes(ctype_table()), wr=False)
        p = ex.new_obj(st, 'ctype_p', 8, 'const', mem.Sym('ctype_p'))
        ex.store(st, p, add(t, C64(256)))
        st.ghost['ctype'] = p
    return st.ghost['ctype']


def isclass(pred):
    def h(ex, st, a):
        c = a[0]
        return ite(pred(c), C32(1), C32(0))
    return h


def rng(lo, hi):
    return lambda c: band(ule(const(c.w, ord(lo)), c), ule(c, const(c.w, ord(hi))))


def strlen(ex, st, a):
    """length of the string: the first zero byte at or after the pointer"""
    cs = ex.ptr_cases(a[0], st)
    if cs is None or len(cs) != 1:
        raise sym.EngineLimit('strlen of an unresolved pointer')
    n = C64(0)
    k = 0
    found = []
    while True:
        b = ex.load(st, add(a[0], C64(k)), 1)
        z = ex.decide(eq(b, const(8, 0)), st)
        if z is TRUE:
            r = C64(k)
            for kk, cond in found[::-1]:
                r = ite(cond, C64(kk), r)
            return r
        if z is not FALSE:
            found.append((k, z if isinstance(z, tm.T) else eq(b, const(8, 0))))
        k += 1
        if k > 2000:
            raise sym.EngineLimit('strlen: no terminator found')


def strcmp(ex, st, a):
    k = 0
    while True:
        x, y = ex.load(st, add(a[0], C64(k)), 1), ex.load(st, add(a[1], C64(k)), 1)
        d = ex.decide(eq(x, y), st)
        if d is FALSE:
            return ite(ult(x, y), C32(0xffffffff), C32(1))
        if d is not TRUE:
            # the strings may differ here: only equality with a known string is used
            rest = eq(x, y)
            if x.op == 'const' and x.v == 0 or y.op == 'const' and y.v == 0:
                return ite(rest, C32(0), ite(ult(x, y), C32(0xffffffff), C32(1)))
            raise sym.EngineLimit('strcmp of unknown strings')
        if x.op == 'const' and x.v == 0 or y.op == 'const' and y.v == 0:
            return C32(0)
        k += 1


TEXT = {'@__ctype_b_loc': b_loc, '@isdigit': isclass(rng('0', '9')), '@isupper': isclass(rng('A', 'Z')), '@islower': isclass(rng('a', 'z')),
        '@strlen': strlen, '@strcmp': strcmp}
