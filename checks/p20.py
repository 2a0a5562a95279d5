from common import *

F = ['src/utils/padding.c']
NMAX = 1 << 36


def one(ex, rs, fn):
    if len(rs) != 1:
        raise sym.EngineLimit('%s: %d return paths' % (fn, len(rs)))
    return rs[0]


def keypad(fn, pkcs):
    def f(c):
        c.need(fn)
        for n in list(range(17)) + [None]:
            ex = c.exec()
            st = sym.State()
            ln = C64(n) if n is not None else var(64, 'n', 17, NMAX)
            src = ex.new_obj(st, 'src', ln, 'arg', mem.Sym('src0'), wr=False)
            dst = ex.new_obj(st, 'dst', 16, 'arg', mem.Sym('dst0'))
            st, r = one(ex, ex.call(st, fn, [src, ln, dst]), fn)
            ret_is(ex, st, r, 16, fn)
            m = 16 if n is None else n
            for i in range(16):
                want = tm.sel('src0', C64(i)) if i < m else const(8, 16 - m if pkcs else 0)
                ex.oblige(st, eq(ex.load(st, add(dst, C64(i)), 1), want), 'postcondition', '%s: byte %d for key length %s' % (fn, i, 'over 16' if n is None else n))
    return f


def padlen(n):
    return tm.band_(add(n, C64(15)), C64(~15 & (2**64 - 1))) if hasattr(tm, 'band_') else tm.mulc(tm.udiv(add(n, C64(15)), C64(16)), 16)


def u_merge(c):
    for fn in ('@WBCRYPTO_padding_pkcs7_merge_length', '@WBCRYPTO_padding_pkcs7_merge'):
        c.need(fn)
        for empty in (True, False):
            ex = c.exec()
            st = sym.State()
            n = C64(0) if empty else var(64, 'n', 1, NMAX)
            pl = padlen(n)
            src = ex.new_obj(st, 'src', n, 'arg', mem.Sym('src0'), wr=False)
            a = [src, n]
            if not fn.endswith('length'):
                dst = ex.new_obj(st, 'dst', pl, 'arg', mem.Sym('dst0'))
                a.append(dst)
            st, r = one(ex, ex.call(st, fn, a), fn)
            ex.oblige(st, eq(r, pl), 'postcondition', fn + ': returned length is the next multiple of 16')
            if empty or len(a) == 2:
                continue
            i = var(64, 'i', 0, NMAX)
            st.assume(ult(i, pl))
            b = ex.load(st, add(dst, i), 1)
            want = ite(ult(i, n), tm.sel('src0', i), ext(sub(pl, n), 7, 0))
            ex.oblige(st, eq(b, want), 'postcondition', fn + ': byte i is message byte i or the PKCS#7 fill')


def u_sep(c):
    """the padded buffer: any whole number of blocks"""
    for fn in ('@WBCRYPTO_padding_pkcs7_separate_length', '@WBCRYPTO_padding_pkcs7_separate'):
        c.need(fn)
        for empty in (True, False):
            ex = c.exec()
            st = sym.State()
            q = var(64, 'q', 1, NMAX >> 4)
            n = C64(0) if empty else tm.mulc(q, 16)
            src = ex.new_obj(st, 'src', n, 'arg', mem.Sym('src0'), wr=False)
            if empty:
                want = C64(0)
            else:
                last = tm.sel('src0', sub(n, C64(1)))
                want = ite(ule(last, const(8, 16)), sub(n, zext(last, 64)), n)
            a = [src, n]
            if not fn.endswith('length'):
                dst = ex.new_obj(st, 'dst', want, 'arg', mem.Sym('dst0'))
                a.append(dst)
            st, r = one(ex, ex.call(st, fn, a), fn)
            ex.oblige(st, eq(r, want), 'postcondition', fn + ': the announced number of fill bytes is removed')
            if empty or len(a) == 2:
                continue
            i = var(64, 'i', 0, NMAX)
            st.assume(ult(i, want))
            ex.oblige(st, eq(ex.load(st, add(dst, i), 1), tm.sel('src0', i)), 'postcondition', fn + ': byte i is kept')


def u_roundtrip(c):
    """separate after merge on the real code, message length n not a multiple of 16, or aligned with last byte outside 1..16"""
    for kind in ('unaligned', 'aligned'):
        ex = c.exec()
        st = sym.State()
        q = var(64, 'q', 0 if kind == 'unaligned' else 1, NMAX >> 4)
        n = tm.mulc(q, 16)
        if kind == 'unaligned':
            r_ = var(64, 'rr', 1, 15)
            n = add(n, r_)
        pl = padlen(n)
        src = ex.new_obj(st, 'src', n, 'arg', mem.Sym('src0'), wr=False)
        mid = ex.new_obj(st, 'mid', pl, 'arg', mem.Sym('mid0'))
        if kind == 'aligned':
            last = tm.sel('src0', sub(n, C64(1)))
            st.assume(bor(eq(last, const(8, 0)), ult(const(8, 16), last)))
        st, r = one(ex, ex.call(st, '@WBCRYPTO_padding_pkcs7_merge', [src, n, mid]), 'merge')
        dst = ex.new_obj(st, 'dst', n, 'arg', mem.Sym('dst0'))
        st, r2 = one(ex, ex.call(st, '@WBCRYPTO_padding_pkcs7_separate', [mid, r, dst]), 'separate')
        ex.oblige(st, eq(r2, n), 'lemma', 'separate(merge(m)) has the length of m (%s)' % kind)
        i = var(64, 'i', 0, NMAX)
        st.assume(ult(i, n))
        ex.oblige(st, eq(ex.load(st, add(dst, i), 1), tm.sel('src0', i)), 'lemma', 'separate(merge(m)) = m (%s)' % kind)


UNITS = [
    Unit('key padding PKCS#7', keypad('@WBCRYPTO_key_padding_pkcs7', True), F),
    Unit('key padding zeros', keypad('@WBCRYPTO_key_padding_zeros', False), F),
    Unit('message padding', u_merge, F, 'any length up to 2^36'),
    Unit('padding removal', u_sep, F, 'any whole number of blocks up to 2^36'),
    Unit('round trip', u_roundtrip, F, 'aligned messages ending in a byte 1..16 are the known finding'),
]
H = Harness('p20.c', F, quick_s=3)
if __name__ == '__main__':
    sys.exit(main('P20', UNITS, H))
