from ctype import *
from modes import one

F = ['src/fpe_app/utf8_util.c']
R = 12 ** 4


def mk(c):
    ex = c.exec()
    ex.contracts.update(TEXT)
    st = sym.State()
    b_loc(ex, st, [])
    return ex, st


def b8(name, lo, hi):
    return tm.trunc(var(32, name, lo, hi), 8)


def u_utf8(c):
    """three UTF-8 bytes <-> code point"""
    c.need('@utf8CharToUint32', '@utf8Uint32ToChar')
    ex, st = mk(c)
    s = [b8('s0', 0xe0, 0xef), b8('s1', 0x80, 0xbf), b8('s2', 0x80, 0xbf)]
    p = ex.new_obj(st, 'str', 3, 'arg', mem.BV(concat(*s)), wr=False)
    q = ex.new_obj(st, 'out', 3, 'arg', mem.Sym('out0'))
    st, uc = one(ex.call(st, '@utf8CharToUint32', [p]), 'utf8CharToUint32')
    cp = concat(const(16, 0), ext(s[0], 3, 0), ext(s[1], 5, 0), ext(s[2], 5, 0))
    ex.oblige(st, eq(uc, cp), 'postcondition', 'utf8CharToUint32 is the code point')
    st, r = one(ex.call(st, '@utf8Uint32ToChar', [uc, q]), 'utf8Uint32ToChar')
    for i in range(3):
        ex.oblige(st, eq(ex.load(st, add(q, C64(i)), 1), s[i]), 'postcondition', 'code point back to byte %d of the character' % i)
    ex, st = mk(c)
    u = var(32, 'uc', 0, 0xffff)
    q = ex.new_obj(st, 'out', 3, 'arg', mem.Sym('out0'))
    st, r = one(ex.call(st, '@utf8Uint32ToChar', [u, q]), 'utf8Uint32ToChar')
    st, v = one(ex.call(st, '@utf8CharToUint32', [q]), 'utf8CharToUint32')
    ex.oblige(st, eq(v, u), 'postcondition', 'code point -> bytes -> code point')


def u_int(c):
    c.need('@utf8Uint32ToInt', '@utf8IntToUint32')
    ex, st = mk(c)
    u = var(32, 'uc')
    st, i = one(ex.call(st, '@utf8Uint32ToInt', [u]), 'utf8Uint32ToInt')
    ex.oblige(st, eq(i, sub(u, C32(0x4e00))), 'postcondition', 'index of the character in the range')
    st, v = one(ex.call(st, '@utf8IntToUint32', [i]), 'utf8IntToUint32')
    ex.oblige(st, eq(v, u), 'postcondition', 'index back to the code point')
    st, v = one(ex.call(st, '@utf8IntToUint32', [u]), 'utf8IntToUint32')
    st, i = one(ex.call(st, '@utf8Uint32ToInt', [v]), 'utf8Uint32ToInt')
    ex.oblige(st, eq(i, u), 'postcondition', 'code point back to the index')


def digit(t):
    """base-12 digit character"""
    return tm.trunc(ite(ult(t, C32(10)), add(t, C32(48)), add(t, C32(87))), 8)


def u_dig(lo, hi):
    """every index in [lo, hi): digits are the base-12 digits, little end first, and convert back"""
    def f(c):
        c.need('@utf8IntToCharDuodecimal', '@utf8CharDuodecimalToInt')
        for v in range(lo, hi):
            ex, st = mk(c) if not hasattr(c, '_ex') else (c._ex[0], c._ex[1].fork())
            c._ex = ex, st.fork()
            q = ex.new_obj(st, 'digits', 5, 'arg', mem.Sym('out0'))
            for st, _ in ex.call(st, '@utf8IntToCharDuodecimal', [C32(v), q]):
                for i in range(4):
                    d = v // 12 ** i % 12
                    ex.oblige(st, eq(ex.load(st, add(q, C64(i)), 1), const(8, ord('0123456789ab'[d]))), 'postcondition', 'digit %d of index %d' % (i, v))
                ex.store_bytes(st, add(q, C64(4)), [const(8, 0)])
                st, r = one(ex.call(st, '@utf8CharDuodecimalToInt', [q]), 'utf8CharDuodecimalToInt')
                ex.oblige(st, eq(r, C32(v)), 'postcondition', 'digits of %d convert back' % v)
    return f


def u_text(c):
    """a digit group inside a longer text: only its four digits matter"""
    c.need('@utf8CharDuodecimalToInt')
    for more in (0, 1, 4, 8):
        ex, st = mk(c)
        ds = [var(32, 'd%d' % i, 0, 11) for i in range(4)]
        p = ex.new_obj(st, 'text', 5 + more, 'arg', mem.BV(concat(*([digit(d) for d in ds] + [digit(var(32, 'm%d' % i, 0, 11)) for i in range(more)] + [const(8, 0)]))), wr=False)
        st, r = one(ex.call(st, '@utf8CharDuodecimalToInt', [p]), 'utf8CharDuodecimalToInt')
        want = C32(0)
        for d in ds[::-1]:
            want = add(tm.mulc(want, 12), d)
        ex.oblige(st, eq(r, want), 'postcondition', 'value of the group with %d digits after it' % more)


N = 8
UNITS = [
    Unit('UTF-8 bytes and code point', u_utf8, F, 'all three-byte characters'),
    Unit('code point and index', u_int, F, 'all 32-bit values'),
    Unit('digit group in a text', u_text, F, 'all digits'),
] + [Unit('index and digits, part %d' % (i + 1), u_dig(R * i // N, R * (i + 1) // N), F, 'every index of the range, one by one') for i in range(N)]
H = Harness('p19.c', F, quick_s=3)
if __name__ == '__main__':
    sys.exit(main('P19', UNITS, H, assumptions=['C locale for isdigit/isupper/islower']))
