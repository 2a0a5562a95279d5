"""GF(2^128) with the GCM bit order: bit 0 of the polynomial is the most significant bit of the block"""
from engine import terms as tm
from engine.terms import const, ext, xor, ite, concat, eq

R = 0xe1 << 120


def mulx(v):
    """multiply by x: shift right, reduce"""
    sh = concat(const(1, 0), ext(v, 127, 1))
    return xor(sh, ite(eq(ext(v, 0, 0), const(1, 1)), const(128, R), const(128, 0)))


def mulxn(v, n):
    for _ in range(n):
        v = mulx(v)
    return v


def nib(n, H):
    """product of the 4-bit polynomial n (bit 3 = x^0) with H"""
    r = const(128, 0)
    v = H
    for b in range(4):
        r = xor(r, ite(eq(ext(n, 3 - b, 3 - b), const(1, 1)), v, const(128, 0)))
        v = mulx(v)
    return r


def product(x, H):
    """SP 800-38D algorithm 1"""
    z = const(128, 0)
    v = H
    for i in range(128):
        z = xor(z, ite(eq(ext(x, 127 - i, 127 - i), const(1, 1)), v, const(128, 0)))
        v = mulx(v)
    return z


def nibbles(x):
    return [ext(x, 127 - 4 * j, 124 - 4 * j) for j in range(32)]


def by_table(x, T):
    """sum of x^(4j) T(nibble j), by Horner"""
    z = const(128, 0)
    for n in reversed(nibbles(x)):
        z = xor(mulxn(z, 4), T(n))
    return z


def cmul(x, y):
    z, v = 0, y
    for i in range(128):
        if x >> (127 - i) & 1:
            z ^= v
        v = (v >> 1) ^ (R if v & 1 else 0)
    return z


def selftest():
    H = 0x66e94bd4ef8a2c3b884cfa59ca342b2e
    X = 0x0388dace60b6a392f328c2b971b2fe78
    assert cmul(X, H) == 0x5e2ec746917062882c85b0685353deb7
    assert product(const(128, X), const(128, H)).v == cmul(X, H)
    assert by_table(const(128, X), lambda n: nib(n, const(128, H))).v == cmul(X, H)
