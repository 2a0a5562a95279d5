"""GB/T 32905 SM3 compression over terms; words are 32-bit"""
from engine import terms as tm
from engine.terms import const, ext, xor, ite, concat, add, band, bor, not_

IV = [0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]


def rot(x, n):
    n %= 32
    return x if n == 0 else concat(ext(x, 31 - n, 0), ext(x, 31, 32 - n))


def xors(*a):
    r = a[0]
    for x in a[1:]:
        r = xor(r, x)
    return r


P0 = lambda x: xors(x, rot(x, 9), rot(x, 17))
P1 = lambda x: xors(x, rot(x, 15), rot(x, 23))


def T(j):
    c = 0x79cc4519 if j < 16 else 0x7a879d8a
    n = j % 32
    return const(32, (c << n | c >> (32 - n)) & 0xffffffff if n else c)


def FF(j, x, y, z):
    return xors(x, y, z) if j < 16 else bor(bor(band(x, y), band(x, z)), band(y, z))


def GG(j, x, y, z):
    return xors(x, y, z) if j < 16 else bor(band(x, y), band(not_(x), z))


def cf(V, B):
    """V: 8 words, B: 16 words"""
    W = list(B)
    for j in range(16, 68):
        W.append(xors(P1(xors(W[j - 16], W[j - 9], rot(W[j - 3], 15))), rot(W[j - 13], 7), W[j - 6]))
    A, Bq, C, D, E, F, G, H = V
    for j in range(64):
        SS1 = rot(add(add(rot(A, 12), E), T(j)), 7)
        SS2 = xor(SS1, rot(A, 12))
        TT1 = add(add(add(FF(j, A, Bq, C), D), SS2), xor(W[j], W[j + 4]))
        TT2 = add(add(add(GG(j, E, F, G), H), SS1), W[j])
        D, C, Bq, A = C, rot(Bq, 9), A, TT1
        H, G, F, E = G, rot(F, 19), E, P0(TT2)
    return [xor(a, b) for a, b in zip(V, [A, Bq, C, D, E, F, G, H])]


def digest(msg):
    p = msg + b'\x80' + b'\0' * ((55 - len(msg)) % 64) + (8 * len(msg)).to_bytes(8, 'big')
    V = [const(32, x) for x in IV]
    for i in range(0, len(p), 64):
        V = cf(V, [const(32, int.from_bytes(p[i + 4 * j:i + 4 * j + 4], 'big')) for j in range(16)])
    return b''.join(v.v.to_bytes(4, 'big') for v in V)


def selftest():
    assert digest(b'abc').hex() == '66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0'
    assert digest(b'abcd' * 16).hex() == 'debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732'
