"""AES-128 (FIPS 197) as terms; written from the standard."""
from engine import terms as tm
from engine.terms import const, xor


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if gmul(a, b) == 1:
                inv[a] = b
                break
    out = []
    for x in range(256):
        b = inv[x]
        r = 0
        for i in range(8):
            r |= ((b >> i ^ b >> (i + 4) % 8 ^ b >> (i + 5) % 8 ^ b >> (i + 6) % 8 ^ b >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i
        out.append(r)
    return tuple(out)


S = _sbox()


def expand(key):
    """176 byte terms of the round keys from 16 byte terms"""
    w = list(key)
    rcon = 1
    for i in range(4, 44):
        t = w[4 * i - 4:4 * i]
        if i % 4 == 0:
            t = [tm.tab(S, x, 8) for x in t[1:] + t[:1]]
            t[0] = xor(t[0], const(8, rcon))
            rcon = gmul(rcon, 2)
        w += [xor(w[4 * i - 16 + j], t[j]) for j in range(4)]
    return w


SHIFT = [0, 5, 10, 15, 4, 9, 14, 3, 8, 13, 2, 7, 12, 1, 6, 11]
MIX = [[2, 3, 1, 1], [1, 2, 3, 1], [1, 1, 2, 3], [3, 1, 1, 2]]


def cipher(key, block):
    """concrete AES-128, for self checks"""
    w = list(key)
    rcon = 1
    for i in range(4, 44):
        t = w[4 * i - 4:4 * i]
        if i % 4 == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = gmul(rcon, 2)
        w += [w[4 * i - 16 + j] ^ t[j] for j in range(4)]
    s = [a ^ b for a, b in zip(block, w)]
    for r in range(1, 11):
        s = [S[s[SHIFT[i]]] for i in range(16)]
        if r < 10:
            s = [gmul(s[4 * c], MIX[i][0]) ^ gmul(s[4 * c + 1], MIX[i][1]) ^ gmul(s[4 * c + 2], MIX[i][2]) ^ gmul(s[4 * c + 3], MIX[i][3]) for c in range(4) for i in range(4)]
        s = [a ^ b for a, b in zip(s, w[16 * r:])]
    return bytes(s)


assert cipher(range(16), [0x11 * i for i in range(16)]).hex() == '69c4e0d86a7b0430d8cdb78070b4c55a'
