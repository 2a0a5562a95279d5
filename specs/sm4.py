"""SM4 (GB/T 32907) as terms; written from the standard."""
from engine import terms as tm
from engine.terms import const, concat, ext, xor

S = (214, 144, 233, 254, 204, 225, 61, 183, 22, 182, 20, 194, 40, 251, 44, 5, 43, 103, 154, 118, 42, 190, 4, 195, 170, 68, 19, 38, 73, 134, 6, 153, 156, 66, 80, 244, 145, 239, 152, 122, 51, 84, 11, 67, 237, 207, 172, 98, 228, 179, 28, 169, 201, 8, 232, 149, 128, 223, 148, 250, 117, 143, 63, 166, 71, 7, 167, 252, 243, 115, 23, 186, 131, 89, 60, 25, 230, 133, 79, 168, 104, 107, 129, 178, 113, 100, 218, 139, 248, 235, 15, 75, 112, 86, 157, 53, 30, 36, 14, 94, 99, 88, 209, 162, 37, 34, 124, 59, 1, 33, 120, 135, 212, 0, 70, 87, 159, 211, 39, 82, 76, 54, 2, 231, 160, 196, 200, 158, 234, 191, 138, 210, 64, 199, 56, 181, 163, 247, 242, 206, 249, 97, 21, 161, 224, 174, 93, 164, 155, 52, 26, 85, 173, 147, 50, 48, 245, 140, 177, 227, 29, 246, 226, 46, 130, 102, 202, 96, 192, 41, 35, 171, 13, 83, 78, 111, 213, 219, 55, 69, 222, 253, 142, 47, 3, 255, 106, 114, 109, 108, 91, 81, 141, 27, 175, 146, 187, 221, 188, 127, 17, 217, 92, 65, 31, 16, 90, 216, 10, 193, 49, 136, 165, 205, 123, 189, 45, 116, 208, 18, 184, 229, 180, 176, 137, 105, 151, 74, 12, 150, 119, 126, 101, 185, 241, 9, 197, 110, 198, 132, 24, 240, 125, 236, 58, 220, 77, 32, 121, 238, 95, 62, 215, 203, 57, 72)
FK = (0xa3b1bac6, 0x56aa3350, 0x677d9197, 0xb27022dc)
CK = tuple(sum((((4 * i + j) * 7) % 256) << (24 - 8 * j) for j in range(4)) for i in range(32))


def rotl(x, n):
    return concat(ext(x, 31 - n, 0), ext(x, 31, 32 - n))


def tau(x):
    return concat(*[tm.tab(S, ext(x, 8 * i + 7, 8 * i), 8) for i in (3, 2, 1, 0)])


def xors(*a):
    r = a[0]
    for x in a[1:]:
        r = xor(r, x)
    return r


def T(x):
    t = tau(x)
    return xors(t, rotl(t, 2), rotl(t, 10), rotl(t, 18), rotl(t, 24))


def Tk(x):
    t = tau(x)
    return xors(t, rotl(t, 13), rotl(t, 23))


def words(x):
    n = x.w // 32
    return [ext(x, 32 * (n - i) - 1, 32 * (n - i) - 32) for i in range(n)]


def keysched(k):
    """16-byte big-endian key term -> 32 round keys"""
    K = [xor(w, const(32, f)) for w, f in zip(words(k), FK)]
    for i in range(32):
        K.append(xor(K[i], Tk(xors(K[i + 1], K[i + 2], K[i + 3], const(32, CK[i])))))
    return K[4:]


def crypt(x, rk, T=T):
    B = words(x)
    for i in range(len(rk)):
        B.append(xor(B[i], T(xors(B[i + 1], B[i + 2], B[i + 3], rk[i]))))
    return concat(B[-1], B[-2], B[-3], B[-4])


def enc(x, k):
    return crypt(x, keysched(k))


def dec(x, k):
    return crypt(x, keysched(k)[::-1])


def selftest():
    k = const(128, 0x0123456789abcdeffedcba9876543210)
    assert enc(k, k).v == 0x681edf34d206965e86b3e94f536e4246
    assert dec(enc(k, k), k) is k


def padkey(bs):
    """PKCS#7 key fill: list of byte terms (length <= 16, or cut)"""
    bs = list(bs[:16])
    n = 16 - len(bs)
    return concat(*(bs + [const(8, n)] * n))
