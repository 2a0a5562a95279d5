from gcmcrypt import *

F = ['src/modes/gcm128.c']


def u_lemma(c):
    ex = c.exec()
    st = sym.State()
    H = var(128, 'H')
    ex.oblige(st, eq(G.product(const(128, 0), H), const(128, 0)), 'lemma', '0 * H = 0')
    P, k = var(128, 'P'), var(128, 'ks')
    ex.oblige(st, eq(xor(xor(P, k), k), P), 'lemma', 'decryption inverts encryption block by block (same key stream)')


UNITS = groups('encrypt', False) + groups('decrypt', True) + [
    Unit('setiv', u_setiv(['12'] + list(range(16))), F, 'any IV length'),
    Unit('setiv, failing cipher', u_setiv(['12', 0, 5], True), F),
    Unit('aad', u_aad(range(16)), F),
    Unit('finish', u_finish(), F, 'tag lengths 0..16'),
    Unit('lemmas', u_lemma, F),
]
H = Harness('p04.c', F, quick_s=5)
if __name__ == '__main__':
    sys.exit(main('P04', UNITS, H, assumptions=['gcm_mult contract: ghmul is the product with the hash key (proved by check P05)']))
