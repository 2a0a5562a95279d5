from gcmtab import *

F = PLAIN.F


def u_lemma(c):
    ex = c.exec()
    st = sym.State()
    X, H = var(128, 'X'), var(128, 'H')
    a, b = var(128, 'a'), var(128, 'b')
    ex.oblige(st, eq(G.mulx(xor(a, b)), xor(G.mulx(a), G.mulx(b))), 'lemma', 'multiplication by x is linear')
    ex.oblige(st, eq(G.by_table(X, lambda n: G.nib(n, H)), G.product(X, H)), 'lemma', 'the table sum over nibble multiples of H is the GF(2^128) product of SP 800-38D')


UNITS = [
    Unit('gcm_mult', u_mult('no'), F, 'for every context table'),
    Unit('gcm_mult in place', u_mult('same'), F),
    Unit('gcm_mult inside the context', u_mult('ctx'), F),
    Unit('tables', u_init(), F),
    Unit('product lemma', u_lemma, F),
]
H = Harness('p05.c', F, quick_s=3)
if __name__ == '__main__':
    sys.exit(main('P05', UNITS, H))
