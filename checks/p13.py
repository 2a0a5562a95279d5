from common import *

F = ['WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c']
SIZES = (4, 8, 16, 32, 64, 128)


def one(rs, fn):
    rs = list(rs)
    if len(rs) != 1:
        raise sym.EngineLimit('%d outcomes of %s' % (len(rs), fn))
    return rs[0]


class Mat:
    """n x n matrix over GF(2): rows as n-bit terms, column j = bit n-1-j (for n = 4: low nibble of a byte,
    for n = 128: two 64-bit words, first word = columns 0..63)"""

    def __init__(self, n, rows):
        self.n, self.rows = n, rows

    def bit(self, i, j):
        return ext(self.rows[i], self.n - 1 - j, self.n - 1 - j)

    def col(self, j):
        return concat(*[self.bit(i, j) for i in range(self.n)])


def symmat(n, name):
    return Mat(n, [var(n, '%s_%d' % (name, i)) for i in range(n)])


def word_bytes(n, t):
    """memory bytes of an n-bit vector"""
    if n == 4:
        return [concat(const(4, 0), t)]
    if n == 128:
        return word_bytes(64, ext(t, 127, 64)) + word_bytes(64, ext(t, 63, 0))
    return bytes_of(t)[::-1] if n > 8 else [t]


def mat_bytes(m):
    return [b for r in m.rows for b in word_bytes(m.n, r)]


def rsize(n):
    return max(1, n // 8)


def load_vec(ex, st, p, n):
    if n == 4:
        return ext(ex.load(st, p, 1), 3, 0)
    if n == 128:
        return concat(ex.load(st, p, 8), ex.load(st, add(p, C64(8)), 8))
    return ex.load(st, p, n // 8)


def load_mat(ex, st, p, n):
    return Mat(n, [load_vec(ex, st, add(p, C64(rsize(n) * i)), n) for i in range(n)])


def by_value(ex, st, bs, name, used=None):
    """System V passing of a struct of these bytes: up to two of the six integer registers, else memory"""
    need = (len(bs) + 7) // 8
    used = used if used is not None else [0]
    if need == 1 or len(bs) <= 16 and used[0] + need <= 6:
        used[0] += need
    else:
        p = ex.new_obj(st, name, len(bs), 'arg', mem.Sym(name + '0'))
        ex.store_bytes(st, p, bs)
        return [p]
    out = []
    while bs:
        c, bs = bs[:8], bs[8:]
        out.append(concat(*c[::-1]) if len(c) > 1 else c[0])
    return out


def parity(t):
    r = ext(t, 0, 0)
    for i in range(1, t.w):
        r = xor(r, ext(t, i, i))
    return r


def mulmat(a, b, par=parity):
    cols = [b.col(j) for j in range(b.n)]
    return Mat(a.n, [concat(*[par(tm.band(a.rows[i], cols[j])) for j in range(a.n)]) for i in range(a.n)])


def mulvec(m, v, par=parity):
    return concat(*[par(tm.band(m.rows[i], v)) for i in range(m.n)])


def num(n, t):
    return zext(t, 8) if n == 4 else t


def contracts(ex, n, fn=''):
    """for the largest sizes the parity functions (verified for all sizes) are used through their contract"""
    if n < 64:
        return parity
    upar = lambda t: tm.uf('parity%d' % t.w, 1, t)
    ex.contracts['@xorU64'] = lambda ex, st, a: (st, zext(upar(a[0]), 32))
    ex.contracts['@xorU128'] = lambda ex, st, a: (st, zext(upar(concat(ex.load(st, a[0], 8), ex.load(st, add(a[0], C64(8)), 8))), 32))
    def bv(ex, st, args):
        return load_mat(ex, st, args[0], n), load_mat(ex, st, args[1], n)

    def trans(ex, st, a):
        m = load_mat(ex, st, a[0], n)
        ex.store_bytes(st, a[1], mat_bytes(Mat(n, [m.col(i) for i in range(n)])))
        return st, None

    def mul(ex, st, a):
        x, y = bv(ex, st, a)
        ex.store_bytes(st, a[2], mat_bytes(mulmat(x, y, upar)))
        return st, None
    if fn.startswith(('@MatMulMat', '@affinemix')):
        ex.contracts['@MattransM%d' % n] = trans
    if fn.startswith('@affinemix'):
        ex.contracts['@MatMulMatM%d' % n] = mul
    return upar


def diag(ms):
    """block diagonal matrix"""
    n = sum(m.n for m in ms)
    rows = []
    o = 0
    for m in ms:
        for r in m.rows:
            parts = ([const(o, 0)] if o else []) + [r] + ([const(n - o - m.n, 0)] if n - o - m.n else [])
            rows.append(concat(*parts) if len(parts) > 1 else parts[0])
        o += m.n
    return Mat(n, rows)


COMB = ((4, 8), (8, 32), (16, 64), (8, 64), (32, 128), (8, 128), (16, 128))


def u_comb(c):
    for a, b in COMB:
        for kind in ('Matrixcom', 'Vectorcom', 'affinecom'):
            fn = '@%s%s%dto%d' % (kind, 'V' if kind[0] == 'V' else 'M', a, b)
            if a == 4 and kind != 'Matrixcom':
                continue
            c.need(fn)
            ex = c.exec()
            ex.no_summary = True
            st = sym.State()
            ms = [symmat(a, 'm%d' % i) for i in range(b // a)]
            vs = [var(a, 'v%d' % i) for i in range(b // a)]
            args = []
            used = [0]
            for i in range(b // a):
                args += by_value(ex, st, (mat_bytes(ms[i]) if kind[0] != 'V' else []) + (word_bytes(a, vs[i]) if kind[0] != 'M' else []), 'a%d' % i, used if a < 16 else None)
            sm, sv = (rsize(b) * b if kind[0] != 'V' else 0), (rsize(b) if kind[0] != 'M' else 0)
            out = ex.new_obj(st, 'out', sm + sv, 'arg', mem.Sym('out0'))
            st, r = one(ex.call(st, fn, args + [out]), fn)
            if sm:
                got, w = load_mat(ex, st, out, b), diag(ms)
                for i in range(b):
                    ex.oblige(st, eq(got.rows[i], w.rows[i]), 'postcondition', '%s: row %d' % (fn, i))
            if sv:
                ex.oblige(st, eq(load_vec(ex, st, add(out, C64(sm)), b), concat(*vs)), 'postcondition', '%s: vector' % fn)


def matpair(n):
    """contract of genMatpairM<n>: a matrix and its inverse (rows unconstrained symbols related by the inverse rule)"""
    def f(ex, st, a):
        A, B = symmat(n, 'P'), symmat(n, 'Pinv')
        ex.store_bytes(st, a[0], mat_bytes(A))
        ex.store_bytes(st, a[1], mat_bytes(B))
        return st, None
    return f


def rnd(ex, st, a):
    return st, tm.fresh(32, 'rnd')


def u_affpair(c):
    """genaffinepair: given the contract of genMatpair, aff_inv(x) = Minv x + Minv v; with Minv M = I this undoes aff"""
    for n in SIZES:
        fn = '@genaffinepairM%d' % n
        c.need(fn)
        ex = c.exec()
        ex.no_summary = True
        par = contracts(ex, n, fn)
        ex.contracts['@genMatpairM%d' % n] = matpair(n)
        ex.contracts['@cus_random'] = rnd
        ex.contracts['@InitRandom'] = lambda ex, st, a: (st, None)
        st = sym.State()
        sz = rsize(n) * (n + 1)
        p = ex.new_obj(st, 'aff', sz, 'arg', mem.Sym('aff0'))
        q = ex.new_obj(st, 'affinv', sz, 'arg', mem.Sym('affinv0'))
        st, r = one(ex.call(st, fn, [p, q]), fn)
        A, B = symmat(n, 'P'), symmat(n, 'Pinv')
        ga, gb = load_mat(ex, st, p, n), load_mat(ex, st, q, n)
        for i in range(n):
            ex.oblige(st, eq(ga.rows[i], A.rows[i]), 'postcondition', '%s: matrix row %d is the generated one' % (fn, i))
            ex.oblige(st, eq(gb.rows[i], B.rows[i]), 'postcondition', '%s: inverse row %d is the generated one' % (fn, i))
        v, w = load_vec(ex, st, add(p, C64(sz - rsize(n))), n), load_vec(ex, st, add(q, C64(sz - rsize(n))), n)
        ex.oblige(st, eq(w, mulvec(B, v, par)), 'postcondition', '%s: vec_inv = Mat_inv * vec' % fn)


def u_parity(c):
    for n in SIZES:
        fn = '@xorU%d' % n
        c.need(fn)
        ex = c.exec()
        st = sym.State()
        x = var(8 if n == 4 else n, 'x')
        if n == 4:
            x = concat(const(4, 0), var(4, 'x'))
        if n == 128:
            p = ex.new_obj(st, 'x', 16, 'arg', mem.Sym('x0'), wr=False)
            x = concat(ex.load(st, p, 8), ex.load(st, add(p, C64(8)), 8))
            a = [p]
        else:
            a = [x]
        st, r = one(ex.call(st, fn, a), fn)
        ex.oblige(st, eq(r, zext(parity(x), 32)), 'postcondition', '%s returns the parity of its argument' % fn)


def u_vec(n):
    def f(c):
        V = var(n, 'v')
        A = symmat(n, 'A')
        k = var(n, 'k')
        names = ['@MatMulVecM%d' % n, '@affineU%d' % n] + (['@MatMulNumM%d' % n] if n < 128 else [])
        for fn in names:
            c.need(fn)
            ex = c.exec()
            ex.no_summary = True
            par = contracts(ex, n, fn)
            st = sym.State()
            bs = mat_bytes(A) + (word_bytes(n, k) if 'affine' in fn else [])
            args = by_value(ex, st, bs, 'm')
            res = None
            want = mulvec(A, V, par)
            if 'affine' in fn:
                want = xor(want, k)
            if fn.startswith('@MatMulVec') or n == 128:
                res = ex.new_obj(st, 'ans', 16 if n == 128 else rsize(n), 'arg', mem.Sym('ans0'))
            if fn.startswith('@MatMulVec'):
                args += by_value(ex, st, word_bytes(n, V), 'v')
            elif n == 128:
                p = ex.new_obj(st, 'v', 16, 'arg', mem.Sym('v0'))
                ex.store_bytes(st, p, word_bytes(n, V))
                args.append(p)
            else:
                args.append(num(n, V))
            if res is not None:
                args.append(res)
            st, r = one(ex.call(st, fn, args), fn)
            got = load_vec(ex, st, res, n) if res is not None else r
            ex.oblige(st, eq(got, num(n, want) if res is None else want), 'postcondition', '%s returns the product' % fn)
    return f


def u_mat(n):
    def f(c):
        A, B = symmat(n, 'A'), symmat(n, 'B')
        for fn, spec in (('@MatMulMatM%d' % n, 'mul'), ('@MattransM%d' % n, 'tr'), ('@MatAddMatM%d' % n, 'add'), ('@identityM%d' % n, 'id'),
                         ('@affinemixM%d' % n, 'mix')):
            c.need(fn)
            ex = c.exec()
            ex.no_summary = True
            par = contracts(ex, n, fn)
            st = sym.State()
            ka, kb = var(n, 'ka'), var(n, 'kb')
            out = ex.new_obj(st, 'out', rsize(n) * n + (rsize(n) if spec == 'mix' else 0), 'arg', mem.Sym('out0'))
            args = []
            if spec != 'id':
                args += by_value(ex, st, mat_bytes(A) + (word_bytes(n, ka) if spec == 'mix' else []), 'a')
            if spec in ('mul', 'add', 'mix'):
                args += by_value(ex, st, mat_bytes(B) + (word_bytes(n, kb) if spec == 'mix' else []), 'b')
            st, r = one(ex.call(st, fn, args + [out]), fn)
            if spec in ('mul', 'mix'):
                w = mulmat(A, B, par)
            elif spec == 'tr':
                w = Mat(n, [A.col(i) for i in range(n)])
            elif spec == 'add':
                w = Mat(n, [xor(x, y) for x, y in zip(A.rows, B.rows)])
            else:
                w = Mat(n, [const(n, 1 << (n - 1 - i)) for i in range(n)])
            got = load_mat(ex, st, out, n)
            for i in range(n):
                ex.oblige(st, eq(got.rows[i], w.rows[i]), 'postcondition', '%s: row %d of the result' % (fn, i))
            if spec == 'mix':
                v = load_vec(ex, st, add(out, C64(rsize(n) * n)), n)
                ex.oblige(st, eq(v, xor(mulvec(A, kb, par), ka)), 'postcondition', '%s: vector A*kb + ka' % fn)
    return f


UNITS = [Unit('parity', u_parity, F)]
UNITS += [Unit('vector %d' % n, u_vec(n), F) for n in SIZES]
UNITS += [Unit('matrix %d' % n, u_mat(n), F, budget=400) for n in SIZES]
UNITS += [Unit('block diagonal', u_comb, F), Unit('affine pairs', u_affpair, F)]
H = Harness('p13.c', F, quick_s=6, wrap=('cus_random',))
if __name__ == '__main__':
    sys.exit(main('P13', UNITS, H))
