"""FF1 / FF3: contracts of the OpenSSL big-number functions over exact integers, and the two algorithms as
specified (NIST SP 800-38G), executed on the same symbolic integers"""
from common import *
from modes import E as E0, fnptr
import ctype
import math
import gcmctx

FILES = ['src/fpe/ff1.c', 'src/fpe/ff3.c', 'src/fpe/ff1_cmac.c', 'src/fpe/ff3_gmac.c', 'src/fpe/fpe_locl.c', 'src/fpe/init.c']


def push(t, hi, lo):
    """bits hi..lo of t with the extraction pushed through xor, ite and concatenation"""
    if t.op == 'xor':
        r = push(t.args[0], hi, lo)
        for x in t.args[1:]:
            r = xor(r, push(x, hi, lo))
        return r
    if t.op == 'ite':
        return ite(t.args[0], push(t.args[1], hi, lo), push(t.args[2], hi, lo))
    if t.op == 'concat':
        pos = t.w
        for x in t.args:
            pos -= x.w
            if pos <= lo and hi < pos + x.w:
                return push(x, hi - pos, lo - pos)
    if t.op == 'ext':
        return push(t.args[0], hi + t.v[1], lo + t.v[1])
    return ext(t, hi, lo)


def canon(t):
    """bytewise canonical form"""
    return concat(*[push(t, i + 7, i) for i in range(t.w - 8, -1, -8)])


def E(x):
    return E0(canon(x))


# ---------------------------------------------------------------- exact integers: constant + sum of coef * atom
class Num:
    tab = {}

    def __new__(cls, c, items):
        key = (c, tuple(sorted((a, k) for a, k in items.items() if k)))
        n = cls.tab.get(key)
        if n is None:
            n = cls.tab[key] = object.__new__(cls)
            n.c, n.items, n.id = c, dict(key[1]), len(cls.tab)
        return n

    def max(self):
        if any(k < 0 for k in self.items.values()):
            raise sym.EngineLimit('negative big number')
        return self.c + sum(k * ATOMMAX[a] for a, k in self.items.items())

    def const(self):
        return self.c if not self.items else None


ATOM, ATOMMAX, ATOMID = {}, {}, {}


def atom(desc, mx):
    i = ATOMID.setdefault(desc, len(ATOMID))
    ATOM[i], ATOMMAX[i] = desc, mx
    return i


def K(v):
    return Num(v, {})


def strip(t):
    """drop leading zero bits"""
    while t.op == 'concat' and t.args[0].op == 'const' and t.args[0].v == 0:
        t = concat(*t.args[1:]) if len(t.args) > 2 else t.args[1]
    return t


TERMS = {}


def of_term(t):
    if t.op == 'const':
        return K(t.v)
    t = strip(canon(t) if t.w % 8 == 0 and t.w > 64 else t)
    if t.op == 'const':
        return K(t.v)
    if t.op == 'uf' and t.v[0] == 'dig':
        return Num(0, {ATOMID[DIGT[t.id]]: 1})
    TERMS[t.id] = t
    return Num(0, {atom(('t', t.id), tm.umax(t)): 1})


DIGT = {}


def to_term(n, w):
    """machine word of a small number"""
    if n.const() is not None:
        return const(w, n.c)
    if n.c == 0 and list(n.items.values()) == [1]:
        d = ATOM[list(n.items)[0]]
        if d[0] == 't':
            t = TERMS[d[1]]
            return zext(t, w) if t.w < w else ext(t, w - 1, 0) if t.w > w else t
        if d[0] == 'dig':
            t = tm.uf(('dig',) + d[1:], 6)
            DIGT[t.id] = d
            return zext(t, w)
    raise sym.EngineLimit('machine word of a big expression')


def norm(n):
    """sum of all m digits of X < r^m in base r, each with its weight, is X"""
    groups = {}
    for a, k in n.items.items():
        d = ATOM[a]
        if d[0] == 'dig':
            groups.setdefault(d[1:3], {})[d[3]] = (a, k)
    for (x, r), ds in groups.items():
        X = NUMS[x]
        m = max(ds) + 1
        if len(ds) == m and X.max() < r ** m:
            c = ds[0][1]
            if all(ds[k][1] == c * r ** k for k in range(m)):
                items = dict(n.items)
                for a, _ in ds.values():
                    del items[a]
                return norm(plus(Num(n.c, items), scale(X, c)))
    return n


NUMS = {}


def plus(a, b, s=1):
    it = dict(a.items)
    for x, k in b.items.items():
        it[x] = it.get(x, 0) + s * k
    return Num(a.c + s * b.c, it)


def scale(a, k):
    return Num(a.c * k, {x: v * k for x, v in a.items.items()})


def mul(a, b):
    if a.const() is not None:
        return scale(b, a.c)
    if b.const() is not None:
        return scale(a, b.c)
    raise sym.EngineLimit('product of two unknown big numbers')


def divmod_(X, r):
    if X.const() is not None:
        return K(X.c // r), K(X.c % r)
    if X.c == 0 and list(X.items.values()) == [1]:
        d = ATOM[list(X.items)[0]]
        if d[0] == 'quot' and d[2] == r:
            return quot(NUMS[d[1]], r, d[3] + 1), dig(NUMS[d[1]], r, d[3])
        if d[0] in ('modadd', 'modsub'):
            return quot(X, r, 1), dig(X, r, 0)
    hi = Num(X.c // r, {a: k // r for a, k in X.items.items() if k % r == 0})
    lo = Num(X.c % r, {a: k for a, k in X.items.items() if k % r})
    if lo.max() < r:
        return hi, lo
    raise sym.EngineLimit('division of a big expression')


def quot(X, r, k):
    NUMS[X.id] = X
    if X.max() // r ** k == 0:
        return K(0)
    return Num(0, {atom(('quot', X.id, r, k), X.max() // r ** k): 1})


def dig(X, r, k):
    NUMS[X.id] = X
    if X.max() // r ** k == 0:
        return K(0)
    return Num(0, {atom(('dig', X.id, r, k), r - 1): 1})


def modop(op, a, y, q):
    inv = {'modadd': 'modsub', 'modsub': 'modadd'}[op]
    q = q.const()
    if not q:
        raise sym.EngineLimit('modulus unknown or zero')
    if a.c == 0 and list(a.items.values()) == [1]:
        d = ATOM[list(a.items)[0]]
        if d[0] == inv and d[2] == y.id and d[3] == q and NUMS[d[1]].max() < q:
            return NUMS[d[1]]
    NUMS[a.id], NUMS[y.id] = a, y
    return Num(0, {atom((op, a.id, y.id, q), q - 1): 1})


def nbytes(X):
    return (X.max().bit_length() + 7) // 8


def blen(X):
    """length of the minimal big-endian encoding"""
    if X.const() is not None:
        return C32(nbytes(X))
    return var(32, 'blen%d' % X.id, 0, nbytes(X))


def bnbyte(X, j):
    """byte of weight 256^j (j a 64-bit term or int)"""
    NUMS[X.id] = X
    if isinstance(j, int):
        if j >= nbytes(X):
            return const(8, 0)
        j = C64(j)
    if X.const() is not None and j.op == 'const':
        return const(8, X.c >> (8 * j.v))
    return tm.uf(('bnbyte', X.id), 8, j)


def be_bytes(X, b):
    return [bnbyte(X, j) for j in range(b)][::-1]


# ---------------------------------------------------------------- contracts
def name_of(ex, st, p, what):
    cs = ex.ptr_cases(p, st)
    if cs is None or len(cs) != 1:
        raise sym.EngineLimit(what + ': unresolved pointer')
    return cs[0][1], cs[0][2]


def bn_new(ex, st, a):
    p = ex.new_obj(st, 'bn', C64(24), 'bn')
    st.ghost[('bn', p.v)] = K(0)
    return p


def bn_get(ex, st, p, live=True):
    n, off = name_of(ex, st, p, 'BIGNUM')
    if ('bn', n) not in st.ghost or not st.objs[n].alive:
        ex.oblige(st, FALSE, 'call-precondition', 'a BIGNUM argument is not a live number')
    return n


def val(ex, st, p):
    return st.ghost[('bn', bn_get(ex, st, p))]


def put(ex, st, p, v):
    st.ghost[('bn', bn_get(ex, st, p))] = v
    return C32(1)


def c_free(ex, st, a):
    if a[0].op == 'const' and a[0].v == 0:
        return None
    sym.kill(ex, st, bn_get(ex, st, a[0]))
    return None


def c_ctx_new(ex, st, a):
    p = ex.new_obj(st, 'bnctx', C64(8), 'bn')
    st.ghost[('bnctx', p.v)] = K(0)
    return p


def c_ctx(ex, st, a):
    n, off = name_of(ex, st, a[0], 'BN_CTX')
    if ('bnctx', n) not in st.ghost or not st.objs[n].alive:
        ex.oblige(st, FALSE, 'call-precondition', 'not a live BN_CTX')
    return n


def c_ctx_get(ex, st, a):
    c_ctx(ex, st, a)
    return bn_new(ex, st, a)


def c_ctx_free(ex, st, a):
    sym.kill(ex, st, c_ctx(ex, st, a))
    return None


def c_div(ex, st, a):
    r = val(ex, st, a[3]).const()
    if not r:
        raise sym.EngineLimit('division by an unknown number')
    d, m = divmod_(val(ex, st, a[2]), r)
    for p, v in ((a[0], d), (a[1], m)):
        if not (p.op == 'const' and p.v == 0):
            put(ex, st, p, v)
    return C32(1)


def c_exp(ex, st, a):
    b, e = val(ex, st, a[1]).const(), val(ex, st, a[2]).const()
    if b is None or e is None:
        raise sym.EngineLimit('power of unknown numbers')
    return put(ex, st, a[0], K(b ** e))


def c_bin2bn(ex, st, a):
    n = a[1]
    if n.op != 'const':
        raise sym.EngineLimit('BN_bin2bn with unknown length')
    v = of_term(simp(ex, st, canon(ex.load_be(st, a[0], n.v)))) if n.v else K(0)
    if a[2].op == 'const' and a[2].v == 0:
        p = bn_new(ex, st, a)
        put(ex, st, p, v)
        return p
    put(ex, st, a[2], v)
    return a[2]


def c_bn2bin(ex, st, a):
    X = val(ex, st, a[0])
    L = blen(X)
    n, off = name_of(ex, st, a[1], 'BN_bn2bin')
    o = st.objs[n]
    if X.max():
        ex.oblige(st, FALSE if not o.alive or not o.wr else ule(add(off, C64(nbytes(X))), o.size), 'memory-safety', 'BN_bn2bin writes %d bytes into the buffer at most' % nbytes(X))
        L64 = zext(L, 64)
        st.mem[n] = mem.store_range(st.mem[n], off, L64, lambda rel: bnbyte(X, sub(sub(L64, C64(1)), rel)), st.own)
    return L


def c_get_word(ex, st, a):
    return to_term(val(ex, st, a[0]), 64)


BN = {
    '@BN_new': bn_new, '@BN_clear_free': c_free, '@BN_free': c_free, '@BN_CTX_new': c_ctx_new, '@BN_CTX_free': c_ctx_free,
    '@BN_CTX_start': lambda ex, st, a: (c_ctx(ex, st, a), None)[1], '@BN_CTX_end': lambda ex, st, a: (c_ctx(ex, st, a), None)[1],
    '@BN_CTX_get': c_ctx_get, '@BN_div': c_div, '@BN_exp': c_exp, '@BN_bin2bn': c_bin2bn, '@BN_bn2bin': c_bn2bin, '@BN_get_word': c_get_word,
    '@BN_set_word': lambda ex, st, a: put(ex, st, a[0], of_term(a[1])),
    '@BN_copy': lambda ex, st, a: (put(ex, st, a[0], val(ex, st, a[1])), a[0])[1],
    '@BN_mul': lambda ex, st, a: put(ex, st, a[0], norm(mul(val(ex, st, a[1]), val(ex, st, a[2])))),
    '@BN_add': lambda ex, st, a: put(ex, st, a[0], norm(plus(val(ex, st, a[1]), val(ex, st, a[2])))),
    '@BN_sub': lambda ex, st, a: put(ex, st, a[0], norm(plus(val(ex, st, a[1]), val(ex, st, a[2]), -1))),
    '@BN_mod_add': lambda ex, st, a: put(ex, st, a[0], modop('modadd', val(ex, st, a[1]), val(ex, st, a[2]), val(ex, st, a[3]))),
    '@BN_mod_sub': lambda ex, st, a: put(ex, st, a[0], modop('modsub', val(ex, st, a[1]), val(ex, st, a[2]), val(ex, st, a[3]))),
    '@BN_num_bits': lambda ex, st, a: bits(val(ex, st, a[0])),
    '@CRYPTO_malloc': lambda ex, st, a: ex.new_obj(st, 'malloc', a[0], 'heap'),
    '@CRYPTO_free': lambda ex, st, a: sym._free(ex, st, a),
}


def bits(X):
    if X.const() is not None:
        return C32(X.c.bit_length())
    # ceil(bits / 8) is the minimal byte length
    raise sym.EngineLimit('bit length of an unknown number')


def simp(ex, st, t, memo=None):
    """ite(j < len(X), byte j of X, 0) is byte j of X"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    r = t
    if t.op == 'concat':
        r = concat(*[simp(ex, st, x, memo) for x in t.args])
    elif t.op == 'xor':
        xs = [simp(ex, st, x, memo) for x in t.args]
        r = xs[0]
        for x in xs[1:]:
            r = xor(r, x)
    elif t.op == 'ite':
        c, a, b = t.args
        for pos, (x, y, cc) in enumerate(((a, b, c), (b, a, not_(c)))):
            u = bnleaf(x, y)
            if u is not None:
                X, j = NUMS[u.v[1]], u.args[0]
                if j.op == 'const' and ex.prove(st, eq(cc, ult(j, zext(blen(X), 64))))[0] == 'valid':
                    r = x
                    break
        else:
            r = ite(c, simp(ex, st, a, memo), simp(ex, st, b, memo))
    memo[t.id] = r
    return r


def bnleaf(x, y):
    """x is y xor (a number's byte)"""
    d = xor(x, y)
    if d.op == 'uf' and isinstance(d.v, tuple) and d.v[0] == 'bnbyte':
        return d
    return None


def cipher(key):
    def h(ex, st, a):
        ex.oblige(st, eq(a[2], key), 'call-precondition', 'the block cipher gets the context\'s key')
        ex.store_be(st, a[1], E(simp(ex, st, canon(ex.load_be(st, a[0], 16)))))
        return C32(1)
    return h


# characters: a character byte stands for the digit it maps to (map_chars / inverse_map_chars verified separately)
CH = {}


def ch(d):
    """character of a digit term"""
    d = strip(d)
    if d.op == 'const':
        return const(8, d.v + 48 if d.v < 10 else d.v + 87)
    c = var(8, 'ch%d' % d.id, 48, 122)
    CH[c.id] = d
    return c


def digit_of(c):
    if c.op == 'const' and (48 <= c.v < 58 or 97 <= c.v < 123):
        return const(32, c.v - 48 if c.v < 58 else c.v - 87)
    d = CH.get(c.id)
    if d is None:
        raise sym.EngineLimit('character of unknown origin')
    return zext(d, 32)


def c_map(ex, st, a):
    n = ctype.strlen(ex, st, [a[0]]).v
    for i in range(n):
        ex.store(st, add(a[1], C64(4 * i)), digit_of(ex.load(st, add(a[0], C64(i)), 1)))
    return None


def c_inv(ex, st, a):
    if a[2].op != 'const':
        raise sym.EngineLimit('unknown string length')
    ds = [ex.load(st, add(a[0], C64(4 * i)), 4) for i in range(a[2].v)]
    for i, d in enumerate(ds):
        ex.store(st, add(a[1], C64(i)), ch(d))
    ex.store(st, add(a[1], C64(a[2].v)), const(8, 0))
    return None


MAPS = {'@map_chars': c_map, '@inverse_map_chars': c_inv, '@strlen': ctype.strlen}


# ---------------------------------------------------------------- the specification
def num(ds, r):
    n = K(0)
    for d in ds:
        n = plus(scale(n, r), d)
    return norm(n)


def digits(X, r, m):
    out = []
    for _ in range(m):
        X, d = divmod_(X, r)
        out.append(d)
    return out[::-1]


def blocks(bs):
    return [concat(*bs[i:i + 16]) for i in range(0, len(bs), 16)]


def ff1(ds, r, tweak, enc=True, trace=None):
    """SP 800-38G FF1 on digit Nums; trace receives (i, P||Q chain values) per round"""
    n = len(ds)
    u = n // 2
    v = n - u
    A, B = ds[:u], ds[u:]
    q = {u: r ** u, v: r ** v}
    b = (((r ** v - 1).bit_length()) + 7) // 8
    d = 4 * -(-b // 4) + 4
    t = len(tweak)
    P = [1, 2, 1, 0, 0, r, 10, u % 256, *n.to_bytes(4, 'big'), *t.to_bytes(4, 'big')]
    P = [const(8, x) for x in P]
    for i in range(10) if enc else range(9, -1, -1):
        m = u if i % 2 == 0 else v
        src = B if enc else A
        Q = tweak + [const(8, 0)] * ((-t - b - 1) % 16) + [const(8, i)] + be_bytes(num(src, r), b)
        R = E(concat(*P))
        chain = [R]
        for blk in blocks(Q):
            R = E(xor(R, blk))
            chain.append(R)
        S = R
        j = 1
        while S.w < 8 * d:
            S = concat(S, E(xor(R, const(128, j))))
            j += 1
        y = of_term(ext(S, S.w - 1, S.w - 8 * d))
        if trace is not None:
            trace.append((i, chain))
        if enc:
            c = modop('modadd', num(A, r), y, K(r ** m))
            A, B = B, digits(c, r, m)
        else:
            c = modop('modsub', num(B, r), y, K(r ** m))
            A, B = digits(c, r, m), A
    return A + B


def ff3(ds, r, tweak, enc=True, trace=None):
    """FF3 (64-bit tweak)"""
    n = len(ds)
    u = -(-n // 2)
    v = n - u
    A, B = ds[:u], ds[u:]
    TL, TR = tweak[:4], tweak[4:8]
    for i in range(8) if enc else range(7, -1, -1):
        m, W = (u, TR) if i % 2 == 0 else (v, TL)
        src = B if enc else A
        P = W[:3] + [xor(W[3], const(8, i))] + be_bytes(num(src[::-1], r), 12)
        S = le(E(concat(*P[::-1])))
        if trace is not None:
            trace.append((i, S))
        y = of_term(S)
        if enc:
            c = modop('modadd', num(A[::-1], r), y, K(r ** m))
            A, B = B, digits(c, r, m)[::-1]
        else:
            c = modop('modsub', num(B[::-1], r), y, K(r ** m))
            A, B = digits(c, r, m)[::-1], A
    return A + B


# ---------------------------------------------------------------- proof units
OFF = None


def layout():
    global OFF
    if OFF is None:
        OFF = gcmctx.offsets('struct fpe_ctx', 'wbcrypto/fpe.h', ['cipher_ctx', 'block', 'radix', 'tweak', 'tweaklen'])
    return OFF


def setup(ex, st, r, tweak, key):
    o, size = layout()
    ctx = ex.new_obj(st, 'ctx', size, 'arg', mem.Sym('ctx0'))
    tw = ex.new_obj(st, 'tweak', max(16, len(tweak)), 'arg', mem.Fn(lambda off: const(8, 0)))
    if tweak:
        ex.store_bytes(st, tw, tweak)
    ex.store(st, add(ctx, C64(o['cipher_ctx'])), key)
    ex.store(st, add(ctx, C64(o['block'])), fnptr('@blk'))
    ex.store(st, add(ctx, C64(o['radix'])), C32(r))
    ex.store(st, add(ctx, C64(o['tweak'])), tw)
    ex.store(st, add(ctx, C64(o['tweaklen'])), C32(len(tweak)))
    st.objs[ctx.v].wr = False
    st.objs[tw.v].wr = False
    return ctx


def one(rs, fn):
    rs = list(rs)
    if len(rs) != 1:
        raise sym.EngineLimit('%d outcomes of %s' % (len(rs), fn))
    return rs[0]


def newexec(c):
    ex = c.exec()
    ex.no_summary = True
    ex.contracts.update(BN)
    ex.contracts.update(MAPS)
    return ex


def run(ex, st, fn, ctx, p, n, q, want, what):
    """one call: result digits, terminator, return value, input untouched"""
    st, r = one(ex.call(st, fn, [ctx, p, q]), fn)
    ret_is(ex, st, r, 1, fn)
    for i in range(n):
        g = ex.load(st, add(q, C64(i)), 1)
        ex.oblige(st, eq(g, ch(to_term(want[i], 32))), 'postcondition', '%s: symbol %d' % (what, i))
    ex.oblige(st, eq(ex.load(st, add(q, C64(n)), 1), const(8, 0)), 'postcondition', what + ': terminated')
    return st


def string(ex, st, name, ds, wr=False):
    p = ex.new_obj(st, name, len(ds) + 1, 'arg', mem.Sym(name + '0'))
    ex.store_bytes(st, p, [ch(to_term(d, 32)) for d in ds] + [const(8, 0)])
    st.objs[p.v].wr = wr
    return p


def u_shape(alg, shapes, spec, quick=None):
    def f(c):
        run_shapes(c, alg, shapes if quick is None or c.tier == 'thorough' else quick, spec)
    return f


def run_shapes(c, alg, shapes, spec):
    e, d = '@WBCRYPTO_%s_encrypt' % alg, '@WBCRYPTO_%s_decrypt' % alg
    c.need(e, d)
    c.mark_bounded('shapes (radix, length, tweak length): ' + ' '.join('%d/%d/%d' % s for s in shapes))
    for r, n, t in shapes:
        ex = newexec(c)
        st = sym.State()
        key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
        ex.contracts['@blk'] = cipher(key)
        tweak = [var(8, 'tw%d' % i) for i in range(t)]
        full = tweak + [const(8, 0)] * (16 - t)
        ctx = setup(ex, st, r, tweak, key)
        ds = [of_term(var(32, 'd%d_%d' % (r, i), 0, r - 1)) for i in range(n)]
        w = 'radix %d length %d tweak %d' % (r, n, t)
        tw = tweak if alg == 'ff1' else full
        enc = spec(ds, r, tw)
        p = string(ex, st, 'in', ds)
        q = ex.new_obj(st, 'out', n + 1, 'arg', mem.Sym('out0'))
        s1 = run(ex, st.fork(), e, ctx, p, n, q, enc, 'encryption, ' + w)
        z = ex.new_obj(s1, 'back', n + 1, 'arg', mem.Sym('back0'))
        run(ex, s1, d, ctx, q, n, z, ds, 'decryption of the encryption, ' + w)
        run(ex, st.fork(), d, ctx, p, n, q, spec(ds, r, tw, False), 'decryption, ' + w)
        s3 = st.fork()
        p2 = string(ex, s3, 'inout', ds, True)
        s3 = run(ex, s3, e, ctx, p2, n, p2, enc, 'in-place encryption, ' + w)
        run(ex, s3, d, ctx, p2, n, p2, ds, 'in-place decryption, ' + w)


def tdig(c):
    """digit of a character: '0'..'9' then 'a'.."""
    return ite(ult(c, const(8, 97)), sub(zext(c, 32), C32(48)), sub(zext(c, 32), C32(87)))


def u_map(c):
    """map_chars / inverse_map_chars for every string length; the two undo each other"""
    c.need('@map_chars', '@inverse_map_chars')
    c.mark_bounded('string lengths 0..9 and 64')
    sfx = lambda t: ite(ult(t, C32(10)), ext(add(t, C32(48)), 7, 0), ext(add(t, C32(87)), 7, 0))
    for n in list(range(10)) + [64]:
        ex = c.exec()
        ex.no_summary = True
        ex.contracts['@strlen'] = ctype.strlen
        st = sym.State()
        cs = [var(8, 'c%d' % i, 1, 255) for i in range(n)]
        p = ex.new_obj(st, 'str', n + 1, 'arg', mem.Sym('str0'))
        ex.store_bytes(st, p, cs + [const(8, 0)])
        st.objs[p.v].wr = False
        q = ex.new_obj(st, 'res', 4 * n, 'arg', mem.Sym('res0'))
        st, r = one(ex.call(st, '@map_chars', [p, q]), '@map_chars')
        for i in range(n):
            ex.oblige(st, eq(ex.load(st, add(q, C64(4 * i)), 4), tdig(cs[i])), 'postcondition', 'map_chars: digit of symbol %d of %d' % (i, n))
        st = sym.State()
        ds = [var(32, 'e%d' % i, 0, 35) for i in range(n)]
        p = ex.new_obj(st, 'res', 4 * n, 'arg', mem.Sym('res0'))
        for i in range(n):
            ex.store(st, add(p, C64(4 * i)), ds[i])
        st.objs[p.v].wr = False
        q = ex.new_obj(st, 'str', n + 1, 'arg', mem.Sym('str0'))
        st, r = one(ex.call(st, '@inverse_map_chars', [p, q, C32(n)]), '@inverse_map_chars')
        for i in range(n):
            ex.oblige(st, eq(ex.load(st, add(q, C64(i)), 1), sfx(ds[i])), 'postcondition', 'inverse_map_chars: symbol %d of %d' % (i, n))
        ex.oblige(st, eq(ex.load(st, add(q, C64(n)), 1), const(8, 0)), 'postcondition', 'inverse_map_chars: terminator')
    x = var(32, 'x', 0, 35)
    cx = ite(ult(x, C32(10)), ext(add(x, C32(48)), 7, 0), ext(add(x, C32(87)), 7, 0))
    ex.oblige(sym.State(), eq(tdig(cx), x), 'lemma', 'the symbol of a digit maps back to the digit')


def u_short(alg, ctxsize):
    """strings of fewer than two symbols are refused and nothing is written"""
    def f(c):
        for fn in ('@WBCRYPTO_%s_encrypt' % alg, '@WBCRYPTO_%s_decrypt' % alg):
            c.need(fn)
            for n in (0, 1):
                ex = newexec(c)
                st = sym.State()
                ctx = ex.new_obj(st, 'ctx', ctxsize, 'arg', mem.Sym('ctx0'), wr=False)
                p = ex.new_obj(st, 'in', n + 1, 'arg', mem.Fn(lambda off, n=n: const(8, 0) if off.op == 'const' and off.v == n else var(8, 'chr', 48, 122)), wr=False)
                q = ex.new_obj(st, 'out', n + 1, 'arg', mem.Sym('out0'), wr=False)
                st, r = one(ex.call(st, fn, [ctx, p, q]), fn)
                ret_is(ex, st, r, 0, '%s of %d symbols' % (fn, n))
    return f


def chunks(shapes, k, seed=5):
    import random
    shapes = list(dict.fromkeys(shapes))
    random.Random(seed).shuffle(shapes)      # heavy shapes spread evenly
    return [shapes[i::k] for i in range(k)]


def shape_units(name, alg, spec, quick, more, k=14, mk=u_shape):
    q, m = chunks(quick, k), chunks(more, k)
    return [Unit('%s shapes %d' % (name, i), mk(alg, q[i] + m[i], spec, q[i]), FILES, budget=300) for i in range(k)]


def u_init(c):
    """WBCRYPTO_fpe_init: context holds cipher, key, radix and a copy of the tweak, zero-extended to 16 bytes"""
    fn = '@WBCRYPTO_fpe_init'
    c.need(fn, '@WBCRYPTO_fpe_free')
    o, size = layout()
    n = var(64, 'n', 0, 1 << 20)
    for lo, hi in ((0, 1), (37, (1 << 32) - 1), (2, 36)):
        r = var(32, 'radix%d' % lo, lo, hi)
        ex = c.exec()
        st = sym.State()
        key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
        tw = ex.new_obj(st, 'tw', n, 'arg', mem.Sym('tw0'), wr=False)
        st, p = one(ex.call(st, fn, [tw, n, r, key, fnptr('@blk')]), fn)
        if lo != 2:
            ex.oblige(st, eq(p, C64(0)), 'postcondition', 'a radix outside 2..36 is refused')
            continue
        b = tm.is_ptr_base(p)
        ex.oblige(st, FALSE if b is None else TRUE, 'postcondition', 'a valid radix is accepted')
        name = b[0].v
        ld = lambda f, k: ex.load(st, add(p, C64(o[f])), k)
        ex.oblige(st, eq(ld('cipher_ctx', 8), key), 'postcondition', 'key stored')
        ex.oblige(st, eq(ld('block', 8), fnptr('@blk')), 'postcondition', 'cipher stored')
        ex.oblige(st, eq(ld('radix', 4), r), 'postcondition', 'radix stored')
        ex.oblige(st, eq(ld('tweaklen', 4), ext(n, 31, 0)), 'postcondition', 'tweak length stored')
        t = ld('tweak', 8)
        i = var(64, 'i', 0, 1 << 20)
        s1 = st.fork()
        s1.assume(ult(i, n))
        ex.oblige(s1, eq(ex.load(s1, add(t, i), 1), tm.sel('tw0', i)), 'postcondition', 'tweak byte i copied')
        s2 = st.fork()
        s2.assume(ule(n, i))
        s2.assume(ult(i, C64(16)))
        ex.oblige(s2, eq(ex.load(s2, add(t, i), 1), const(8, 0)), 'postcondition', 'short tweak zero-extended')
        tn = tm.is_ptr_base(t)[0].v
        s3 = st.fork()
        s3, _ = one(ex.call(s3, '@WBCRYPTO_fpe_free', [p]), 'fpe_free')
        ex.oblige(s3, TRUE if not s3.objs[tn].alive and not s3.objs[name].alive else FALSE, 'postcondition', 'fpe_free releases context and tweak')
