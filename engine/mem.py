"""Memory contents: immutable-by-convention layered byte maps over symbolic offsets."""
from . import terms as tm
from .terms import const, add, sub, ult, eq, ite, band, not_, concat, ext
from bisect import bisect_right
from math import gcd

C64 = lambda v: const(64, v)


class Content:
    __slots__ = ()


class Sym(Content):
    """base: unconstrained symbolic array"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def byte(self, off, q=None):
        return tm.sel(self.name, off)


class BV(Content):
    """base: bytes of one big-endian bit-vector term (byte 0 most significant)"""
    __slots__ = ('t', 'n')

    def __init__(self, t):
        self.t = t
        self.n = t.w // 8

    def byte(self, off, q=None):
        if off.op == 'const':
            i = off.v
            if i >= self.n:
                return tm.sel('oob', off)
            hi = 8 * (self.n - i) - 1
            return ext(self.t, hi, hi - 7)
        r = None
        lo, hi = tm.umin(off), min(tm.umax(off), self.n - 1)
        return mux(off, lo, hi, lambda i: self.byte(C64(i)))


class Bytes(Content):
    """base: constant bytes"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = bytes(b)

    def byte(self, off, q=None):
        if off.op == 'const':
            return const(8, self.b[off.v]) if off.v < len(self.b) else tm.sel('oob', off)
        lo, hi = tm.umin(off), min(tm.umax(off), len(self.b) - 1)
        base, g, idx = stride_of(off)
        if idx is not None:
            n = (hi - base) // g + 1
            return tm.tab(tuple(self.b[base + g * j] for j in range(n)), idx, 8)
        return tm.tab(tuple(self.b), ext(off, max(1, (len(self.b) - 1).bit_length()) - 1, 0), 8)


class Fn(Content):
    """base: arbitrary function of the offset"""
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def byte(self, off, q=None):
        return self.f(off)


def stride_of(off):
    """off = base + g*idx with idx a term (small), base constant; returns (base,g,idx) or (..,None)"""
    if off.op == 'const':
        return off.v, 1, C64(0)
    if off.op == 'lin':
        c, cs = off.v
        m = 1 << 64
        if any(k >= m // 2 for k in cs):
            # negative coefficients: shift
            lo = tm.umin(off)
            return 0, 1, None
        g = 0
        for k in cs:
            g = gcd(g, k)
        idx = tm._mklin(64, 0, {a: k // g for a, k in zip(off.args, cs)})
        if c >= m // 2:
            # base negative constant: c + g*idx with idx >= something
            lo = tm.umin(off)
            return 0, 1, None
        return c, g, idx
    if off.op == 'concat':
        # low zero bits
        last = off.args[-1]
        if last.op == 'const' and last.v == 0:
            g = 1 << last.w
            return 0, g, tm.lshr(off, C64(last.w))
    return 0, 1, off


def mux(off, lo, hi, f):
    """value f(i) for off == i, lo <= i <= hi"""
    base, g, idx = stride_of(off)
    if idx is None:
        base, g, idx = lo, 1, sub(off, C64(lo))
    n = (hi - base) // g + 1
    if n <= 0:
        return f(lo)
    if n > 4096:
        raise MuxTooBig()
    vals = [f(base + g * j) for j in range(n)]
    return muxvals(idx, vals)


class MuxTooBig(Exception):
    pass


_fold = {}


def template(vals):
    """(t, h) with vals[i] == t[h := i] for all i, or None: tables whose entries are one function of their position"""
    n = len(vals)
    k = n.bit_length() - 1
    if n < 4 or n > 256 or n != 1 << k or vals[-1].op == 'const':
        return None
    key = tuple(v.id for v in vals)
    t = _fold.get(key, 0)
    if t == 0:
        t = None
        c = tm.const(k, n - 1)
        xs = tm.topo([vals[-1]])
        if len(xs) <= 60 and any(x is c for x in xs):
            h = tm.var(k, 'fold?%d' % k)
            u = tm.subst(vals[-1], {c: h})
            if u is not vals[-1] and all(tm.subst(u, {h: tm.const(k, i)}) is v for i, v in enumerate(vals)):
                t = (u, h)
        _fold[key] = t
    return t


def fold(idx, vals):
    """vals[idx] by a template, or None"""
    t = template(vals)
    if t is None or tm.umax(idx) >= len(vals):
        return None
    return tm.subst(t[0], {t[1]: ext(idx, t[1].w - 1, 0)})


def muxvals(idx, vals):
    n = len(vals)
    if n == 1:
        return vals[0]
    w = vals[0].w
    if all(v.op == 'const' for v in vals):
        return tm.tab(tuple(v.v for v in vals), idx, w)
    r = fold(idx, vals)
    if r is not None:
        return r
    k = (n - 1).bit_length()

    def tree(lo, hi, bit):
        if lo >= n:
            return vals[n - 1]
        if hi - lo == 1:
            return vals[lo]
        mid = (lo + hi) // 2
        if mid >= n:
            return tree(lo, mid, bit - 1)
        return ite(ext(idx, bit, bit), tree(mid, hi, bit - 1), tree(lo, mid, bit - 1))
    return tree(0, 1 << k, k - 1)


class Flat(Content):
    """concretely addressed overlay: bytes dict + sorted constant ranges over a parent"""
    __slots__ = ('p', 'b', 'r', 'own')

    def __init__(self, p, b=None, r=None, own=None):
        self.p = p
        self.b = b if b is not None else {}
        self.r = r if r is not None else []   # list of (start, end, fn(rel term)->byte, start0)
        self.own = own

    def copy(self, own):
        return Flat(self.p, dict(self.b), list(self.r), own)

    def find(self, o):
        r = self.r
        if not r:
            return None
        lo, hi = 0, len(r)
        while lo < hi:
            mid = (lo + hi) // 2
            if r[mid][0] <= o:
                lo = mid + 1
            else:
                hi = mid
        if lo and r[lo - 1][1] > o:
            return r[lo - 1]
        return None

    def byte(self, off, q=None):
        if off.op == 'const':
            o = off.v
            x = self.b.get(o)
            if x is not None:
                return x
            rg = self.find(o)
            if rg is not None:
                return rg[2](C64(o - rg[3]))
            return self.p.byte(off, q)
        lo, hi = tm.umin(off), tm.umax(off)
        if lo == hi:
            return self.byte(C64(lo), q)
        # whole possible range inside one range piece without byte overrides?
        rg = self.find(lo)
        if rg is not None and hi < rg[1] and not self._any_bytes(lo, hi):
            return rg[2](sub(off, C64(rg[3])))
        if not self.b and not any(r[0] <= hi and r[1] > lo for r in self.r):
            return self.p.byte(off, q)
        if hi - lo <= 4096 and not (isinstance(self.p, Fn) and not self.r and len(self.b) <= 2):
            base, g, idx = stride_of(off)
            if idx is None:
                base, g = lo, 1
            n = (hi - base) // g + 1
            if not any((base + g * j) in self.b or self.find(base + g * j) for j in range(n)):
                return self.p.byte(off, q)
            if n <= 1024:
                return mux(off, lo, hi, lambda i: self.byte(C64(i), q))
        # generic chain
        res = self.p.byte(off, q)
        for s, e, fn, s0 in self.r:
            if s <= hi and e > lo:
                res = ite(ult(sub(off, C64(s)), C64(e - s)), fn(sub(off, C64(s0))), res)
        for o, v in self.b.items():
            if lo <= o <= hi:
                res = ite(eq(off, C64(o)), v, res)
        return res

    def _any_bytes(self, lo, hi):
        if not self.b:
            return False
        if hi - lo < len(self.b):
            return any(i in self.b for i in range(lo, hi + 1))
        return any(lo <= i <= hi for i in self.b)


class SymStore(Content):
    __slots__ = ('p', 'off', 'vals')

    def __init__(self, p, off, vals):
        self.p, self.off, self.vals = p, off, vals

    def byte(self, off, q=None):
        d = sub(off, self.off)
        n = len(self.vals)
        if d.op == 'const':
            return self.vals[d.v] if d.v < n else self.p.byte(off, q)
        lo, hi = tm.umin(off), tm.umax(off)
        slo, shi = tm.umin(self.off), tm.umax(self.off)
        if hi < slo or lo > shi + n - 1:
            return self.p.byte(off, q)
        res = self.p.byte(off, q)
        for i, v in enumerate(self.vals):
            c = eq(d, C64(i)) if i else eq(off, self.off)
            if q is not None and c.op != 'const':
                c = q(c)
            res = ite(c, v, res)
        return res


class Range(Content):
    """bytes [start, start+len) are fn(rel)"""
    __slots__ = ('p', 'start', 'len', 'fn')

    def __init__(self, p, start, ln, fn):
        self.p, self.start, self.len, self.fn = p, start, ln, fn

    def byte(self, off, q=None):
        d = sub(off, self.start)
        c = ult(d, self.len)
        if c.op != 'const' and q is not None:
            c = q(c)
        if c is tm.TRUE:
            return self.fn(d)
        if c is tm.FALSE:
            return self.p.byte(off, q)
        return ite(c, self.fn(d), self.p.byte(off, q))


class IteC(Content):
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def byte(self, off, q=None):
        c = self.c
        if q is not None:
            c = q(c)
        if c is tm.TRUE:
            return self.x.byte(off, q)
        if c is tm.FALSE:
            return self.y.byte(off, q)
        return ite(c, self.x.byte(off, q), self.y.byte(off, q))


def merge(c, x, y, own=None):
    if x is y:
        return x
    # same parent, only byte overlays differ -> merge byte-wise
    if isinstance(x, Flat) and isinstance(y, Flat) and x.p is y.p and x.r == y.r:
        keys = set(x.b) | set(y.b)
        if len(keys) <= 8192:
            b = {}
            for k in keys:
                u = x.b.get(k)
                v = y.b.get(k)
                if u is None:
                    u = x.byte(C64(k))
                if v is None:
                    v = y.byte(C64(k))
                b[k] = ite(c, u, v)
            return Flat(x.p, b, list(x.r), own)
    if isinstance(x, Flat) and x.p is y and not x.r and not isinstance(y, Flat):
        return Flat(y, {k: ite(c, v, y.byte(C64(k))) for k, v in x.b.items()}, [], own)
    if isinstance(y, Flat) and y.p is x and not y.r and not isinstance(x, Flat):
        return Flat(x, {k: ite(c, x.byte(C64(k)), v) for k, v in y.b.items()}, [], own)
    return IteC(c, x, y)


def store_bytes(cont, off, vals, own):
    """vals: list of byte terms at consecutive offsets"""
    if off.op == 'const':
        o = off.v
        if isinstance(cont, Flat):
            if cont.own is not own:
                cont = cont.copy(own)
        else:
            cont = Flat(cont, own=own)
        b = cont.b
        for i, v in enumerate(vals):
            b[o + i] = v
        return cont
    lo, hi = tm.umin(off), tm.umax(off)
    if lo == hi:
        return store_bytes(cont, C64(lo), vals, own)
    return SymStore(cont, off, list(vals))


def store_range(cont, start, ln, fn, own):
    """[start,start+ln) := fn(rel)"""
    if ln.op == 'const' and ln.v == 0:
        return cont
    if start.op == 'const' and ln.op == 'const':
        s, n = start.v, ln.v
        if n <= 64:
            return store_bytes(cont, start, [fn(C64(i)) for i in range(n)], own)
        return flat_range(cont, s, n, fn, own)
    return Range(cont, start, ln, fn)


def flat_range(cont, s, n, fn, own):
    if isinstance(cont, Flat):
        if cont.own is not own:
            cont = cont.copy(own)
    else:
        cont = Flat(cont, own=own)
    e = s + n
    if cont.b:
        if len(cont.b) < n:
            for k in [k for k in cont.b if s <= k < e]:
                del cont.b[k]
        else:
            for k in range(s, e):
                cont.b.pop(k, None)
    nr = []
    keep = cont.r
    # fast path: append at the end / no overlap
    overlap = False
    for (a, b_, f, s0) in keep:
        if a < e and b_ > s:
            overlap = True
            break
    if overlap:
        for (a, b_, f, s0) in keep:
            if a < e and b_ > s:
                if a < s:
                    nr.append((a, s, f, s0))
                if b_ > e:
                    nr.append((e, b_, f, s0))
            else:
                nr.append((a, b_, f, s0))
        nr.append((s, e, fn, s))
        nr.sort(key=lambda x: x[0])
        cont.r = nr
    else:
        import bisect
        starts = [x[0] for x in keep]
        i = bisect.bisect_right(starts, s)
        keep.insert(i, (s, e, fn, s))
    return cont
