"""Canonical forms over GF(2): every bit of a term is a polynomial (XOR of monomials over atoms)
plus XOR of small truth tables, aggregated per canonical argument vector.  Two terms with the same
canonical forms are equal for all inputs (sound); opaque operators are treated as uninterpreted."""
from . import terms as tm
import sys

MAXMONO = 20000


TABC = {}
TABKEEP = {}
_hm = {}


def halfmask(i, n):
    """bit positions (of 2^n) whose i-th index bit is 0"""
    r = _hm.get((i, n))
    if r is None:
        s = 1 << i
        r = 0
        blk = (1 << s) - 1
        for j in range(0, 1 << n, 2 * s):
            r |= blk << j
        _hm[(i, n)] = r
    return r


class TooBig(Exception):
    pass


class Form:
    __slots__ = ('m', 't', 'id', 'key')


class Canon:
    def __init__(self):
        self.forms = {}
        self.atoms = {}
        self.atomlist = [None]
        self.monos = {(): 0}
        self.monolist = [()]
        self.cache = {}
        self.anfc = {}
        self.prodc = {}
        self.ZERO = self.mk(frozenset(), ())
        self.ONE = self.mk(frozenset((0,)), ())
        self.vecs = {}
        self.linrules = None

    def mk(self, m, t):
        k = (m, t)
        f = self.forms.get(k)
        if f is None:
            f = Form()
            f.m, f.t = m, t
            f.id = len(self.forms)
            self.forms[k] = f
        return f

    def atom(self, key):
        a = self.atoms.get(key)
        if a is None:
            a = len(self.atomlist)
            self.atomlist.append(key)
            self.atoms[key] = a
        return a

    def mono(self, atoms):
        m = self.monos.get(atoms)
        if m is None:
            m = len(self.monolist)
            self.monolist.append(atoms)
            self.monos[atoms] = m
        return m

    def abit(self, key):
        return self.mk(frozenset((self.mono((self.atom(key),)),)), ())

    def xor(self, a, b):
        if a is self.ZERO:
            return b
        if b is self.ZERO:
            return a
        m = a.m ^ b.m
        if not a.t:
            t = b.t
        elif not b.t:
            t = a.t
        else:
            d = dict(a.t)
            for k, v in b.t:
                x = d.get(k, 0) ^ v
                if x:
                    d[k] = x
                else:
                    d.pop(k, None)
            t = tuple(sorted(d.items()))
        return self.mk(m, t)

    def xors(self, fs):
        m = set()
        d = {}
        for f in fs:
            m ^= f.m
            for k, v in f.t:
                x = d.get(k, 0) ^ v
                if x:
                    d[k] = x
                else:
                    d.pop(k, None)
        return self.mk(frozenset(m), tuple(sorted(d.items())))

    def flat(self, f):
        """all terms as monomials (truth tables become opaque atoms)"""
        if not f.t:
            return f.m
        m = set(f.m)
        for k, v in f.t:
            m ^= {self.mono((self.atom(('tt', k, v)),))}
        return m

    def mul(self, a, b):
        if a is self.ZERO or b is self.ZERO:
            return self.ZERO
        if a is self.ONE:
            return b
        if b is self.ONE:
            return a
        if a is b:
            return a
        if a.id > b.id:
            a, b = b, a
        k = (a.id, b.id)
        r = self.prodc.get(k)
        if r is not None:
            return r
        # complementary?
        if self.xor(a, b) is self.ONE:
            r = self.ZERO
        else:
            x, y = self.flat(a), self.flat(b)
            if len(x) * len(y) > 6000:
                r = self.abit(('and', a.id, b.id))
            else:
                m = set()
                for p in x:
                    pa = self.monolist[p]
                    for q in y:
                        qa = self.monolist[q]
                        if not pa:
                            n = q
                        elif not qa:
                            n = p
                        elif pa == qa:
                            n = p
                        else:
                            n = self.mono(tuple(sorted(set(pa) | set(qa))))
                        if n in m:
                            m.discard(n)
                        else:
                            m.add(n)
                r = self.mk(frozenset(m), ())
        self.prodc[k] = r
        return r

    def not_(self, a):
        return self.xor(a, self.ONE)

    # ------------------------------------------------------------ truth tables
    def anf(self, tt, n):
        """split truth table (int bitmask of 2^n) -> (nonlinear part truth table, linear coefs, const)"""
        k = (tt, n)
        r = self.anfc.get(k)
        if r is not None:
            return r
        N = 1 << n
        # Moebius transform on bitmask ints
        a = tt
        for i in range(n):
            a ^= (a & halfmask(i, n)) << (1 << i)
        c = a & 1
        lin = [(a >> (1 << i)) & 1 for i in range(n)]
        a &= ~1
        for i in range(n):
            a &= ~(1 << (1 << i))
        # back to truth table
        t = a
        for i in range(n):
            t ^= (t & halfmask(i, n)) << (1 << i)
        r = (t, lin, c)
        self.anfc[k] = r
        return r

    def lookup(self, table, idx, w):
        """table lookup; idx list of forms (LSB first)"""
        n = len(idx)
        # constant index bits
        free = []
        base = 0
        N = 1 << n
        tb = list(table) + [0] * (N - len(table))
        # absorb constants (complement) of the arguments
        flip = 0
        args = []
        for i, f in enumerate(idx):
            if f is self.ZERO:
                continue
            if f is self.ONE:
                base |= 1 << i
                continue
            if 0 in f.m:
                f = self.mk(f.m ^ {0}, f.t)
                flip |= 1 << i
            # duplicates
            args.append((f, i))
        # merge equal arguments
        uniq = {}
        for f, i in args:
            uniq.setdefault(f.id, (f, []))[1].append(i)
        order = sorted(uniq)
        k = len(order)
        argf = [uniq[fid][0] for fid in order]
        pk = (id(table), n, w, base, flip, tuple(tuple(uniq[fid][1]) for fid in order))
        pat = TABC.get(pk)
        if pat is None:
            pat = self.pattern(tb, w, base, flip, [uniq[fid][1] for fid in order])
            TABC[pk] = pat
            TABKEEP[id(table)] = table
        out = []
        for t, dep, lin, c in pat:
            parts = [argf[b] for b in lin]
            if c:
                parts.append(self.ONE)
            if t:
                if len(dep) == 2:
                    parts.append(self.mul(argf[dep[0]], argf[dep[1]]))
                else:
                    parts.append(self.mk(frozenset(), ((tuple(order[i] for i in dep), t),)))
            out.append(self.xors(parts) if len(parts) != 1 else parts[0])
        return out

    def pattern(self, tb, w, base, flip, groups):
        """per output bit: (nonlinear truth table over dep, dep, linear arguments, constant)"""
        k = len(groups)
        masks = [sum(1 << i for i in g) for g in groups]
        offs = [base ^ flip]
        for m in masks:
            offs += [o ^ m for o in offs]
        sub = [tb[o] for o in offs]
        out = []
        for bit in range(w):
            tt = int(''.join('1' if (v >> bit) & 1 else '0' for v in reversed(sub)), 2)
            t, lin, c = self.anf(tt, k)
            dep = ()
            if t:
                dep, t = self.shrink(t, k)
            out.append((t, dep, [b for b in range(k) if lin[b]], c))
        return out

    def shrink(self, t, k):
        """drop arguments the table does not depend on"""
        dep = []
        N = 1 << k
        for i in range(k):
            sh = 1 << i
            mask = halfmask(i, k)
            if ((t >> sh) & mask) != (t & mask):
                dep.append(i)
        if len(dep) == k:
            return tuple(dep), t
        nt = 0
        for j in range(1 << len(dep)):
            o = 0
            for b, i in enumerate(dep):
                if (j >> b) & 1:
                    o |= 1 << i
            if (t >> o) & 1:
                nt |= 1 << j
        return tuple(dep), nt

    # ------------------------------------------------------------ terms
    def bits(self, root):
        c = self.cache
        r = c.get(root.id)
        if r is not None:
            return r
        for t in tm.topo([root]):
            if t.id not in c:
                c[t.id] = self.one(t)
        return c[root.id]

    def vec(self, fs):
        k = tuple(f.id for f in fs)
        v = self.vecs.get(k)
        if v is None:
            v = len(self.vecs)
            self.vecs[k] = v
        return v

    def opaque(self, t):
        key = (t.op, t.v if not isinstance(t.v, list) else tuple(t.v), tuple(self.vec(self.cache[a.id]) for a in t.args))
        if t.op in ('mul', 'and', 'or', 'eq') and len(t.args) == 2:
            key = (t.op, t.v, tuple(sorted(key[2])))
        return tuple(self.abit((key, i)) for i in range(t.w))

    def one(self, t):
        op = t.op
        c = self.cache
        w = t.w
        if op == 'const':
            return tuple(self.ONE if (t.v >> i) & 1 else self.ZERO for i in range(w))
        if op in ('var', 'addr'):
            return tuple(self.abit((op, t.v, i)) for i in range(w))
        a = [c[x.id] for x in t.args]
        if op == 'xor':
            if len(a) == 2:
                return tuple(self.xor(x, y) for x, y in zip(*a))
            return tuple(self.xors(fs) for fs in zip(*a))
        if op == 'not':
            return tuple(self.not_(x) for x in a[0])
        if op == 'and':
            r = a[0]
            for b in a[1:]:
                r = tuple(self.mul(x, y) for x, y in zip(r, b))
            return r
        if op == 'or':
            r = a[0]
            for b in a[1:]:
                r = tuple(self.xors([x, y, self.mul(x, y)]) for x, y in zip(r, b))
            return r
        if op == 'concat':
            r = []
            for x in reversed(a):
                r.extend(x)
            return tuple(r)
        if op == 'ext':
            hi, lo = t.v
            return a[0][lo:hi + 1]
        if op == 'sext':
            return tuple(a[0]) + (a[0][-1],) * (w - len(a[0]))
        if op == 'ite':
            s = a[0][0]
            return tuple(x if x is y else self.xor(y, self.mul(s, self.xor(x, y))) for x, y in zip(a[1], a[2]))
        if op == 'tab':
            if len(a[0]) <= 10:
                return tuple(self.lookup(t.v, a[0], w))
            return self.opaque(t)
        if op == 'eq':
            d = [self.xor(x, y) for x, y in zip(a[0], a[1])]
            if all(x is self.ZERO for x in d):
                return (self.ONE,)
            if any(x is self.ONE for x in d):
                return (self.ZERO,)
            d = [x for x in d if x is not self.ZERO]
            if len(d) <= 3:
                r = self.ONE
                for x in d:
                    r = self.mul(r, self.not_(x))
                return (r,)
            return (self.abit(('eqz', tuple(sorted(x.id for x in set(d))))),)
        if op == 'uf':
            r = UFHOOK.get(t.v if not isinstance(t.v, tuple) else t.v[0])
            if r is not None:
                x = r(self, t, a)
                if x is not None:
                    return x
        return self.opaque(t)

    def equal(self, a, b):
        x, y = self.bits(a), self.bits(b)
        return all(p is q for p, q in zip(x, y))


UFHOOK = {}
