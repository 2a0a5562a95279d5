"""Hash-consed bit-vector terms with simplification, evaluation and SMT translation.

Every value of the symbolic executor is a term: integers of any width, booleans
(width 1) and pointers (64-bit linear terms over one 'addr' atom per object).
"""
import sys, hashlib, random
sys.setrecursionlimit(200000)

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'w', 'args', 'v', 'id', 'um', 'ones', '_sup')

    def __repr__(self):
        return show(self, 6)


def _mk(op, w, args=(), v=None):
    key = (op, w, v, tuple(map(id, args)))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.args = args
        t.v = v
        _cnt[0] += 1
        t.id = _cnt[0]
        t.um = None
        t.ones = None
        t._sup = None
        _tab[key] = t
    return t


def show(t, d=4):
    if t.op == 'const':
        return hex(t.v)
    if t.op in ('var', 'addr'):
        return str(t.v)
    if d == 0:
        return '..%d' % t.id
    if t.op == 'lin':
        c, cs = t.v
        return '(' + ' + '.join('%s%s' % ('' if k == 1 else '%d*' % sgn(k, t.w), show(a, d - 1)) for k, a in zip(cs, t.args)) + (' + %d' % sgn(c, t.w) if c else '') + ')'
    v = '' if t.v is None else (str(t.v) if not isinstance(t.v, tuple) or len(t.v) < 5 else 'tab')
    return '%s%s(%s)' % (t.op, ('[%s]' % v) if v else '', ', '.join(show(a, d - 1) for a in t.args))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


_consts = {}


def const(w, v):
    t = _consts.get((w, v))
    if t is None:
        t = _consts[w, v] = _mk('const', w, (), v & ((1 << w) - 1))
    return t


TRUE = const(1, 1)
FALSE = const(1, 0)


def boolc(b):
    return TRUE if b else FALSE


_VARB = {}
VARMAX = {}  # var id -> (lo, hi) unsigned range facts attached to variables


def var(w, name, lo=None, hi=None):
    """a variable; the same name with other bounds is another variable (bounds are facts about it)"""
    b = (lo or 0, hi if hi is not None else (1 << w) - 1) if hi is not None or lo is not None else None
    nm = name
    k = 0
    while True:
        have = _VARB.setdefault((w, nm), b)
        if have == b:
            break
        k += 1
        nm = "%s'%d" % (name, k)
    t = _mk('var', w, (), nm)
    if b is not None and t.id not in VARMAX:
        VARMAX[t.id] = b
        t.um = None
        t.ones = None
    return t


_fresh = [0]


def fresh(w, base='v', lo=None, hi=None):
    _fresh[0] += 1
    return var(w, '%s!%d' % (base, _fresh[0]), lo, hi)


def addr(name):
    return _mk('addr', 64, (), name)


def umax(t):
    if t.um is not None:
        return t.um
    m = (1 << t.w) - 1
    op = t.op
    r = m
    if op == 'const':
        r = t.v
    elif op == 'var':
        if t.id in VARMAX:
            return VARMAX[t.id][1]
    elif op == 'concat':
        r = 0
        for a in t.args:
            r = (r << a.w) | umax(a)
    elif op == 'ext':
        hi, lo = t.v
        a = umax(t.args[0])
        if (a >> lo) < (1 << t.w):
            r = a >> lo
    elif op == 'ite':
        r = max(umax(t.args[1]), umax(t.args[2]))
    elif op == 'and':
        r = min(umax(a) for a in t.args)
    elif op in ('or', 'xor'):
        b = max(umax(a).bit_length() for a in t.args)
        r = (1 << b) - 1
    elif op == 'lin':
        c, cs = t.v
        s = c
        for k, a in zip(cs, t.args):
            s += k * umax(a)
        if s <= m:
            r = s
        else:
            # x + (-c) style: cannot bound cheaply
            r = m
    elif op == 'udiv' and t.args[1].op == 'const' and t.args[1].v:
        r = umax(t.args[0]) // t.args[1].v
    elif op == 'urem' and t.args[1].op == 'const' and t.args[1].v:
        r = min(umax(t.args[0]), t.args[1].v - 1)
    elif op == 'tab':
        r = max(t.v)
    elif op == 'mul':
        p = umax(t.args[0]) * umax(t.args[1])
        r = min(p, m)
    elif op in ('lshr', 'urem'):
        r = umax(t.args[0])
    if r > m:
        r = m
    t.um = r
    return r


def umin(t):
    if t.op == 'const':
        return t.v
    if t.op == 'var' and t.id in VARMAX:
        return VARMAX[t.id][0]
    if t.op == 'lin':
        c, cs = t.v
        mx = c
        s = c
        for k, a in zip(cs, t.args):
            mx += k * umax(a)
            s += k * umin(a)
        if mx < (1 << t.w):
            return s
        # try negative coefficients: c - k*x with k*max(x) <= c
        m = 1 << t.w
        lo = c
        hi = c
        for k, a in zip(cs, t.args):
            if k > m // 2:
                lo -= (m - k) * umax(a)
                hi -= (m - k) * umin(a)
            else:
                lo += k * umin(a)
                hi += k * umax(a)
        if 0 <= lo and hi < m:
            return lo
        return 0
    if t.op == 'concat':
        r = 0
        for a in t.args:
            r = (r << a.w) | umin(a)
        return r
    if t.op == 'ite':
        return min(umin(t.args[1]), umin(t.args[2]))
    return 0


def ones(t):
    """mask of bits that may be one"""
    if t.ones is not None:
        return t.ones
    op = t.op
    m = (1 << t.w) - 1
    if op == 'const':
        r = t.v
    elif op == 'concat':
        r = 0
        for a in t.args:
            r = (r << a.w) | ones(a)
    elif op == 'ext':
        hi, lo = t.v
        r = (ones(t.args[0]) >> lo) & m
    elif op == 'ite':
        r = ones(t.args[1]) | ones(t.args[2])
    elif op == 'and':
        r = m
        for a in t.args:
            r &= ones(a)
    elif op in ('or', 'xor'):
        r = 0
        for a in t.args:
            r |= ones(a)
    elif op == 'tab':
        r = 0
        for x in t.v:
            r |= x
    else:
        r = (1 << umax(t).bit_length()) - 1
        if op == 'var' and t.id in VARMAX:
            return r
    t.ones = r
    return r


# ---------------------------------------------------------------- linear sums
def _lin_parts(t):
    if t.op == 'const':
        return t.v, {}
    if t.op == 'lin':
        c, cs = t.v
        return c, dict((a, k) for k, a in zip(cs, t.args))
    return 0, {t: 1}


def _mklin(w, c, d):
    m = (1 << w) - 1
    c &= m
    items = [(a, k & m) for a, k in d.items() if k & m]
    if not items:
        return const(w, c)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk('lin', w, tuple(a for a, k in items), (c, tuple(k for a, k in items)))


def add(a, b):
    w = a.w
    if w == 1:
        return xor(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(w, a.v + b.v)
    if a.op == 'const' and a.v == 0:
        return b
    if b.op == 'const' and b.v == 0:
        return a
    if a.op == 'ite' and b.op == 'const' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == 'ite' and a.op == 'const' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], add(b.args[1], a), add(b.args[2], a))
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'lin':
            c, cs = a.v
            c = (c + b.v) & ((1 << w) - 1)
            if c == 0 and cs == (1,):
                return a.args[0]
            return _mk('lin', w, a.args, (c, cs))
        return _mk('lin', w, (a,), (b.v, (1,)))
    c1, d1 = _lin_parts(a)
    c2, d2 = _lin_parts(b)
    d = dict(d1)
    for x, k in d2.items():
        d[x] = d.get(x, 0) + k
    return _mklin(w, c1 + c2, d)


def neg(a):
    c, d = _lin_parts(a)
    return _mklin(a.w, -c, {x: -k for x, k in d.items()})


def sub(a, b):
    if a.w == 1:
        return xor(a, b)
    return add(a, neg(b))


def mulc(a, k):
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], mulc(a.args[1], k), mulc(a.args[2], k))
    c, d = _lin_parts(a)
    return _mklin(a.w, c * k, {x: kk * k for x, kk in d.items()})


def mul(a, b):
    if a.w == 1:
        return band(a, b)
    if a.op == 'const':
        return mulc(b, a.v)
    if b.op == 'const':
        return mulc(a, b.v)
    for x, y in ((a, b), (b, a)):
        # (zext of a bit) * y
        if x.op == 'concat' and umax(x) == 1:
            return ite(ext(x, 0, 0), y, const(y.w, 0))
        if x.op == 'ite' and x.args[1].op == 'const' and x.args[2].op == 'const':
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', a.w, (a, b))


# ---------------------------------------------------------------- bit structure
def concat(*ts):
    """most significant first"""
    out = []
    for t in ts:
        if t.op == 'concat':
            out.extend(t.args)
        else:
            out.append(t)
    # merge adjacent
    res = []
    for t in out:
        if res:
            p = res[-1]
            if p.op == 'const' and t.op == 'const':
                res[-1] = const(p.w + t.w, (p.v << t.w) | t.v)
                continue
            if p.op == 'ext' and t.op == 'ext' and p.args[0] is t.args[0] and p.v[1] == t.v[0] + 1:
                m = _ext(p.args[0], p.v[0], t.v[1])
                if m.op == 'concat':
                    res.pop()
                    res.extend(m.args)
                else:
                    res[-1] = m
                continue
            if p.op == 'ext' and p.args[0].op == 'lin' and p.v[1] == t.w and t.op != 'const' and _ext(p.args[0], t.w - 1, 0) is t:
                # the low part of a sum was narrowed
                x = p.args[0]
                if len(res) == 2 and res[0].op == 'const' and res[0].v == 0 and res[0].w + p.w + t.w == x.w and umax(x) < (1 << (p.w + t.w)):
                    res = [x]
                    continue
                res[-1] = _ext(p.args[0], p.v[0], 0)
                continue
        res.append(t)
    if len(res) == 1:
        return res[0]
    # pieces of ite with the same condition: fuse to keep words together
    if all(t.op == 'ite' or t.op == 'const' for t in res):
        cs = set(t.args[0] for t in res if t.op == 'ite')
        if len(cs) == 1:
            c = cs.pop()
            return ite(c, concat(*[t.args[1] if t.op == 'ite' else t for t in res]),
                       concat(*[t.args[2] if t.op == 'ite' else t for t in res]))
    # zero-extended value of a full low-part extraction: concat(0, ext(x, h, 0)) with umax(x) < 2^(h+1)
    if len(res) == 2 and res[0].op == 'const' and res[0].v == 0 and res[1].op == 'ext' and res[1].v[1] == 0:
        x = res[1].args[0]
        if x.w == res[0].w + res[1].w and umax(x) < (1 << res[1].w):
            return x
    w = sum(t.w for t in res)
    return _mk('concat', w, tuple(res))


def ext(t, hi, lo):
    return _ext(t, hi, lo)


WORDS = False          # keep 32-bit sums opaque to shifts and bit selection (hash functions)


def _ext(t, hi, lo):
    w = hi - lo + 1
    if lo == 0 and w == t.w:
        return t
    op = t.op
    if op == 'const':
        return const(w, t.v >> lo)
    if op == 'ext':
        return _ext(t.args[0], t.v[1] + hi, t.v[1] + lo)
    if op == 'concat':
        pos = t.w
        parts = []
        for a in t.args:
            ahi = pos - 1
            alo = pos - a.w
            pos = alo
            if alo > hi or ahi < lo:
                continue
            h = min(hi, ahi) - alo
            l = max(lo, alo) - alo
            parts.append(_ext(a, h, l))
        return concat(*parts)
    if op == 'ite':
        a, b = t.args[1], t.args[2]
        if a.op in ('const', 'concat') or b.op in ('const', 'concat') or t.w > 64:
            return ite(t.args[0], _ext(a, hi, lo), _ext(b, hi, lo))
    if umax(t) >> lo == 0:
        return const(w, 0)
    if op == 'lin' and lo == 0 and not WORDS:
        c, cs = t.v
        r = const(w, c)
        for k, a in zip(cs, t.args):
            r = add(r, mulc(_ext(a, hi, 0), k & ((1 << w) - 1)) if w > 1 else (_ext(a, hi, 0) if k & 1 else const(1, 0)))
        return r
    if op == 'sext':
        a = t.args[0]
        if hi < a.w:
            return _ext(a, hi, lo)
    if op in ('and', 'or', 'xor'):
        if any(a.op in ('const',) for a in t.args) or all(a.op in ('concat', 'const') for a in t.args):
            f = {'and': band, 'or': bor, 'xor': xor}[op]
            r = None
            for a in t.args:
                e = _ext(a, hi, lo)
                r = e if r is None else f(r, e)
            return r
    if op == 'tab' and len(t.v) <= 256:
        return tab(tuple((x >> lo) & ((1 << w) - 1) for x in t.v), t.args[0], w)
    h = _HOOK_EXT.get(op)
    if h:
        r = h(t, hi, lo)
        if r is not None:
            return r
    return _mk('ext', w, (t,), (hi, lo))


_HOOK_EXT = {}


def zext(t, w):
    if t.w == w:
        return t
    if t.op == 'ext' and t.v[1] == 0 and t.args[0].w == w and umax(t.args[0]) < (1 << t.w):
        return t.args[0]
    if t.op == 'lin':
        # push through when no overflow is possible
        c, cs = t.v
        m = 1 << t.w
        hi = lo = c
        for k, a in zip(cs, t.args):
            if k >= m // 2:
                lo -= (m - k) * umax(a)
                hi -= (m - k) * umin(a)
            else:
                lo += k * umin(a)
                hi += k * umax(a)
        if hi < m and lo >= 0:
            r = const(w, c)
            for k, a in zip(cs, t.args):
                r = add(r, mulc(zext(a, w), k if k < m // 2 else k - m))
            return r
    return concat(const(w - t.w, 0), t)


def srange(t):
    """signed range (lo, hi) of t"""
    m = 1 << t.w
    if t.op == 'lin':
        c, cs = t.v
        best = None
        for cc in (c, c - m):
            hi = lo = cc
            for k, a in zip(cs, t.args):
                if k >= m // 2:
                    lo -= (m - k) * umax(a)
                    hi -= (m - k) * umin(a)
                else:
                    lo += k * umin(a)
                    hi += k * umax(a)
            if lo >= -m // 2 and hi < m // 2:
                best = (lo, hi)
                break
        if best:
            return best
    u = umax(t)
    if u < m // 2:
        return (umin(t), u)
    if t.op == 'const':
        s = sgn(t.v, t.w)
        return (s, s)
    if t.op == 'sext':
        return srange(t.args[0])
    if t.op == 'ite':
        a = srange(t.args[1])
        b = srange(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    return (-m // 2, m // 2 - 1)


def sext(t, w):
    if t.w == w:
        return t
    if t.op == 'const':
        return const(w, sgn(t.v, t.w))
    if umax(t) < (1 << (t.w - 1)):
        return zext(t, w)
    if t.op == 'lin':
        m = 1 << t.w
        c, cs = t.v
        for cc in (c, c - m):
            hi = lo = cc
            for k, a in zip(cs, t.args):
                if k >= m // 2:
                    lo -= (m - k) * umax(a)
                    hi -= (m - k) * umin(a)
                else:
                    lo += k * umin(a)
                    hi += k * umax(a)
            if lo >= -m // 2 and hi < m // 2:
                r = const(w, cc)
                for k, a in zip(cs, t.args):
                    r = add(r, mulc(zext(a, w), k if k < m // 2 else k - m))
                return r
    if t.op == 'ite' and (t.args[1].op == 'const' or t.args[2].op == 'const'):
        return ite(t.args[0], sext(t.args[1], w), sext(t.args[2], w))
    if t.op == 'sext':
        return sext(t.args[0], w)
    if t.w == 1:
        return ite(t, const(w, -1), const(w, 0))
    return _mk('sext', w, (t,))


def trunc(t, w):
    return _ext(t, w - 1, 0)


def _segs(t):
    return t.args if t.op == 'concat' else (t,)


def _zip_disjoint(a, b):
    """combine two words whose possibly-one bits are disjoint; None if pieces overlap structurally"""
    la = [x for x in _segs(a)]
    lb = [x for x in _segs(b)]
    out = []
    la.reverse()
    lb.reverse()
    while la:
        x = la.pop()
        y = lb.pop()
        w = min(x.w, y.w)
        if x.w > w:
            la.append(_ext(x, x.w - w - 1, 0))
            x = _ext(x, x.w - 1, x.w - w)
            if la[-1].op == 'concat':
                z = la.pop()
                la.extend(reversed(z.args))
        if y.w > w:
            lb.append(_ext(y, y.w - w - 1, 0))
            y = _ext(y, y.w - 1, y.w - w)
            if lb[-1].op == 'concat':
                z = lb.pop()
                lb.extend(reversed(z.args))
        if x.op == 'const' and x.v == 0:
            out.append(y)
        elif y.op == 'const' and y.v == 0:
            out.append(x)
        else:
            ox, oy = ones(x), ones(y)
            if w > 1 and ox & oy == 0:
                # split at the highest nonzero bit of one of them
                bl = min(ox.bit_length(), oy.bit_length())
                if 0 < bl < w:
                    la.append(_ext(x, bl - 1, 0))
                    lb.append(_ext(y, bl - 1, 0))
                    la.append(_ext(x, w - 1, bl))
                    lb.append(_ext(y, w - 1, bl))
                    continue
            return None
    return concat(*out)


def not_(a):
    if a.w == 1:
        if a.op == 'const':
            return boolc(not a.v)
        if a.op == 'not':
            return a.args[0]
        return _mk('not', 1, (a,))
    return xor(a, const(a.w, -1))


def xor(a, b):
    w = a.w
    if w == 1:
        if a.op == 'const':
            return not_(b) if a.v else b
        if b.op == 'const':
            return not_(a) if b.v else a
        if a is b:
            return FALSE
        if a.op == 'not' and b.op == 'not':
            return xor(a.args[0], b.args[0])
        if a.op == 'not':
            return not_(xor(a.args[0], b))
        if b.op == 'not':
            return not_(xor(a, b.args[0]))
        if a.id > b.id:
            a, b = b, a
        return _mk('xor', 1, (a, b))
    if a.op == 'const' and b.op == 'const':
        return const(w, a.v ^ b.v)
    if a is b:
        return const(w, 0)
    if a.op == 'const' and a.v == 0:
        return b
    if b.op == 'const' and b.v == 0:
        return a
    if ones(a) & ones(b) == 0:
        r = _zip_disjoint(a, b)
        if r is not None:
            return r
    cnt = {}
    c = 0
    for t in (a, b):
        for x in (t.args if t.op == 'xor' else (t,)):
            if x.op == 'const':
                c ^= x.v
            elif x in cnt:
                del cnt[x]
            else:
                cnt[x] = 1
    xs = sorted(cnt, key=lambda t: t.id)
    if not xs:
        return const(w, c)
    if c:
        xs.append(const(w, c))
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2 and c and xs[0].op == 'concat':
        # constant xor on a concat: distribute over the pieces
        t = xs[0]
        pos = w
        parts = []
        for s in t.args:
            pos -= s.w
            parts.append(xor(s, const(s.w, (c >> pos) & ((1 << s.w) - 1))))
        return concat(*parts)
    return _mk('xor', w, tuple(xs))


def _runs(mask, w):
    runs = []
    i = w - 1
    while i >= 0:
        b = (mask >> i) & 1
        j = i
        while j >= 0 and ((mask >> j) & 1) == b:
            j -= 1
        runs.append((i, j + 1, b))
        i = j
    return runs


def band(a, b):
    w = a.w
    if a is b:
        return a
    if a.op == 'const' and b.op == 'const':
        return const(w, a.v & b.v)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.v == 0:
            return a
        if a.v == (1 << w) - 1:
            return b
        if ones(b) & ~a.v == 0:
            return b
        if ones(b) & a.v == 0:
            return const(w, 0)
        rs = _runs(a.v, w)
        if len(rs) <= 9:
            return concat(*[_ext(b, h, l) if bit else const(h - l + 1, 0) for h, l, bit in rs])
    if w == 1:
        if (a.op == 'not' and a.args[0] is b) or (b.op == 'not' and b.args[0] is a):
            return FALSE
        # absorption in flat conjunctions
        xs = {}
        for t in (a, b):
            for x in (t.args if t.op == 'and' else (t,)):
                xs[x] = 1
        for x in xs:
            if x.op == 'not' and x.args[0] in xs:
                return FALSE
        l = sorted(xs, key=lambda t: t.id)
        if len(l) == 1:
            return l[0]
        return _mk('and', 1, tuple(l))
    if ones(a) & ones(b) == 0:
        return const(w, 0)
    if a.op == 'ite' and a.args[1].op == 'const' and a.args[2].op == 'const':
        return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], band(b.args[1], a), band(b.args[2], a))
    if a.op == 'sext' and a.args[0].w == 1:
        return ite(a.args[0], b, const(w, 0))
    if a.id > b.id:
        a, b = b, a
    return _mk('and', w, (a, b))


def bor(a, b):
    w = a.w
    if a is b:
        return a
    if a.op == 'const' and b.op == 'const':
        return const(w, a.v | b.v)
    if b.op == 'const':
        a, b = b, a
    if a.op == 'const':
        if a.v == 0:
            return b
        if a.v == (1 << w) - 1:
            return a
    if w == 1:
        return not_(band(not_(a), not_(b)))
    if ones(a) & ones(b) == 0:
        r = _zip_disjoint(a, b)
        if r is not None:
            return r
    if a.op == 'const':
        rs = _runs(a.v, w)
        if len(rs) <= 9:
            return concat(*[const(h - l + 1, -1) if bit else _ext(b, h, l) for h, l, bit in rs])
    if a.id > b.id:
        a, b = b, a
    return _mk('or', w, (a, b))


def shl(a, b):
    w = a.w
    if b.op == 'const':
        n = b.v
        if n == 0:
            return a
        if n >= w:
            return const(w, 0)
        if (a.op == 'lin' or a.op == 'var' and w == 64) and not WORDS:
            return mulc(a, 1 << n)
        return concat(_ext(a, w - 1 - n, 0), const(n, 0))
    if a.op == 'const' and a.v == 0:
        return a
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return _mk('shl', w, (a, b))


def lshr(a, b):
    w = a.w
    if b.op == 'const':
        n = b.v
        if n == 0:
            return a
        if n >= w:
            return const(w, 0)
        if a.op == 'lin':
            q = div_lin(a, 1 << n)
            if q is not None:
                return q[0]
            q = split_rem(a, 1 << n)
            if q is not None:
                return q[0]
        return concat(const(n, 0), _ext(a, w - 1, n))
    if a.op == 'const' and a.v == 0:
        return a
    if b.op == 'ite' and b.args[1].op == 'const' and b.args[2].op == 'const':
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return _mk('lshr', w, (a, b))


def ashr(a, b):
    w = a.w
    if umax(a) < (1 << (w - 1)):
        return lshr(a, b)
    if b.op == 'const':
        n = b.v
        if n == 0:
            return a
        if a.op == 'const':
            return const(w, sgn(a.v, w) >> min(n, w - 1))
        n = min(n, w - 1)
        return sext(_ext(a, w - 1, n), w)
    return _mk('ashr', w, (a, b))


def div_lin(t, n):
    """t = n*q + r with constant 0<=r<n and no wrap: returns (q, r) or None"""
    if t.op == 'const':
        return const(t.w, t.v // n), t.v % n
    if t.op == 'concat':
        # low constant bits?
        if n & (n - 1) == 0:
            k = n.bit_length() - 1
            lo = _ext(t, k - 1, 0) if k else None
            if k == 0:
                return t, 0
            if lo.op == 'const':
                return concat(const(k, 0), _ext(t, t.w - 1, k)), lo.v
    if t.op != 'lin':
        if n == 1:
            return t, 0
        return None
    c, cs = t.v
    m = 1 << t.w
    hi = c
    lo = c
    d = {}
    for k, a in zip(cs, t.args):
        kk = k if k < m // 2 else k - m
        if kk % n:
            return None
        if kk >= 0:
            hi += kk * umax(a)
            lo += kk * umin(a)
        else:
            hi += kk * umin(a)
            lo += kk * umax(a)
        d[a] = kk // n
    if hi >= m or lo < 0:
        cc = c - m
        hi -= m
        lo -= m
        if hi >= m or lo < 0:
            return None
        c = cc
    return _mklin(t.w, c // n, d), c % n


def split_rem(t, n):
    """t = n*q + r with 0 <= r < n for every value, no wrap: (q, r) terms, or None"""
    if t.op != 'lin' or WORDS:
        return None
    c, cs = t.v
    m = 1 << t.w
    if c >= m // 2:
        c -= m
    cr, cq = c % n, c // n
    q, r = {}, {}
    qlo = qhi = cq
    rlo = rhi = cr
    for k, a in zip(cs, t.args):
        kk = k if k < m // 2 else k - m
        x, y = (umin(a), umax(a)) if kk >= 0 else (umax(a), umin(a))
        if kk % n == 0:
            q[a] = kk // n
            qlo += q[a] * x
            qhi += q[a] * y
        else:
            r[a] = kk
            rlo += kk * x
            rhi += kk * y
    if not r or not q and not cq:
        if rlo >= 0 and rhi < n and not q:
            return const(t.w, 0), t
        return None
    s = rlo // n
    if s:
        # move a constant multiple of n over
        qlo += s
        qhi += s
        cq += s
        cr -= s * n
        rlo -= s * n
        rhi -= s * n
    if rlo < 0 or rhi >= n or qlo < 0 or n * qhi + n - 1 >= m:
        return None
    qt = _mklin(t.w, cq % m, q) if q else const(t.w, cq % m)
    return qt, _mklin(t.w, cr % m, r)


def udiv(a, b):
    if b.op == 'const' and b.v:
        if a.op == 'const':
            return const(a.w, a.v // b.v)
        if b.v == 1:
            return a
        q = div_lin(a, b.v)
        if q:
            return q[0]
        q = split_rem(a, b.v)
        if q:
            return q[0]
        if b.v & (b.v - 1) == 0:
            return lshr(a, const(a.w, b.v.bit_length() - 1))
        if umax(a) < b.v:
            return const(a.w, 0)
    return _mk('udiv', a.w, (a, b))


def urem(a, b):
    if b.op == 'const' and b.v:
        if a.op == 'const':
            return const(a.w, a.v % b.v)
        if b.v == 1:
            return const(a.w, 0)
        q = div_lin(a, b.v)
        if q:
            return const(a.w, q[1])
        q = split_rem(a, b.v)
        if q:
            return q[1]
        if b.v & (b.v - 1) == 0:
            return band(a, const(a.w, b.v - 1))
        if umax(a) < b.v:
            return a
    return _mk('urem', a.w, (a, b))


def sdiv(a, b):
    if a.op == 'const' and b.op == 'const' and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, b.w)
        q = abs(x) // abs(y)
        return const(a.w, q if (x < 0) == (y < 0) else -q)
    if umax(a) < 1 << (a.w - 1) and umax(b) < 1 << (a.w - 1):
        return udiv(a, b)
    return _mk('sdiv', a.w, (a, b))


def srem(a, b):
    if a.op == 'const' and b.op == 'const' and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, b.w)
        r = abs(x) % abs(y)
        return const(a.w, -r if x < 0 else r)
    if umax(a) < 1 << (a.w - 1) and umax(b) < 1 << (a.w - 1):
        return urem(a, b)
    return _mk('srem', a.w, (a, b))


def ite(c, a, b):
    if c.op == 'const':
        return a if c.v else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == 'const':
            return bor(c, b) if a.v else band(not_(c), b)
        if b.op == 'const':
            return bor(not_(c), a) if b.v else band(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == 'ite' and b.args[1] is a:
        return ite(bor(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    return _mk('ite', a.w, (c, a, b))


def is_ptr_base(t):
    """(base addr atom, offset term) if t is addr + offset else None"""
    if t.op == 'addr':
        return t, const(64, 0)
    if t.op == 'lin':
        c, cs = t.v
        base = None
        for k, a in zip(cs, t.args):
            if a.op == 'addr':
                if k != 1 or base is not None:
                    return None
                base = a
        if base is None:
            return None
        return base, sub(t, base)
    return None


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return boolc(a.v == b.v)
    w = a.w
    if w == 1:
        return not_(xor(a, b))
    if a.op == 'uf' and b.op == 'uf' and INJ and a.v == b.v and (a.v[0] if isinstance(a.v, tuple) else a.v) in INJ:
        return band(*[eq(x, y) for x, y in zip(a.args, b.args)]) if len(a.args) > 1 else eq(a.args[0], b.args[0])
    if w == 64:
        pa, pb = is_ptr_base(a), is_ptr_base(b)
        if pa and pb:
            if pa[0] is pb[0]:
                return eq(pa[1], pb[1])
            return FALSE
        if (pa and b.op == 'const' and b.v < 4096) or (pb and a.op == 'const' and a.v < 4096):
            return FALSE
    if a.op in ('lin', 'const') or b.op in ('lin', 'const'):
        d = sub(a, b)
        if d.op == 'const':
            return boolc(d.v == 0)
        if a.op == 'lin' and b.op == 'lin' or (a.op == 'lin' and b.op == 'const' and False):
            # canonical orientation: d == 0
            pass
    if b.op == 'const' and a.op != 'const':
        a, b = b, a
    if a.op == 'const':
        if b.op == 'ite':
            x, y = b.args[1], b.args[2]
            if x.op == 'const' or y.op == 'const':
                return ite(b.args[0], eq(a, x), eq(a, y))
        if a.v > umax(b) or (a.v & ~ones(b)):
            return FALSE
        if a.v < umin(b):
            return FALSE
        if b.op == 'concat':
            pos = w
            r = TRUE
            for s in b.args:
                pos -= s.w
                r = band(r, eq(const(s.w, a.v >> pos), s))
                if r is FALSE:
                    return r
            return r
        if b.op == 'xor' and b.args[-1].op == 'const':
            c = b.args[-1]
            rest = b.args[:-1]
            r = rest[0] if len(rest) == 1 else _mk('xor', w, rest)
            return eq(const(w, a.v ^ c.v), r)
        if b.op == 'lin' and b.v[0]:
            c, cs = b.v
            return eq(const(w, a.v - c), _mklin(w, 0, dict(zip(b.args, cs))))
        if b.op == 'lin' and len(b.args) == 1:
            c, cs = b.v
            if cs[0] == (1 << w) - 1:
                return eq(const(w, -a.v), b.args[0])
        if b.op == 'sext':
            x = b.args[0]
            tv = a.v & ((1 << x.w) - 1)
            if const(w, sgn(tv, x.w)).v != a.v:
                return FALSE
            return eq(const(x.w, tv), x)
    else:
        if a.op == 'concat' and b.op == 'concat' and [x.w for x in a.args] == [x.w for x in b.args]:
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = band(r, eq(x, y))
                if r is FALSE:
                    return r
            return r
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            c, cs = d.v if d.op == 'lin' else (0, ())
            if d.op == 'lin':
                # move constant to the left
                m = 1 << w
                pos = {}
                negd = {}
                for k, x in zip(cs, d.args):
                    if k < m // 2:
                        pos[x] = k
                    else:
                        negd[x] = m - k
                l = _mklin(w, 0, pos)
                r = _mklin(w, -c, negd)
                if umax(l) < umin(r) or umax(r) < umin(l):
                    return FALSE
                a, b = l, r
                if a is b:
                    return TRUE
                if b.op == 'const' or a.op == 'const':
                    if a.op != 'const':
                        a, b = b, a
                    return _mk('eq', 1, (a, b))
    if a.id > b.id and a.op != 'const':
        a, b = b, a
    return _mk('eq', 1, (a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return boolc(a.v < b.v)
    if a.w == 64:
        pa, pb = is_ptr_base(a), is_ptr_base(b)
        if pa and pb and pa[0] is pb[0]:
            return slt(pa[1], pb[1])
    if umax(a) < umin(b):
        return TRUE
    if umin(a) >= umax(b):
        return FALSE
    if a.w == 64 and a.op == 'lin' and b.op != 'const':
        # operands that differ by a constant, without wrap-around
        d = sub(a, b)
        if d.op == 'const':
            if d.v < 1 << 63:
                if umax(b) + d.v < 1 << 64:
                    return FALSE
            elif umax(a) + (1 << 64) - d.v < 1 << 64:
                return TRUE
    elif a.w == 64 and b.op == 'lin' and a.op != 'const':
        d = sub(b, a)
        if d.op == 'const' and d.v < 1 << 63 and umax(a) + d.v < 1 << 64:
            return boolc(d.v != 0)
    if b.op == 'const':
        if b.v == 1:
            return eq(a, const(a.w, 0))
        if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
            return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
        # high zero pieces
    if a.op == 'const':
        if b.op == 'ite' and (b.args[1].op == 'const' or b.args[2].op == 'const'):
            return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
        if a.v == 0:
            return not_(eq(b, a))
    if a.op == 'concat' and b.op == 'concat' and a.args[0].op == 'const' and b.args[0].op == 'const' and a.args[0].v == 0 and b.args[0].v == 0:
        k = min(a.args[0].w, b.args[0].w)
        return ult(_ext(a, a.w - 1 - k, 0), _ext(b, b.w - 1 - k, 0))
    if a.op == 'concat' and b.op == 'const' and a.args[0].op == 'const' and a.args[0].v == 0 and b.v < (1 << (a.w - a.args[0].w)):
        k = a.args[0].w
        return ult(_ext(a, a.w - 1 - k, 0), const(a.w - k, b.v))
    if b.op == 'concat' and a.op == 'const' and b.args[0].op == 'const' and b.args[0].v == 0 and a.v < (1 << (a.w - b.args[0].w)):
        k = b.args[0].w
        return ult(const(a.w - k, a.v), _ext(b, a.w - 1 - k, 0))
    return _mk('ult', 1, (a, b))


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return boolc(sgn(a.v, a.w) < sgn(b.v, b.w))
    ra, rb = srange(a), srange(b)
    if ra[1] < rb[0]:
        return TRUE
    if ra[0] >= rb[1]:
        return FALSE
    if ra[0] >= 0 and rb[0] >= 0:
        return ult(a, b)
    if b.op == 'const' and a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if a.op == 'const' and b.op == 'ite' and (b.args[1].op == 'const' or b.args[2].op == 'const'):
        return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    return _mk('slt', 1, (a, b))


def sle(a, b):
    return not_(slt(b, a))


def implies(a, b):
    return bor(not_(a), b)


def conj(ts):
    r = TRUE
    for t in ts:
        r = band(r, t)
        if r is FALSE:
            break
    return r


_tables = {}


def tab(table, idx, w):
    """table lookup of a constant table (tuple of ints)"""
    table = _tables.setdefault(table, table)
    if idx.op == 'const':
        return const(w, table[idx.v] if idx.v < len(table) else 0)
    if all(x == table[0] for x in table):
        return const(w, table[0])
    n = len(table)
    k = max(1, (n - 1).bit_length())
    if idx.w > k and umax(idx) < n:
        idx = _ext(idx, k - 1, 0)
    if idx.op == 'tab' and len(idx.v) <= 256:
        return tab(tuple(table[x] if x < n else 0 for x in idx.v), idx.args[0], w)
    if w == idx.w and n == (1 << w) and all(x == i for i, x in enumerate(table)):
        return idx
    return _mk('tab', w, (idx,), table)


UF_RULES = {}
INJ = set()      # uninterpreted functions assumed injective (bijections a contract or invariant provides)


def uf(name, w, *args):
    r = UF_RULES.get(name if not isinstance(name, tuple) else name[0])
    if r:
        x = r(name, w, args)
        if x is not None:
            return x
    return _mk('uf', w, tuple(args), name)


def raw_uf(name, w, *args):
    return _mk('uf', w, tuple(args), name)


def sel(arr, off):
    """byte of symbolic array `arr` at 64-bit offset"""
    return _mk('sel', 8, (off,), arr)


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen:
                st.append((a, False))
    return out


def support(t):
    """free vars / sel / uf heads"""
    return [x for x in topo([t]) if x.op in ('var', 'addr')]


def subst(t, m, memo=None):
    """replace terms (keys are T) rebuilding with simplification"""
    if memo is None:
        memo = {}
    mm = {k.id: v for k, v in m.items()}
    for x in topo([t]):
        if x.id in memo:
            continue
        if x.id in mm:
            memo[x.id] = mm[x.id]
            continue
        if not x.args:
            memo[x.id] = x
            continue
        na = [memo[a.id] for a in x.args]
        if all(p is q for p, q in zip(na, x.args)):
            memo[x.id] = x
        else:
            memo[x.id] = rebuild(x, na)
    return memo[t.id]


def rebuild(x, a):
    op = x.op
    if op == 'lin':
        c, cs = x.v
        r = const(x.w, c)
        for k, t in zip(cs, a):
            r = add(r, mulc(t, k))
        return r
    if op == 'xor':
        r = a[0]
        for t in a[1:]:
            r = xor(r, t)
        return r
    if op == 'and':
        r = a[0]
        for t in a[1:]:
            r = band(r, t)
        return r
    if op == 'or':
        r = a[0]
        for t in a[1:]:
            r = bor(r, t)
        return r
    if op == 'concat':
        return concat(*a)
    if op == 'ext':
        return _ext(a[0], *x.v)
    if op == 'ite':
        return ite(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'ult':
        return ult(*a)
    if op == 'slt':
        return slt(*a)
    if op == 'not':
        return not_(a[0])
    if op == 'sext':
        return sext(a[0], x.w)
    if op == 'tab':
        return tab(x.v, a[0], x.w)
    if op == 'uf':
        return uf(x.v, x.w, *a)
    if op == 'sel':
        return sel(x.v, a[0])
    return {'mul': mul, 'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](*a)


# ---------------------------------------------------------------- evaluation
class Interp:
    """random but consistent interpretation of variables and functions"""

    def __init__(self, seed=0, given=None, uf=None):
        self.seed = seed
        self.given = given or {}
        self.ufi = uf or {}
        self.memo = {}

    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=64).digest()
        return int.from_bytes(d, 'big')

    def hw(self, w, *key):
        r = 0
        i = 0
        while r.bit_length() <= w + 8 and i * 512 < w + 512:
            r = (r << 512) | self.h(i, *key)
            i += 1
        return r & ((1 << w) - 1)

    def leaf(self, t):
        if t.v in self.given:
            return self.given[t.v] & ((1 << t.w) - 1)
        if t.op == 'addr':
            return (self.h('addr', t.v) & 0xffffffff) * 4096 + (1 << 45)
        lo, hi = VARMAX.get(t.id, (0, (1 << t.w) - 1))
        r = self.hw(t.w, 'var', t.v)
        return lo + r % (hi - lo + 1)

    def ev(self, root):
        memo = self.memo
        if root.id in memo:
            return memo[root.id]
        for t in topo([root]):
            if t.id in memo:
                continue
            memo[t.id] = self.ev1(t, [memo[a.id] for a in t.args])
        return memo[root.id]

    def ev1(self, t, a):
        op = t.op
        w = t.w
        m = (1 << w) - 1
        if op == 'const':
            return t.v
        if op in ('var', 'addr'):
            return self.leaf(t)
        if op == 'lin':
            c, cs = t.v
            return (c + sum(k * x for k, x in zip(cs, a))) & m
        if op == 'xor':
            r = 0
            for x in a:
                r ^= x
            return r
        if op == 'and':
            r = m
            for x in a:
                r &= x
            return r
        if op == 'or':
            r = 0
            for x in a:
                r |= x
            return r
        if op == 'not':
            return 1 - a[0]
        if op == 'concat':
            r = 0
            for x, s in zip(a, t.args):
                r = (r << s.w) | x
            return r
        if op == 'ext':
            return (a[0] >> t.v[1]) & m
        if op == 'ite':
            return a[1] if a[0] else a[2]
        if op == 'eq':
            return int(a[0] == a[1])
        if op == 'ult':
            return int(a[0] < a[1])
        ww = t.args[0].w if t.args else w
        if op == 'slt':
            return int(sgn(a[0], ww) < sgn(a[1], ww))
        if op == 'sext':
            return sgn(a[0], ww) & m
        if op == 'tab':
            return t.v[a[0]] if a[0] < len(t.v) else 0
        if op == 'mul':
            return (a[0] * a[1]) & m
        if op == 'shl':
            return (a[0] << a[1]) & m if a[1] < w else 0
        if op == 'lshr':
            return a[0] >> a[1] if a[1] < w else 0
        if op == 'ashr':
            return (sgn(a[0], w) >> min(a[1], w - 1)) & m
        if op == 'udiv':
            return a[0] // a[1] if a[1] else m
        if op == 'urem':
            return a[0] % a[1] if a[1] else a[0]
        if op in ('sdiv', 'srem'):
            if a[1] == 0:
                return m if op == 'sdiv' else a[0]
            return (sdiv if op == 'sdiv' else srem)(const(w, a[0]), const(w, a[1])).v
        if op == 'sel':
            k = ('sel', t.v, a[0])
            if t.v in self.given:
                g = self.given[t.v]
                return g(a[0]) & 255 if callable(g) else (g[a[0]] if a[0] < len(g) else self.h(*k) & 255)
            return self.h(*k) & 255
        if op == 'uf':
            n = t.v if not isinstance(t.v, tuple) else t.v[0]
            f = self.ufi.get(t.v) or self.ufi.get(n) or UF_INTERP.get(n)
            if f:
                return f(self, t, a) & m
            return self.hw(w, 'uf', t.v, tuple(a))
        raise Exception('eval ' + op)


UF_INTERP = {}
