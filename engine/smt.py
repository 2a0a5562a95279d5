"""SMT back ends: z3 (API) and, as a second opinion on 'unknown', cvc5."""
import time, z3
from . import terms as tm

stats = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0, 'unknown': 0}


class Conv:
    def __init__(self):
        self.m = {}
        self.fn = {}
        self.leaves = {}

    def f(self, name, doms, rng):
        k = (str(name), tuple(doms), rng)
        if k not in self.fn:
            self.fn[k] = z3.Function('f%d_%s' % (len(self.fn), str(name)[:40]), *([z3.BitVecSort(d) for d in doms] + [z3.BitVecSort(rng)]))
        return self.fn[k]

    def bv(self, root):
        m = self.m
        if root.id in m:
            return m[root.id]
        for t in tm.topo([root]):
            if t.id not in m:
                m[t.id] = self.one(t)
        return m[root.id]

    def b2bv(self, t):
        return m

    def one(self, t):
        m = self.m
        op = t.op
        a = [m[x.id] for x in t.args]
        w = t.w
        # booleans are z3 Bool, everything else BitVec
        if op == 'const':
            return z3.BoolVal(bool(t.v)) if w == 1 else z3.BitVecVal(t.v, w)
        if op in ('var', 'addr'):
            r = z3.Bool('b_' + str(t.v)) if w == 1 else z3.BitVec(str(t.v), w)
            self.leaves[t.id] = (t, r)
            return r
        # coerce arguments
        def asbv(x, tt):
            return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if tt.w == 1 else x
        if op == 'lin':
            c, cs = t.v
            r = None
            for k, x in zip(cs, a):
                if k == 1:
                    y = x
                elif k == (1 << w) - 1:
                    y = -x
                else:
                    y = x * z3.BitVecVal(k, w)
                r = y if r is None else r + y
            return r + z3.BitVecVal(c, w) if c else r
        if op == 'xor':
            r = a[0]
            for x in a[1:]:
                r = z3.Xor(r, x) if w == 1 else r ^ x
            return r
        if op == 'and':
            if w == 1:
                return z3.And(*a)
            return a[0] & a[1]
        if op == 'or':
            return a[0] | a[1]
        if op == 'not':
            return z3.Not(a[0])
        if op == 'concat':
            return z3.Concat(*[asbv(x, tt) for x, tt in zip(a, t.args)])
        if op == 'ext':
            r = z3.Extract(t.v[0], t.v[1], a[0])
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if op == 'ite':
            return z3.If(a[0], a[1], a[2])
        if op == 'eq':
            return a[0] == a[1]
        if op == 'ult':
            return z3.ULT(a[0], a[1])
        if op == 'slt':
            return a[0] < a[1]
        if op == 'sext':
            return z3.SignExt(w - t.args[0].w, a[0])
        if op == 'tab':
            x = asbv(a[0], t.args[0])
            n = t.args[0].w
            def tree(lo, hi, bit):
                # entries lo..hi-1
                if bit < 0:
                    v = t.v[lo] if lo < len(t.v) else 0
                    return z3.BoolVal(bool(v)) if w == 1 else z3.BitVecVal(v, w)
                if lo >= len(t.v):
                    return z3.BoolVal(False) if w == 1 else z3.BitVecVal(0, w)
                mid = (lo + hi) // 2
                return z3.If(z3.Extract(bit, bit, x) == 1, tree(mid, hi, bit - 1), tree(lo, mid, bit - 1))
            return tree(0, 1 << n, n - 1) if n <= 10 else self._bigtab(t, x)
        if op == 'mul':
            return a[0] * a[1]
        if op == 'shl':
            return a[0] << a[1]
        if op == 'lshr':
            return z3.LShR(a[0], a[1])
        if op == 'ashr':
            return a[0] >> a[1]
        if op == 'udiv':
            return z3.UDiv(a[0], a[1])
        if op == 'urem':
            return z3.URem(a[0], a[1])
        if op == 'sdiv':
            return a[0] / a[1]
        if op == 'srem':
            return z3.SRem(a[0], a[1])
        if op == 'sel':
            return self.f('sel_' + str(t.v), [64], 8)(a[0])
        if op == 'uf':
            aa = [asbv(x, tt) for x, tt in zip(a, t.args)]
            if not aa:
                r = z3.BitVec('uf0_' + str(t.v), w)
            else:
                r = self.f(t.v, [x.size() for x in aa], w)(*aa)
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        raise Exception('smt ' + op)

    def _bigtab(self, t, x):
        r = z3.BitVecVal(0, t.w)
        for i, v in enumerate(t.v):
            r = z3.If(x == i, z3.BitVecVal(v, t.w), r)
        return r


_conv = [Conv()]


def reset():
    _conv[0] = Conv()


def ranges(roots):
    out = []
    for t in tm.topo(roots):
        if t.op == 'var' and t.id in tm.VARMAX:
            lo, hi = tm.VARMAX[t.id]
            c = _conv[0].bv(t)
            if hi < (1 << t.w) - 1:
                out.append(z3.ULE(c, z3.BitVecVal(hi, t.w)))
            if lo > 0:
                out.append(z3.UGE(c, z3.BitVecVal(lo, t.w)))
    # distinct object addresses are never compared through SMT as integers except for null tests
    return out


def check(asserts, timeout_ms=10000, want_model=False):
    """satisfiability of the conjunction; returns ('sat', model|None) / ('unsat', None) / ('unknown', None)"""
    asserts = [a for a in asserts if a is not tm.TRUE]
    if any(a is tm.FALSE for a in asserts):
        return 'unsat', None
    if not asserts:
        return 'sat', None
    t0 = time.time()
    s = z3.SolverFor('QF_UFBV') if False else z3.Solver()
    s.set('timeout', timeout_ms)
    for a in asserts:
        s.add(_conv[0].bv(a))
    for r in ranges(asserts):
        s.add(r)
    r = s.check()
    stats['z3_calls'] += 1
    stats['z3_time'] += time.time() - t0
    if r == z3.sat:
        if want_model:
            m = s.model()
            res = {}
            for t in tm.topo(asserts):
                if t.op in ('var', 'addr'):
                    v = m.eval(_conv[0].bv(t), model_completion=True)
                    try:
                        res[t.v] = (1 if z3.is_true(v) else 0) if t.w == 1 else v.as_long()
                    except Exception:
                        pass
            return 'sat', res
        return 'sat', None
    if r == z3.unsat:
        return 'unsat', None
    stats['unknown'] += 1
    return 'unknown', None


def check_cvc5(asserts, timeout_ms=20000):
    import subprocess, tempfile, os
    s = z3.Solver()
    for a in asserts:
        s.add(_conv[0].bv(a))
    for r in ranges(asserts):
        s.add(r)
    txt = '(set-logic QF_UFBV)\n' + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, f.name], capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        o = 'unknown'
    finally:
        os.unlink(f.name)
    stats['cvc5_calls'] += 1
    stats['cvc5_time'] += time.time() - t0
    return o if o in ('sat', 'unsat') else 'unknown'


def prove(pc, goal, timeout_ms=20000):
    """('valid',backend) / ('refuted',model) / ('unknown',None)"""
    if goal is tm.TRUE:
        return 'valid', 'simplifier'
    if any(p is tm.FALSE for p in pc):
        return 'valid', 'simplifier'
    g = tm.not_(goal)
    r, m = check(list(pc) + [g], timeout_ms, True)
    if r == 'unsat':
        return 'valid', 'z3'
    if r == 'sat':
        return 'refuted', m
    r = check_cvc5(list(pc) + [g], timeout_ms)
    if r == 'unsat':
        return 'valid', 'cvc5'
    if r == 'sat':
        return 'refuted', {}
    return 'unknown', None
