"""Obligation discharge: simplifier -> simulation (refute) -> GF(2) canonical forms -> z3 -> cvc5.

`prove(pc, goal)` returns ('valid', backend) / ('refuted', info) / ('unknown', None).
A refutation carries info['solid'] = True when it is a concrete assignment of the obligation's own
variables under which the hypotheses hold and the goal does not (evaluated, not just claimed)."""
import random, time
from . import terms as tm, smt, gf2, sweep
from .terms import TRUE, FALSE, not_

stats = {'simplifier': 0, 'gf2': 0, 'z3': 0, 'cvc5': 0, 'sim_refuted': 0, 'gf2_time': 0.0}
_canon = [None]
EDGE = (0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 80, 100)


def canon():
    if _canon[0] is None or len(_canon[0].forms) > 3000000:
        _canon[0] = gf2.Canon()
    return _canon[0]


def reset():
    _canon[0] = None


class Sampler(tm.Interp):
    """Interp whose 64/32-bit scalar variables often take small edge values; a pure function of
    (seed, variable), so evaluations are shared between obligations"""

    def __init__(self, seed, given=None):
        tm.Interp.__init__(self, seed, given)
        self.vals = {}

    def leaf(self, t):
        if t.v in self.given or t.op == 'addr':
            return tm.Interp.leaf(self, t)
        if t.v in self.vals:
            return self.vals[t.v]
        lo, hi = tm.VARMAX.get(t.id, (0, (1 << t.w) - 1))
        h = self.h('pick', t.v)
        r = (h % 1000) / 1000
        h //= 1000
        if t.w in (32, 64) and r < 0.85:
            v = EDGE[h % len(EDGE)] if r < 0.6 else h % 300
            v = lo + v if lo + v <= hi and r < 0.3 else v
            if not lo <= v <= hi:
                v = tm.Interp.leaf(self, t)
        elif r < 0.1:
            v = min((1 << t.w) - 1, hi)
        elif r < 0.2:
            v = lo
        else:
            v = tm.Interp.leaf(self, t)
        self.vals[t.v] = v
        return v


_samplers = {}


def sampler(i):
    s = _samplers.get(i)
    if s is None or len(s.memo) > 3000000:
        s = _samplers[i] = Sampler(i)
    return s


def simulate(pc, goal, n=24, seed=1):
    """look for a falsifying assignment; returns dict or None"""
    hits = 0
    for i in range(n):
        if hits >= 8:
            break
        it = sampler(seed * 1000 + i)
        ok = True
        for p in pc:
            if not it.ev(p):
                ok = False
                break
        if not ok:
            continue
        hits += 1
        if not it.ev(goal):
            names = set(x.v for x in tm.topo([goal] + list(pc)) if x.op == 'var')
            return {'solid': not abstracted(list(pc) + [goal]), 'by': 'simulation', 'vals': {k: v for k, v in it.vals.items() if k in names}, 'seed': it.seed}
    return None


def abstracted(ts):
    """does the obligation mention loop-invariant sequences or havocked values?  Their uninterpreted
    reading makes a counterexample only a candidate (it may not correspond to an execution)"""
    for x in tm.topo(ts):
        if x.op in ('uf', 'sel') and isinstance(x.v, str) and x.v.startswith(('G:', 'hv', 'hm', 'hw', 'hx', 'prior', 'fresh', 'C:')):
            return True
    return False


def split(goal):
    """conjuncts of the goal as (hyps, atom)"""
    if goal.op == 'and' and goal.w == 1:
        out = []
        for a in goal.args:
            out += split(a)
        return out
    return [goal]


def prove(pc, goal, timeout_ms=20000, nsim=24):
    if goal is TRUE or any(p is FALSE for p in pc):
        return 'valid', 'simplifier'
    if nsim:
        r = simulate(pc, goal, nsim)
        if r is not None:
            stats['sim_refuted'] += 1
            return 'refuted', r
    parts = split(goal)
    if tm.WORDS and len(parts) > 1:
        es = [equality(p) for p in parts]
        if all(e is not None for e in es) and len(tm.topo([x for e in es for x in e])) > 300:
            if sweep.prove(tm.concat(*[e[0] for e in es]), tm.concat(*[e[1] for e in es]), sampler, canon):
                return 'valid', 'sweep'
    if len(parts) > 1:
        be = 'simplifier'
        for p in parts:
            r, i = prove(pc, p, timeout_ms, 0)
            if r != 'valid':
                return r, i
            if i != 'simplifier':
                be = i
        return 'valid', be
    e = equality(goal)
    if e is not None:
        t0 = time.time()
        try:
            a, b = e
            ok = canon().equal(a, b)
        except (gf2.TooBig, RecursionError, MemoryError):
            ok = False
            reset()
        stats['gf2_time'] += time.time() - t0
        if ok:
            return 'valid', 'gf2-canonical'
        if tm.WORDS and e[0].w >= 32 and len(tm.topo(list(e))) > 300:
            if sweep.prove(e[0], e[1], sampler, canon):
                return 'valid', 'sweep'
    r, m = smt.prove(pc, goal, timeout_ms)
    if r == 'refuted':
        info = {'solid': False, 'by': 'smt', 'vals': m or {}}
        # confirm by evaluation
        it = tm.Interp(1, dict(m or {}))
        try:
            if all(it.ev(p) for p in pc) and not it.ev(goal):
                info['solid'] = not abstracted(list(pc) + [goal])
        except Exception:
            pass
        return 'refuted', info
    return r, m


def equality(goal):
    """(a, b) when the goal is an equality (1-bit equalities are xnor forms)"""
    if goal.op == 'eq':
        return goal.args
    if goal.w == 1:
        return goal, TRUE
    return None
