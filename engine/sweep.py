"""Equality of two large terms by sweeping: internal nodes with equal simulation signatures are proved
equal bottom-up, each by a local proof over the nodes the two cones share."""
import time
from . import terms as tm, smt, gf2
from .terms import eq, TRUE, FALSE

NS = 10
BOOLS = ('xor', 'and', 'or', 'not')


class GiveUp(Exception):
    pass


def cut(a, b, level):
    """replace maximal shared subterms (after skipping `level` layers of them) by fresh variables"""
    ca = {x.id for x in tm.topo([a])}
    cb = {x.id for x in tm.topo([b])}
    shared = ca & cb
    memo = {}
    fresh = {}

    def go(t, lv):
        k = (t.id, lv)
        r = memo.get(k)
        if r is not None:
            return r
        if t.op == 'const':
            r = t
        elif t.id in shared and t.op != 'const' and not (level and t.op in BOOLS):
            if lv <= 1 or not t.args:
                r = fresh.get(t.id)
                if r is None:
                    r = fresh[t.id] = tm.var(t.w, 'cut!%d' % t.id, tm.umin(t), tm.umax(t)) if t.w > 1 else tm.var(t.w, 'cut!%d' % t.id)
            else:
                r = tm.rebuild(t, [go(x, lv - 1) for x in t.args])
        elif not t.args:
            r = t
        else:
            r = tm.rebuild(t, [go(x, lv) for x in t.args])
        memo[k] = r
        return r
    return go(a, level), go(b, level)


def local(a, b, canon, ms=3000):
    for lv in (0, 1, 2, 3):
        x, y = cut(a, b, lv)
        if x is y:
            return True
        n = len(tm.topo([x, y]))
        if n > 400:
            return False
        try:
            if canon().equal(x, y):
                return True
        except (gf2.TooBig, RecursionError, MemoryError):
            pass
        r, _ = smt.check([tm.not_(eq(x, y))], ms)
        if r == 'unsat':
            return True
        if r != 'sat':
            return False
    return False


def prove(a, b, sampler, canon, budget=120):
    """True if a = b was proved"""
    t0 = time.time()
    nodes = tm.topo([a, b])
    if len(nodes) > 60000:
        return False
    sams = [sampler(7000 + i) for i in range(NS)]
    rep = {}
    cls = {}
    fails = 0
    for n in nodes:
        if not n.args:
            rep[n.id] = n
            if n.op != 'const':
                cls.setdefault((n.w,) + tuple(s.ev(n) for s in sams), []).append(n)
            continue
        ch = [rep[x.id] for x in n.args]
        m = n if all(x is y for x, y in zip(ch, n.args)) else tm.rebuild(n, ch)
        if m.op == 'const' or (m.id in rep and m is not n):
            rep[n.id] = rep.get(m.id, m)
            continue
        sig = (n.w,) + tuple(s.ev(n) for s in sams)
        c = cls.setdefault(sig, [])
        done = False
        if m in c:
            rep[n.id] = rep[m.id] = m
            continue
        if (n.w >= 8 and n.op not in ('ext', 'concat')) or n is a or n is b:
            for o in c[:3]:
                if time.time() - t0 > budget or fails > 200:
                    return False
                if local(m, o, canon):
                    rep[n.id] = rep[m.id] = o
                    done = True
                    break
                fails += 1
        if not done:
            c.append(m)
            rep[n.id] = rep[m.id] = m
    return rep[a.id] is rep[b.id]
