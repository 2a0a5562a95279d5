"""Loop rules: bounded unrolling of loops with decided exits, and cut-point summarisation
(base / step / frame obligations) for loops with symbolic or large trip counts."""
import itertools
from . import terms as tm, mem, ir, smt
from .terms import const, add, sub, ult, eq, ite, band, bor, not_, concat, ext, zext, TRUE, FALSE

C64 = lambda v: const(64, v)


class Ghost:
    """a spec sequence g(0)=base, g(k+1)=step(k, g(k)); value(k) is an uninterpreted term"""

    def __init__(self, name, base, step, index_args=()):
        self.name, self.base, self.step = name, base, step
        self.w = base.w
        self.ia = tuple(index_args)

    def at(self, k):
        if k.op == 'const' and k.v == 0:
            return self.base
        return tm.raw_uf('G:' + self.name, self.w, k, *self.ia)

    def succ(self, k):
        return self.step(k, self.at(k))

    def facts(self, k):
        """defining equations usable at index k"""
        return [tm.implies(eq(k, C64(0)), eq(self.at(k), self.base))]


class Closed(Ghost):
    """a sequence with a closed form"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.base = fn(C64(0))
        self.w = self.base.w
        self.step = lambda k, v: fn(add(k, C64(1)))

    def at(self, k):
        return self.fn(k)

    def facts(self, k):
        return []


class Region:
    """bytes [0,..) of memory starting at pointer `ptr` hold fn(rel) after the iterations that wrote them"""

    def __init__(self, name, ptr, fn, written=None, facts=None):
        self.name, self.ptr, self.fn = name, ptr, fn
        # value a freshly written byte has to equal (unfolded definition)
        self.written = written or fn
        self.facts = facts


class NoFit(Exception):
    pass


class Loops:
    def __init__(self, ex):
        self.nested = 0
        self.ex = ex
        self.condlog = None
        self.cellforms = []
        self.exact = set()
        self.exactF = []
        self.bigF = None
        self.summ = []

    # ---------------------------------------------------------------- driver
    def run(self, fr, h, prev, env, st):
        from .sym import EngineLimit, Outcome
        ex = self.ex
        f = fr.f
        body = f.loops[h]
        outs = []
        est = self.estimate(fr, h, prev, env)
        tries = 2
        nest = est is not None and ex.summary_nest and not ex.no_summary and self.nest_total(f, h, body, est) > ex.summary_min
        if est is not None and not ex.no_summary and (est > ex.summary_min or nest or self.nested and est > 11):
            self.nested += nest
            nw = len(ex.writelog) if ex.writelog is not None else None
            self.frame = None
            try:
                r = self.summarise(fr, h, prev, env, st, body)
            finally:
                self.nested -= nest
            if r is not None and self.nested and nw is not None and self.frame is not None:
                # what the whole loop writes, instead of what single iterations do
                del ex.writelog[nw:]
                ex.writelog.extend(self.frame)
            if r is not None:
                env, st, prev, early = r
                outs += early
                tries -= 1
        n = 0
        symn = 0
        while True:
            base = len(st.pc)
            nob = len(ex.obls)
            # probe whether this iteration's exit decision is open
            rs = None
            if tries > 0 and not ex.no_summary and self.open_exit(fr, h, prev, env, st, n == 0):
                tries -= 1
                self.bigF = None
                r = self.summarise(fr, h, prev, env, st, body)
                if r is not None:
                    env, st, prev, early = r
                    outs += early
                    continue
                if tries == 0 and self.bigF is not None:
                    raise EngineLimit('loop %s in %s (%s iterations): no invariant fits: %s' % (h, f.name, tm.show(self.bigF[0], 3), '; '.join(self.bigF[1][:3])))
            rs = ex.region(fr, h, prev, env, st, None, (h, body, [False]))
            rs = ex.merge_outs(fr, rs, base)
            backs = [o for o in rs if o.kind == 'back']
            rest = [o for o in rs if o.kind != 'back']
            if rest and backs:
                symn += 1
                if symn > ex.sym_unroll:
                    raise EngineLimit('loop %s in %s: no invariant fits and exits stay open after %d iterations' % (h, f.name, symn))
            outs += rest
            ex.npaths(len(outs))
            if not backs:
                break
            o = backs[0]
            if rest and not ex.feasible(o.st):
                break
            env, st, prev = o.env, o.st, o.prev
            n += 1
            if n > ex.unroll_limit:
                raise EngineLimit('loop %s in %s: more than %d iterations' % (h, f.name, ex.unroll_limit))
        if not outs:
            return None
        if len([o for o in outs if o.kind == 'exit']) > 1:
            outs = self.merge_exits(fr, outs)
        return outs

    def nest_total(self, f, h, body, est):
        """iterations of a loop with one small loop in it, from the constants they count to; 0 for other loops"""
        inner = [x for x in body if x in f.loops and x != h]
        if len(inner) != 1 or est < 12:
            return 0
        b = f.blocks[inner[0]]
        defs = self.defs(f)
        if b.term.op != 'cbr' or b.term.a[0][0] != 'id' or b.term.a[0][1] not in defs:
            return 0
        i = defs[b.term.a[0][1]][1]
        if i.op != 'icmp':
            return 0
        n = [v[1] for v in i.a[1:] if v[0] == 'c']
        return est * n[0] if n and (est * n[0] <= 256 or est > self.ex.summary_min) else 0

    def merge_exits(self, fr, outs):
        ex = self.ex
        ret = [o for o in outs if o.kind != 'exit']
        exits = [o for o in outs if o.kind == 'exit']
        # common prefix of path conditions
        groups = {}
        for o in exits:
            groups.setdefault(o.block, []).append(o)
        for b, g in groups.items():
            if len(g) == 1:
                ret += g
                continue
            base = 0
            while all(len(o.st.pc) > base and o.st.pc[base][0] is g[0].st.pc[base][0] for o in g):
                base += 1
            # the last exit is the one with the strongest negative guards: merge from the back so
            # that each selector is the exit condition of its own iteration
            for m in ex.merge_at(fr, g, b, base):
                m.kind = 'exit'
                ret.append(m)
        return ret

    # ---------------------------------------------------------------- static helpers
    def defs(self, f):
        d = getattr(f, 'defmap', None)
        if d is None:
            d = {}
            for b in f.blocks.values():
                for p in b.phis:
                    d[p.res] = (b.name, p)
                for i in b.ins:
                    if i.res:
                        d[i.res] = (b.name, i)
            f.defmap = d
        return d

    def entry_vals(self, fr, h, prev, env):
        ex = self.ex
        out = []
        for p in fr.f.blocks[h].phis:
            for v, pb in p.a:
                if pb == prev:
                    out.append(ex.val(p.ty, v, env, fr))
                    break
            else:
                raise ex_limit('phi without predecessor')
        return out

    def steps(self, fr, h, p):
        """candidate constant increments (bytes for pointers) of header phi p"""
        f = fr.f
        body = f.loops[h]
        defs = self.defs(f)
        cands = set()
        for v, pb in p.a:
            if pb == '%merged' or pb not in body:
                continue
            r = self.delta(f, defs, v, p.res, p.ty, body, 0)
            if r is None:
                return None
            cands |= r
        return cands or None

    def leafconsts(self, f, defs, v, seen):
        if v[0] == 'c':
            return {v[1]}
        if v[0] != 'id' or v[1] in seen or v[1] not in defs:
            return set()
        seen = seen | {v[1]}
        b, i = defs[v[1]]
        if i.op == 'phi':
            r = set()
            for x, pb in i.a:
                if pb != '%merged':
                    r |= self.leafconsts(f, defs, x, seen)
            return r
        if i.op == 'select':
            return self.leafconsts(f, defs, i.a[1], seen) | self.leafconsts(f, defs, i.a[2], seen)
        if i.op in ('zext', 'sext', 'trunc'):
            return self.leafconsts(f, defs, i.a[1], seen)
        return set()

    def delta(self, f, defs, v, target, ty, body, depth):
        """set of constants c with v possibly = target + c"""
        if depth > 200:
            return None
        if v[0] == 'id' and v[1] == target:
            return {0}
        if v[0] != 'id' or v[1] not in defs:
            return None
        b, i = defs[v[1]]
        if b not in body:
            return None
        if i.op == 'add':
            for x, y in ((i.a[0], i.a[1]), (i.a[1], i.a[0])):
                r = self.delta(f, defs, x, target, ty, body, depth + 1)
                if r is not None:
                    cs = self.leafconsts(f, defs, y, frozenset())
                    if cs:
                        return {a + c for a in r for c in cs}
            return None
        if i.op == 'sub':
            r = self.delta(f, defs, i.a[0], target, ty, body, depth + 1)
            cs = self.leafconsts(f, defs, i.a[1], frozenset())
            if r is not None and cs:
                return {a - c for a in r for c in cs}
            return None
        if i.op == 'gep':
            r = self.delta(f, defs, i.a[0][1], target, ty, body, depth + 1)
            if r is None or len(i.a) != 2:
                return None
            sz = self.ex.mod.size(i.ty)
            cs = self.leafconsts(f, defs, i.a[1][1], frozenset())
            # index may be 0 - x
            if not cs and i.a[1][1][0] == 'id' and i.a[1][1][1] in defs:
                d = defs[i.a[1][1][1]][1]
                if d.op == 'sub' and d.a[0] == ('c', 0):
                    cs = {-c for c in self.leafconsts(f, defs, d.a[1], frozenset())}
            return {a + c * sz for a in r for c in cs} if cs else None
        if i.op == 'phi':
            out = set()
            for x, pb in i.a:
                if pb == '%merged':
                    continue
                r = self.delta(f, defs, x, target, ty, body, depth + 16)
                if r:
                    out |= r
            return out or None
        if i.op in ('zext', 'sext', 'trunc'):
            return self.delta(f, defs, i.a[1], target, ty, body, depth + 1)
        return None

    def estimate(self, fr, h, prev, env):
        """constant trip-count estimate from the header test, or None"""
        f = fr.f
        b = f.blocks[h]
        if b.term.op != 'cbr':
            return None
        defs = self.defs(f)
        c = b.term.a[0]
        if c[0] != 'id' or c[1] not in defs:
            return None
        i = defs[c[1]][1]
        if i.op != 'icmp':
            return None
        _, x, y = i.a
        for a, bnd in ((x, y), (y, x)):
            while a[0] == 'id' and a[1] in defs and defs[a[1]][1].op in ('zext', 'sext', 'trunc'):
                a = defs[a[1]][1].a[1]
            if a[0] == 'id' and bnd[0] == 'c':
                for p in b.phis:
                    if p.res == a[1]:
                        st = self.steps(fr, h, p)
                        if st and len(st) == 1:
                            s = next(iter(st))
                            v0 = None
                            for v, pb in p.a:
                                if pb == prev:
                                    v0 = self.ex.val(p.ty, v, env, fr)
                            if s and v0 is not None and v0.op == 'const':
                                return max(0, (bnd[1] - tm.sgn(v0.v, v0.w)) // s)
        return None

    def open_exit(self, fr, h, prev, env, st, first=False):
        """is some loop-leaving branch of the coming iteration undecided?  (cheap look at the header
        and at pure single-exit latches only)"""
        ex = self.ex
        f = fr.f
        body = f.loops[h]
        b = f.blocks[h]
        t = b.term
        if ex.cells and any(i.op == 'call' for x in body for i in f.blocks[x].ins) and any(p.v in st.objs and ex.load(st, p, n).op != 'const' for p, n in ex.cells):
            return True
        if t.op == 'cbr' and (t.a[1] not in body or t.a[2] not in body):
            if any(i.op in ('store', 'call') for i in b.ins):
                return False
            try:
                e2 = dict(env)
                for p, v in zip(b.phis, self.entry_vals(fr, h, prev, env)):
                    e2[p.res] = v
                s2 = st.fork()
                ob, fb = ex.oblige, ex.check_bounds
                ex.check_bounds = False
                try:
                    for i in b.ins:
                        ex.step(fr, i, e2, s2)
                finally:
                    ex.check_bounds = fb
                c = ex.decide(ex.val(ir.Ty('int', 1), t.a[0], e2, fr), s2)
                if c.op != 'const':
                    return True
                if first and c.v == (1 if t.a[1] in body else 0) and t.a[0][0] == 'id':
                    d = self.defs(f).get(t.a[0][1])
                    if d and d[1].op == 'icmp':
                        ops = [self.raw_operand(x, e2, fr) for x in d[1].a[1:]]
                        if any(o is not None and o.op != 'const' and is_ptr(o) is False for o in ops):
                            return True
                return False
            except Exception:
                return False
        return False

    def raw_operand(self, v, env, fr):
        if v[0] == 'id':
            return env.get(v[1]) if isinstance(env.get(v[1]), tm.T) else None
        return None

    # ---------------------------------------------------------------- summarisation
    def summarise(self, fr, h, prev, env, st, body):
        from .sym import EngineLimit, Refuted
        ex = self.ex
        why = []
        try:
            v0 = self.entry_vals(fr, h, prev, env)
        except EngineLimit:
            return None
        phis = fr.f.blocks[h].phis
        self.exactF = []
        cands = []
        for p in phis:
            s = self.steps(fr, h, p)
            cands.append(sorted(s, key=lambda c: (c == 0, -abs(c))) if s else None)
            if cands[-1] == [0] and 'failed' in st.ghost and len([1 for v, pb in p.a if pb != '%merged']) >= 2:
                cands[-1] = [0, None]
        kp = self.kp = tm.fresh(64, 'kp', 0, 1 << 40)
        self.lags = self.laginfo(fr, h, phis, v0, cands, env)
        lags = self.lags
        cells, gsave = self.cells(fr, h, env, st, body, phis, v0, cands, kp), ex.ghosts
        self.cellforms = cells
        if cells:
            # spec cells that advance by a constant per iteration
            ex.ghosts = [Closed('cell', lambda k, v=v, d=d: add(v, tm.mulc(k, d))) for _, v, d in cells] + gsave
            for g, c in zip(ex.ghosts, cells):
                g.le, g.only = True, c[0].v
        try:
            return self.summarise2(fr, h, prev, env, st, body, phis, v0, cands, kp, lags, why)
        finally:
            ex.ghosts = gsave
            self.cellforms = []

    def cells(self, fr, h, env, st, body, phis, v0, cands, kp):
        ex = self.ex
        cs = [(p, n) for p, n in ex.cells if p.op == 'addr' and p.v in st.objs]
        if not cs:
            return []
        self.cellforms = []
        pr = self.one(fr, h, env, st, body, phis, self.pforms(v0, [c[0] if c else None for c in cands], kp), None, True)
        if pr is None:
            return []
        out = []
        for p, n in cs:
            a, b = ex.load(st, p, n), ex.load(pr[2][0].st, p, n)
            d = sub(b, a)
            if d.op == 'const' and d.v:
                out.append((p, a, d.v))
        return out

    def summarise2(self, fr, h, prev, env, st, body, phis, v0, cands, kp, lags, why):
        from .sym import EngineLimit, Refuted
        ex = self.ex
        tried = set()
        choices = list(itertools.islice(itertools.product(*[(c[:2] if c else [None]) for c in cands]), 4))

        def go(choice, Fs):
            for F in Fs:
                if (choice, F.id) in tried:
                    continue
                tried.add((choice, F.id))
                if F.op == 'const' and F.v <= (11 if self.nested else 24):
                    why.append('%d iterations are unrolled' % F.v)
                    continue
                try:
                    # one iteration at a symbolic index below the candidate count, no obligations
                    self.lags = lags
                    kq = kp if F.op != 'const' or F.v == 0 else tm.fresh(64, 'kp', 0, F.v - 1)
                    p2 = self.one(fr, h, env, st, body, phis, self.pforms(v0, choice, kq), lambda s: s.assume(ult(kq, F)), True)
                    self.lags = lags
                    if p2 is None:
                        raise NoFit('probe')
                    return self.attempt(fr, h, prev, env, st, body, phis, v0, choice, kq, p2[1], p2[2], F)
                except NoFit as e:
                    why.append('%s [%s]' % (e, tm.show(F, 3)))
                except EngineLimit as e:
                    why.append('%s [%s]' % (e, tm.show(F, 3)))
            return None
        # candidates from the header test alone
        for choice in choices:
            self.lags = lags
            hc = self.header_cond(fr, h, env, st, phis, self.pforms(v0, choice, kp))
            if hc is not None:
                r = go(choice, self.rank(fr, h, hc, self.candF([hc], kp, st)[:4], kp, st))
                if r is not None:
                    return r
        # candidates from all branch conditions of an iteration
        for choice in choices:
            self.lags = lags
            probe = self.one(fr, h, env, st, body, phis, self.pforms(v0, choice, kp), None, True)
            if probe is None:
                continue
            if not any(c is not None for c in cands) and not probe[0]:
                return None
            r = go(choice, self.candF(probe[0], kp, st))
            if r is not None:
                return r
        self.summ.append((fr.f.name, h, 'no fit', why))
        if self.exactF and tm.umax(self.exactF[0]) > 256:
            self.bigF = (self.exactF[0], why)
        return None

    def rank(self, fr, h, hc, Fs, kp, st):
        """counts after which the header test provably leaves the loop come first"""
        t = fr.f.blocks[h].term
        body = fr.f.loops[h]
        stay = 1 if t.a[1] in body else 0
        a, b = [], []
        for F in Fs:
            c = tm.subst(hc, {kp: F})
            try:
                c = self.ex.decide(c, st)
            except Exception:
                pass
            (a if c.op == 'const' and c.v != stay else b).append(F)
        self.exact = {F.id for F in a}
        self.exactF = self.exactF or a
        return a + b

    def header_cond(self, fr, h, env, st, phis, forms):
        ex = self.ex
        b = fr.f.blocks[h]
        t = b.term
        if t.op != 'cbr' or any(i.op in ('store', 'call') for i in b.ins):
            return None
        e2 = dict(env)
        for p, v in zip(phis, forms):
            e2[p.res] = v if v is not None else tm.fresh(64 if p.ty.k != 'int' else p.ty.n, 'phi')
        s2 = st.fork()
        fb = ex.check_bounds
        ex.check_bounds = False
        try:
            for i in b.ins:
                ex.step(fr, i, e2, s2)
            c = ex.val(ir.Ty('int', 1), t.a[0], e2, fr)
            return None if c.op == 'const' else c
        except Exception:
            return None
        finally:
            ex.check_bounds = fb

    def lagchain(self, fr, h, v, phis, cands):
        """the pure instructions computing v from header values with known steps, in order, or None"""
        body, defs = fr.f.loops[h], self.defs(fr.f)
        heads = {p.res: i for i, p in enumerate(phis)}
        out, seen = [], set()

        def walk(x, d):
            if x[0] != 'id' or x[1] not in defs or defs[x[1]][0] not in body:
                return True
            if x[1] in heads:
                return bool(cands[heads[x[1]]])
            if x[1] in seen:
                return True
            i = defs[x[1]][1]
            if d > 12:
                return False
            if i.op in ('add', 'sub', 'mul', 'shl'):
                ok = all(walk(y, d + 1) for y in i.a[:2])
            elif i.op == 'gep':
                ok = all(walk(y[1], d + 1) for y in i.a)
            elif i.op in ('zext', 'sext', 'trunc'):
                ok = walk(i.a[1], d + 1)
            else:
                ok = False
            seen.add(x[1])
            out.append(i)
            return ok
        return out if v[0] == 'id' and walk(v, 0) and out else None

    def laginfo(self, fr, h, phis, v0, cands, env):
        """header values that hold another header value of the previous iteration (plus a constant)"""
        f = fr.f
        body = f.loops[h]
        defs = self.defs(f)
        out = {}
        for i, p in enumerate(phis):
            if cands[i] or isinstance(v0[i], tuple):
                continue
            for j, q in enumerate(phis):
                if not cands[j] or isinstance(v0[j], tuple) or v0[j].w != v0[i].w:
                    continue
                ds = set()
                for v, pb in p.a:
                    if pb == '%merged' or pb not in body:
                        continue
                    r = self.delta(f, defs, v, q.res, p.ty, body, 0)
                    ds |= r if r else {None}
                if len(ds) == 1 and None not in ds:
                    out[i] = (j, next(iter(ds)))
                    break
            if i not in out and is_ptr(v0[i]):
                vs = {v for v, pb in p.a if pb != '%merged' and pb in body}
                ch = self.lagchain(fr, h, next(iter(vs)), phis, cands) if len(vs) == 1 else None
                if ch:
                    out[i] = (ch, (fr, env, phis, next(iter(vs))))
        return out

    def pforms(self, v0, choice, kp):
        fs = [self.form(v, c, kp) if c is not None else None for v, c in zip(v0, choice)]
        for i, (j, d) in self.lags.items():
            if isinstance(j, list):
                fr, env, phis, v = d
                e2 = dict(env)
                for p, w, c in zip(phis, v0, choice):
                    if c is not None and not isinstance(w, tuple):
                        e2[p.res] = self.form(w, c, sub(kp, C64(1)))
                try:
                    for ins in j:
                        self.ex.step(fr, ins, e2, None)
                    fs[i] = ite(eq(kp, C64(0)), v0[i], self.ex.val(ir.PTR, v, e2, fr))
                except Exception as err:
                    self.summ.append((fr.f.name, 'lag', 'chain', str(err)))
                continue
            if fs[j] is not None:
                pv = add(self.form(v0[j], choice[j], sub(kp, C64(1))), const(v0[j].w, d))
                fs[i] = ite(eq(kp, C64(0)), v0[i], pv)
        return fs

    def form(self, v0, c, k):
        if isinstance(v0, tuple):
            return None
        kk = k if v0.w == 64 else (tm.trunc(k, v0.w) if v0.w < 64 else zext(k, v0.w))
        return add(v0, tm.mulc(kk, c))

    def one(self, fr, h, env, st, body, phis, forms, prep, probing):
        """execute one iteration from given header values"""
        from .sym import EngineLimit, Refuted, MERGED
        ex = self.ex
        e = dict(env)
        s = st.fork()
        if probing:
            for p, v, d in self.cellforms:
                ex.store(s, p, add(v, tm.mulc(self.kp, d)))
        if prep:
            prep(s)
        for p, v in zip(phis, forms):
            if v is None:
                w = 64 if p.ty.k != 'int' else p.ty.n
                v = tm.fresh(w, 'phi')
            e['phi:' + p.res] = v
        ex.fix_phis(fr.f, h)
        save = (ex.obls, ex.readlog, ex.writelog, ex.check_bounds, ex.fail_fast, ex.loops.condlog)
        conds = []
        base = len(s.pc)
        was = ex.probing
        ex.probing = was or probing
        ex.readlog, ex.writelog = [], []
        if probing:
            ex.obls = []
            ex.check_bounds = False
            ex.fail_fast = False
            self.condlog = conds
        try:
            rs = ex.region(fr, h, MERGED, e, s, None, (h, body, [False]))
            rs = ex.merge_outs(fr, rs, base)
            wl, rl = ex.writelog, ex.readlog
        except (EngineLimit, Refuted) as err:
            if probing:
                self.summ.append((fr.f.name, h, 'probe failed', str(err)))
                return None
            raise
        finally:
            ex.probing = was
            if probing:
                ex.obls, ex.check_bounds, ex.fail_fast = save[0], save[3], save[4]
            self.condlog = save[5]
            orl, owl = save[1], save[2]
            if orl is not None:
                orl.extend(ex.readlog)
            if owl is not None:
                owl.extend(ex.writelog)
            ex.readlog, ex.writelog = orl, owl
        backs = [o for o in rs if o.kind == 'back']
        if not probing:
            return rs, wl, rl
        if not backs:
            return None
        # branch conditions that mention the index
        for o in rs:
            for c, b in o.st.pc[base:]:
                if b:
                    conds.append(c)
        bvals = self.back_vals(fr, h, phis, backs[0])
        return conds, wl, backs, bvals, rl

    def back_vals(self, fr, h, phis, o):
        ex = self.ex
        out = []
        for p in phis:
            for v, pb in p.a:
                if pb == o.prev:
                    out.append(ex.val(p.ty, v, o.env, fr))
                    break
            else:
                out.append(None)
        return out

    def candF(self, conds, k, st):
        """candidate iteration counts from comparison atoms over the index"""
        atoms = []
        seen = set()
        stack = list(conds)
        while stack:
            c = stack.pop()
            if c.id in seen:
                continue
            seen.add(c.id)
            if c.op in ('not', 'and', 'or', 'xor') and c.w == 1:
                stack.extend(c.args)
            elif c.op == 'ite' and c.w == 1:
                stack.extend(c.args)
            elif c.op in ('ult', 'slt', 'eq') and k in tm.topo([c]):
                atoms.append(c)
        out = []

        def push(F):
            if F.op == 'const' and F.v == 0:
                return
            if F not in out:
                out.append(F)
        for c in atoms:
            a, b = c.args
            r = self.solve(a, b, k)
            if r is None:
                continue
            alpha, beta = r      # a-b = alpha + beta*k  (as signed magnitudes), |.| -> thresholds
            for al, be in ((alpha, beta),):
                m = 1 << 64
                nb = be if be < m // 2 else m - be
                pos = al if be >= m // 2 else tm.neg(al)
                # threshold where alpha + beta*k crosses zero: k = pos / nb
                ceil_ = tm.udiv(add(pos, C64(nb - 1)), C64(nb)) if nb > 1 else pos
                floor_ = tm.udiv(pos, C64(nb)) if nb > 1 else pos
                plus1 = tm.udiv(add(pos, C64(nb)), C64(nb)) if nb > 1 else add(pos, C64(1))
                minus1 = sub(pos, C64(1)) if nb == 1 else tm.udiv(sub(pos, C64(1)), C64(nb))
                for F in (floor_, ceil_, plus1, minus1) if nb > 1 else (pos, plus1, minus1):
                    push(F)
        # larger constants first
        consts = sorted([F for F in out if F.op == 'const'], key=lambda t: -t.v)
        return [F for F in consts if F.v < 1 << 40][:6] + [F for F in out if F.op != 'const'][:10]

    def solve(self, a, b, k):
        """a - b as alpha + beta*k over the integers, 64-bit; None if not linear"""
        w = a.w
        if w < 64:
            a2, b2 = self.widen(a, k), self.widen(b, k)
            if a2 is None or b2 is None:
                return None
            a, b = a2, b2
        d = sub(a, b)
        if d.op != 'lin' and d is not k:
            return None
        c, parts = tm._lin_parts(d)
        beta = parts.pop(k, 0)
        if beta == 0:
            return None
        alpha = tm._mklin(64, c, parts)
        if k in tm.topo([alpha]):
            return None
        return alpha, beta

    def widen(self, t, k):
        """64-bit version of a narrower linear term (candidate generation only)"""
        if t.op == 'const':
            return C64(tm.sgn(t.v, t.w))
        if t.op == 'lin':
            c, cs = t.v
            r = C64(tm.sgn(c, t.w))
            for q, a in zip(cs, t.args):
                x = self.widen(a, k)
                if x is None:
                    return None
                r = add(r, tm.mulc(x, tm.sgn(q, t.w)))
            return r
        if t.op == 'ext' and t.v[1] == 0:
            return t.args[0] if t.args[0].w == 64 else zext(t, 64)
        return zext(t, 64)

    # ---------------------------------------------------------------- one candidate
    def attempt(self, fr, h, prev, env, st, body, phis, v0, choice, kp, wlog, pbacks, F):
        from .sym import EngineLimit, Refuted, MERGED, Outcome
        ex = self.ex
        if F.op != 'const':
            z = ex.decide(eq(F, C64(0)), st)
            if z is TRUE:
                raise NoFit('zero iterations')
        # bound of F under the path condition: keep arithmetic away from wrap-around
        if F.op != 'const' and tm.umax(F) > 1 << 40:
            if ex.decide(tm.ule(F, C64(1 << 40)), st) is not TRUE:
                raise NoFit('iteration count not bounded')
        hi = min(tm.umax(F), 1 << 40)
        k = tm.fresh(64, 'k', 0, F.v - 1 if F.op == 'const' and F.v else hi)
        kb = tm.fresh(64, 'k', 0, hi)
        # classify the probe's writes
        accs = {}
        maps = {}
        whole = set()
        for name, off, n, g in wlog:
            o = st.objs.get(name)
            if o is None:
                continue      # object created inside the iteration
            c, parts = tm._lin_parts(off)
            if hi < 1 << 31 and any(a is not kp and kp in tm.topo([a]) for a in parts):
                # an index that is narrowed and widened again: use that it is below the iteration count
                off = tm.subst(tm.subst(off, {kp: kb}), {kb: kp})
                c, parts = tm._lin_parts(off)
            nn = n if isinstance(n, int) else (n.v if n.op == 'const' else None)
            if kp in parts:
                beta = parts[kp]
                if beta >= 1 << 63:
                    beta -= 1 << 64
                rest = {a: q for a, q in parts.items() if a is not kp}
                if any(kp in tm.topo([a]) for a in rest):
                    whole.add(name)
                    continue
                key = (name, beta)
                maps.setdefault(key, []).append((tm._mklin(64, 0, rest), c, nn))
            elif kp in tm.topo([off]):
                whole.add(name)
            elif parts or nn is None:
                # symbolic but iteration independent offset: bound it
                lo, hi_ = tm.umin(off), tm.umax(off)
                ln = nn if nn is not None else tm.umax(n)
                if hi_ - lo > 4096 or ln > 4096:
                    whole.add(name)
                else:
                    accs.setdefault(name, set()).update(range(lo, hi_ + ln))
            else:
                accs.setdefault(name, set()).update(range(c, c + nn))
        mapinfo = {}
        for (name, beta), ws in maps.items():
            if any(nn is None for _, _, nn in ws):
                whole.add(name)
                continue
            rests = {w[0] for w in ws}
            if len(rests) > 1 or beta == 0:
                whole.add(name)
                continue
            # clusters of offsets: each is an array of its own; they must not overlap
            cl = []
            for c_, nn in sorted((signed(c), nn) for _, c, nn in ws):
                if cl and c_ + nn - cl[-1][0] <= abs(beta):
                    cl[-1][1] = max(cl[-1][1], c_ + nn)
                else:
                    cl.append([c_, c_ + nn])
            if len(cl) > 1 and (F.op != 'const' or any(b[0] - a[0] < abs(beta) * F.v for a, b in zip(cl, cl[1:]))):
                whole.add(name)
                continue
            if any(x[0] == name for x in mapinfo.values()):
                whole.add(name)
                continue
            for lo, hi_ in cl:
                mapinfo[name if len(cl) == 1 else '%s+%d' % (name, lo)] = (name, next(iter(rests)), lo, beta, hi_ - lo)
        for name, *_ in list(mapinfo.values()):
            if name in accs or name in whole:
                whole.add(name)
        for name in whole:
            for key in [key for key, x in mapinfo.items() if x[0] == name]:
                del mapinfo[key]
            accs.pop(name, None)
            o = st.objs[name]
            if o.kind not in ('alloca', 'heap'):
                raise NoFit('irregular writes to ' + name)
        # ghost assignment of accumulator cells
        slots = []           # (name, start, choices[(ghost, be)])
        for name, offs in accs.items():
            offs = sorted(offs)
            runs = []
            for o in offs:
                if runs and runs[-1][1] == o:
                    runs[-1][1] = o + 1
                else:
                    runs.append([o, o + 1])
            for a, b in runs:
                pos = a
                while pos < b:
                    ch = []
                    for gi, g in enumerate(ex.ghosts):
                        n = g.w // 8
                        if pos + n > b or getattr(g, 'only', name) != name:
                            continue
                        bs = ex.content_bytes(st, name, C64(pos), n)
                        for be in (False, True) if getattr(g, 'le', False) else (True, False):
                            want = [ext(g.base, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)]
                            if not be:
                                want = want[::-1]
                            if all(x is y for x, y in zip(bs, want)) or (n > 1 and not any(x.op == 'const' and y.op == 'const' and x.v != y.v for x, y in zip(bs, want)) and self.proves(st, bs, want)):
                                ch.append((g, be, n))
                                break
                    if ch:
                        slots.append((name, pos, ch))
                        pos += ch[0][2]
                    else:
                        slots.append((name, pos, [(None, True, 1)]))
                        pos += 1
        regs = {}
        for key, (name, rest, lo, beta, span) in mapinfo.items():
            for rg in ex.region_ghosts:
                b = tm.is_ptr_base(rg.ptr)
                if b and b[0].v == name and beta > 0 and add(rest, C64(lo)) is b[1]:
                    regs[key] = rg
                    break
        # non-affine header values: lag form or ghost scalars
        err = None
        total = 1
        gchoices = [s[2] for s in slots]
        combos = itertools.islice(itertools.product(*gchoices), 12)
        lagvals = self.back_vals(fr, h, phis, pbacks[0])
        for combo in combos:
            try:
                return self.try_combo(fr, h, prev, env, st, body, phis, v0, choice, kp, k, F, slots, combo, mapinfo, regs, whole, lagvals)
            except NoFit as e:
                err = e
        raise err or NoFit('no ghost assignment')

    def proves(self, st, bs, want):
        ex = self.ex
        g = tm.conj([eq(x, y) for x, y in zip(bs, want)])
        if g.op == 'const':
            return g is TRUE
        from .sym import tsize
        if tsize(g, 300) >= 300:
            return False
        r, _ = smt.prove(st.terms(), g, 2000)
        return r == 'valid'

    def try_combo(self, fr, h, prev, env, st, body, phis, v0, choice, kp, k, F, slots, combo, mapinfo, regs, whole, lagvals):
        from .sym import EngineLimit, Refuted, MERGED, Outcome
        ex = self.ex
        ex.uid = getattr(ex, 'uid', 0) + 1
        uid = ex.uid
        forms = []
        for p, v, c, lv in zip(phis, v0, choice, lagvals):
            if c is not None and not isinstance(v, tuple):
                forms.append(('aff', v, c))
                continue
            # ghost scalar
            done = False
            for g in ex.ghosts:
                if isinstance(v, tm.T) and g.w == v.w and g.base is v:
                    forms.append(('ghost', g, None))
                    done = True
                    break
            if done:
                continue
            if lv is not None and isinstance(lv, tm.T) and lv.op != 'const' or (lv is not None and isinstance(lv, tm.T)):
                bad = any(x.op == 'var' and str(x.v).startswith('phi!') for x in tm.topo([lv]))
                if not bad:
                    forms.append(('lag', v, lv))
                    continue
            if isinstance(v, tm.T) and v.op == 'const' and v.v in (0, 1) and st.ghost.get('failed') is FALSE:
                # a flag that remembers a failure of the cipher
                forms.append(('sticky', v, None))
                continue
            forms.append(('havoc', v, None))
        sticky = any(t == 'sticky' for t, _, _ in forms)

        def failflag(kk):
            return tm.raw_uf('hvfail%d' % uid, 1, kk)

        def phival(i, kk, s=None):
            t, a, b = forms[i]
            if t == 'aff':
                return self.form(a, b, kk)
            if t == 'ghost':
                return a.at(kk)
            if t == 'sticky':
                return zext(failflag(kk) if a.v == 0 else not_(failflag(kk)), a.w)
            if t == 'lag':
                if kk.op == 'const' and kk.v == 0:
                    return a
                l = tm.subst(b, {kp: sub(kk, C64(1))})
                return ite(eq(kk, C64(0)), a, l)
            w = 64 if phis[i].ty.k != 'int' else phis[i].ty.n
            return tm.raw_uf('hv%d_%d' % (uid, i), w, kk)

        def setmem(s, kk):
            for (name, pos, _), (g, be, n) in zip(slots, combo):
                if g is None:
                    bs = [tm.raw_uf('hm%d_%s_%d' % (uid, name, pos), 8, kk)]
                    kind = s.objs[name].kind
                else:
                    v = g.at(kk)
                    bs = [ext(v, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)]
                    if not be:
                        bs = bs[::-1]
                s.mem[name] = mem.store_bytes(s.mem[name], C64(pos), bs, s.own)
            for name in whole:
                s.mem[name] = mem.Sym('hw%d_%s' % (uid, name) if kk is k else 'hx%d_%s' % (uid, name))
            for key, (name, rest, lo, beta, span) in mapinfo.items():
                base = add(rest, C64(lo))
                if key in regs:
                    rg = regs[key]
                    s.mem[name] = mem.Range(s.mem[name], base, tm.mulc(kk, beta), rg.fn)
                else:
                    nm = 'prior%d_%s' % (uid, key)
                    if beta > 0:
                        s.mem[name] = mem.Range(s.mem[name], base, tm.mulc(kk, beta), lambda rel, nm=nm: tm.sel(nm, rel))
                    else:
                        # descending: written so far is [base+beta*kk+|beta|, base+|beta|)
                        st_ = add(base, tm.mulc(kk, beta))
                        st_ = add(st_, C64(-beta))
                        s.mem[name] = mem.Range(s.mem[name], st_, tm.mulc(kk, -beta), lambda rel, nm=nm: tm.sel(nm, rel))

        def prep(s):
            s.assume(ult(k, F))
            setmem(s, k)
            if sticky:
                s.ghost['failed'] = failflag(k)
            for g in ex.ghosts:
                for fct in g.facts(k):
                    s.assume(fct)
            for rg in regs.values():
                if rg.facts:
                    for fct in rg.facts(k):
                        s.assume(fct)
        nob = len(ex.obls)
        try:
            rs, wl, rl = self.one(fr, h, env, st, body, phis, [phival(i, k) for i in range(len(phis))], prep, False)
        except Refuted as e:
            del ex.obls[nob:]
            raise NoFit('step refuted: %s %s' % (e.ob.name, e.ob.detail))
        except EngineLimit as e:
            del ex.obls[nob:]
            raise NoFit('step: %s' % e)
        backs = [o for o in rs if o.kind == 'back']
        others = [o for o in rs if o.kind != 'back']
        early = []
        if not backs:
            del ex.obls[nob:]
            raise NoFit('no back edge')
        for o in others:
            fl = o.st.ghost.get('failed')
            if fl is not None and ex.decide(fl, o.st) is TRUE:
                early.append(o)
                continue
            if ex.feasible(o.st):
                del ex.obls[nob:]
                raise NoFit('leaves the loop early')
        bo = backs[0]
        s = bo.st
        k1 = add(k, C64(1))
        bvals = self.back_vals(fr, h, phis, bo)
        # scalar steps
        for i, (t, a, b) in enumerate(forms):
            if t == 'havoc':
                continue
            want = a.succ(k) if t == 'ghost' else phival(i, k1)
            if t == 'lag':
                want = tm.subst(b, {kp: k})
            if t == 'sticky':
                want = zext(s.ghost['failed'] if a.v == 0 else not_(s.ghost['failed']), a.w)
            if bvals[i] is not want and not ex.oblige(s, eq(bvals[i], want), 'loop-step', 'header value %s of %s' % (phis[i].res, fr.f.name), soft=True):
                del ex.obls[nob:]
                raise NoFit('header value %s' % phis[i].res)
        # accumulators
        for (name, pos, _), (g, be, n) in zip(slots, combo):
            if g is None:
                continue
            got = ex.content_bytes(s, name, C64(pos), n)
            v = g.succ(k)
            want = [ext(v, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)]
            if not be:
                want = want[::-1]
            goal = TRUE
            if any(x is not y for x, y in zip(got, want)):
                goal = eq(concat(*got), concat(*want)) if n > 1 else eq(got[0], want[0])
            if not ex.oblige(s, goal, 'loop-step', 'ghost %s in %s' % (g.name, fr.f.name), soft=True):
                del ex.obls[nob:]
                raise NoFit('ghost %s not preserved' % g.name)
        # frame: every write of the real iteration is covered
        accset = {}
        mapped = {x[0] for x in mapinfo.values()}
        for (name, pos, _), (g, be, n) in zip(slots, combo):
            accset.setdefault(name, set()).update(range(pos, pos + n))
        for name, off, n, g in wl:
            if name not in st.objs or name in whole:
                continue
            nn = n if isinstance(n, int) else n.v if n.op == 'const' else None
            if name in mapped:
                ok = False
                for name_, rest, lo, beta, span in mapinfo.values():
                    d = sub(off, add(add(rest, C64(lo)), tm.mulc(k, beta)))
                    if name_ == name and d.op == 'const' and nn is not None and d.v + nn <= abs(beta):
                        ok = True
                if ok:
                    continue
            elif off.op == 'const' and nn is not None and all(x in accset.get(name, ()) for x in range(off.v, off.v + nn)):
                continue
            elif name in accset:
                lo_, hi_ = tm.umin(off), tm.umax(off)
                ln = nn if nn is not None else tm.umax(n)
                if hi_ + ln - lo_ <= 8192 and all(x in accset[name] for x in range(lo_, hi_ + ln)):
                    continue
            del ex.obls[nob:]
            raise NoFit('write outside the inferred frame: ' + name + ' at %s (%s)' % (str(off)[:120], n))
        # map regions
        fns = {}
        consts = {}
        for key, (name, rest, lo, beta, span) in mapinfo.items():
            base = add(rest, C64(lo))
            cur = add(base, tm.mulc(k, beta))
            S = abs(beta)
            got = ex.content_bytes(s, name, cur, S)
            prior = 'prior%d_' % uid
            if key in regs:
                rg = regs[key]
                want = [rg.written(add(tm.mulc(k, beta), C64(i))) for i in range(S)]
                goal = TRUE
                if any(x is not y for x, y in zip(got, want)):
                    goal = eq(concat(*got), concat(*want)) if S > 1 else eq(got[0], want[0])
                if not ex.oblige(s, goal, 'loop-step', 'region %s in %s' % (rg.name, fr.f.name), soft=True):
                    del ex.obls[nob:]
                    raise NoFit('region %s not established' % rg.name)
                fns[key] = rg.fn
                continue
            for x in got:
                for y in tm.topo([x]):
                    if (y.op == 'sel' and isinstance(y.v, str) and y.v.startswith(prior)) or (y.op == 'uf' and isinstance(y.v, str) and (y.v.startswith('hv%d_' % uid) or y.v.startswith('hm%d_' % uid))):
                        del ex.obls[nob:]
                        raise NoFit('iteration reads values of earlier iterations in %s: %s' % (name, str(x)[:300]))
                    if y.op == 'sel' and isinstance(y.v, str) and y.v.startswith('hw%d_' % uid):
                        del ex.obls[nob:]
                        raise NoFit('iteration reads unknown memory in ' + name)
            if any(x.op == 'var' and str(x.v).startswith(('rand!', 'rnd!', 'undef!', 'libret!', 'cret!')) and x.id > k.id for y in got for x in tm.topo([y])):
                # values drawn afresh in every iteration: abstract as an unknown array
                nm = 'fresh%d_%s' % (uid, key)
                fns[key] = lambda rel, nm=nm: tm.sel(nm, rel)
                continue
            fns[key] = mapfn(got, k, beta, S, F)
            if F.op == 'const' and F.v <= 1024 and beta > 0 and base.op == 'const' and not any(x.op in ('sel', 'uf') or x.op == 'var' and x is not k for y in got for x in tm.topo([y])):
                # values that depend on the iteration alone: a constant table
                vals = [fns[key](C64(i)) for i in range(S * F.v)]
                if all(x.op == 'const' for x in vals):
                    consts[key] = vals
        # path facts that relate memory of other iterations must not leak: outcome state is rebuilt
        out = st.fork()
        for (name, pos, _), (g, be, n) in zip(slots, combo):
            if g is None:
                bs = [tm.raw_uf('hm%d_%s_%d' % (uid, name, pos), 8, F)]
                if F.op == 'const' and out.objs[name].kind == 'alloca':
                    pass
            else:
                v = g.at(F)
                bs = [ext(v, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)]
                if not be:
                    bs = bs[::-1]
            out.mem[name] = mem.store_bytes(out.mem[name], C64(pos), bs, out.own)
        for g in ex.ghosts:
            for fct in g.facts(F):
                out.assume(fct)
            if F.op != 'const' and F.id not in self.exact:
                out.assume(eq(g.at(add(F, C64(1))), g.succ(F)))
        for name in whole:
            out.mem[name] = mem.Sym('hx%d_%s' % (uid, name))
        for key, (name, rest, lo, beta, span) in mapinfo.items():
            base = add(rest, C64(lo))
            S = abs(beta)
            n = tm.mulc(F, S)
            if key in consts:
                out.mem[name] = mem.store_bytes(out.mem[name], base, consts[key], out.own)
            elif beta < 0:
                base = add(sub(base, n), C64(S))
                # rel' counted from the low end: iteration index F-1-rel/S
                out.mem[name] = mem.store_range(out.mem[name], base, n, fns[key], out.own)
            else:
                out.mem[name] = mem.store_range(out.mem[name], base, n, fns[key], out.own)
        e = dict(env)
        for i, p in enumerate(phis):
            e['phi:' + p.res] = phival(i, F)
        # ghost heap counters etc.
        if sticky:
            out.ghost['failed'] = failflag(F)
        for kx, vx in s.ghost.items():
            if st.ghost.get(kx) is not vx:
                if kx == 'failed' and sticky:
                    continue
                if kx == 'failed' and isinstance(vx, tm.T) and ex.oblige(s, not_(vx), 'loop-step', 'the loop goes on only if the cipher succeeded', soft=True, record=False):
                    continue
                raise NoFit('ghost state changes in loop: %s' % kx)
        ex.fix_phis(fr.f, h)
        self.summ.append((fr.f.name, h, 'summarised', tm.show(F, 4)))
        self.frame = None
        if F.op == 'const' and all(x[3] > 0 for x in mapinfo.values()) and not whole and not early:
            self.frame = [(name, add(rest, C64(lo)), abs(beta) * F.v, TRUE) for name, rest, lo, beta, span in mapinfo.values()]
            self.frame += [(name, C64(pos), n, TRUE) for (name, pos, _), (g, be, n) in zip(slots, combo)]
        if early:
            # some iteration ended the loop (cipher failure) or none did
            b = tm.fresh(1, 'stops')
            out.assume(not_(b), True)
            for o in early:
                o.st.assume(b, True)
        return e, out, MERGED, early


def is_ptr(t):
    return tm.is_ptr_base(t) is not None


def signed(c):
    return c - (1 << 64) if c >= 1 << 63 else c


def mapfn(got, k, beta, S, F):
    """function rel -> byte for a region written in cells of S bytes"""
    cache = {}

    def at(idx, j):
        key = (idx.id, j)
        r = cache.get(key)
        if r is None:
            r = tm.subst(got[j], {k: idx})
            cache[key] = r
        return r

    def fn(rel):
        if beta < 0:
            # rel counted from low end; iteration = F-1 - rel/S
            if rel.op == 'const':
                q, j = rel.v // S, rel.v % S
                return at(sub(sub(F, C64(1)), C64(q)), j)
            if S == 1:
                return at(sub(sub(F, C64(1)), rel), 0)
        if rel.op == 'const':
            return at(C64(rel.v // S), rel.v % S)
        if S == 1:
            return at(rel, 0)
        # symbolic rel = S*q + j
        j = tm.urem(rel, C64(S))
        q = tm.udiv(rel, C64(S))
        if beta < 0:
            q = sub(sub(F, C64(1)), q)
        if j.op == 'const':
            return at(q, j.v)
        t = mem.template(got)
        if t is not None:
            return tm.subst(t[0], {k: q, t[1]: ext(j, t[1].w - 1, 0)})
        r = at(q, 0)
        for i in range(1, S):
            r = ite(eq(j, C64(i)), at(q, i), r)
        return r
    return fn


def ex_limit(m):
    from .sym import EngineLimit
    return EngineLimit(m)
