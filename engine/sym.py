"""Symbolic executor / verification-condition generator over LLVM IR.

The executor runs one function body under its contract's precondition.  Calls to functions
under contract are replaced by the contract; other defined functions are inlined (their body is
then part of the verified text).  Loops are cut by invariants (see loops.py).  Every in-bounds,
frame, precondition and postcondition obligation goes to `Exec.oblige`.
"""
import struct
from . import terms as tm, mem, smt, ir, prover
from .terms import const, add, sub, ult, eq, ite, band, bor, not_, concat, ext, zext, TRUE, FALSE

C64 = lambda v: const(64, v)
NULL = C64(0)


class EngineLimit(Exception):
    """the code has a shape outside the verifier's reach (never a property violation)"""


class Refuted(Exception):
    def __init__(self, ob):
        Exception.__init__(self, ob.name)
        self.ob = ob


WHOLE = {}


class Obl:
    __slots__ = ('name', 'status', 'backend', 'detail', 'goal', 'pc', 'model', 'time')


class Obj:
    __slots__ = ('name', 'size', 'kind', 'wr', 'alive', 'rd')

    def __init__(self, name, size, kind, wr=True):
        self.name, self.size, self.kind, self.wr, self.alive = name, size, kind, wr, True
        self.rd = None        # (start, length) readable, None: all of it


class State:
    __slots__ = ('mem', 'objs', 'pc', 'known', 'own', 'ghost')

    def __init__(self):
        self.mem = {}
        self.objs = {}
        self.pc = ()          # tuple of (term, isbranch)
        self.known = {}
        self.own = object()
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.pc = self.pc
        s.known = dict(self.known)
        s.ghost = dict(self.ghost)
        self.own = object()
        return s

    def assume(self, c, branch=False):
        if c is TRUE:
            return
        if c.op == 'and' and c.w == 1:
            for a in c.args:
                self.assume(a, branch)
            return
        if self.known.get(c.id) is True:
            return
        self.pc = self.pc + ((c, branch),)
        if c.op == 'not':
            self.known[c.args[0].id] = False
            if c.args[0].op == 'or' and c.args[0].w == 1:
                pass
        self.known[c.id] = True
        if c.op == 'eq' and c.args[0].op == 'const' and c.args[1].w == 1:
            self.known[c.args[1].id] = bool(c.args[0].v)

    def terms(self):
        return [c for c, _ in self.pc]


class Outcome:
    __slots__ = ('kind', 'st', 'env', 'block', 'prev', 'ret')

    def __init__(self, kind, st, env, block=None, prev=None, ret=None):
        self.kind, self.st, self.env, self.block, self.prev, self.ret = kind, st, env, block, prev, ret


class Frame:
    __slots__ = ('f', 'allocas', 'depth', 'iters')

    def __init__(self, f, depth):
        self.f = f
        self.allocas = []
        self.depth = depth
        self.iters = {}


class Undef:
    pass


class Exec:
    def __init__(self, mod, contracts=None, name=''):
        self.mod = mod
        self.contracts = dict(contracts or {})
        self.name = name
        self.obls = []
        self.cnt = {}
        self.check_bounds = True
        self.ghosts = []           # loop ghost candidates (see loops.py)
        self.region_ghosts = []
        self.cells = []            # spec-state cells (pointer, bytes) that may advance affinely in a loop
        self.inlined = set()
        self.used_contracts = set()
        self.canon = []            # candidate canonical terms for cipher arguments
        self.unroll_limit = 70000
        self.sym_unroll = 40
        self.readlog = None
        self.writelog = None
        self.after_store = None
        self.max_paths = 400
        self.malloc_fail = False
        self.externs = {}
        self.deccache = {}
        self.trace_calls = None
        self.timeout = 20000
        self.fail_fast = True
        self.no_summary = False
        self.summary_min = 24
        self.summary_nest = False
        self.probing = False
        self.decide_z3 = True
        self.fnptrs = {}
        self.assumptions = set()
        self.deadline = None
        self.steps = 0
        self.uninit_ok = True
        self.allow_abort = False
        self.atomic = False
        from . import loops
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, detail='', record=True, soft=False):
        """goal must hold on every state satisfying the path condition"""
        import time
        o = Obl()
        o.name, o.detail, o.goal, o.model = name, detail, goal, None
        o.pc = st.terms()
        t0 = time.time()
        if goal is TRUE or st.known.get(goal.id) is True:
            o.status, o.backend = 'valid', 'simplifier'
        else:
            r, info = self.prove(st, goal)
            o.status = r
            o.backend = info if r == 'valid' else None
            if r == 'refuted':
                o.model = info
        o.time = time.time() - t0
        if record:
            self.obls.append(o)
        if o.status != 'valid' and not soft and self.fail_fast:
            if o.status == 'refuted':
                raise Refuted(o)
            raise EngineLimit('obligation undecided: %s %s' % (name, detail))
        return o.status == 'valid'

    def prove(self, st, goal):
        return prover.prove(relevant(st.terms(), goal), goal, self.timeout)

    def decide(self, c, st, z3ok=True):
        if c.op == 'const':
            return c
        k = st.known.get(c.id)
        if k is not None:
            return TRUE if k else FALSE
        if c.op == 'not':
            k = st.known.get(c.args[0].id)
            if k is not None:
                return FALSE if k else TRUE
        if not z3ok or not self.decide_z3 or not st.pc:
            return c
        key = (c.id, tuple(t.id for t, _ in st.pc))
        r = self.deccache.get(key)
        if r is not None:
            return r
        c2 = simp_known(c, st)
        if c2.op == 'const':
            self.deccache[key] = c2
            return c2
        if has_heavy(c):
            self.deccache[key] = c
            return c
        pcs = relevant(st.terms(), c)
        r = c
        if pcs or True:
            s, _ = smt.check(pcs + [c], 3000)
            if s == 'unsat':
                r = FALSE
            else:
                s, _ = smt.check(pcs + [not_(c)], 3000)
                if s == 'unsat':
                    r = TRUE
        self.deccache[key] = r
        if r is not c:
            st.known[c.id] = r is TRUE
        return r

    def feasible(self, st):
        s, _ = smt.check(st.terms(), 5000)
        return s != 'unsat'

    # ------------------------------------------------------------ objects
    def uniq(self, base):
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    def new_obj(self, st, base, size, kind='heap', content=None, wr=True):
        name = self.uniq(base)
        if not isinstance(size, tm.T):
            size = C64(size)
        st.objs[name] = Obj(name, size, kind, wr)
        st.mem[name] = content if content is not None else mem.Sym('undef:' + name)
        return tm.addr(name)

    def obj_of(self, st, name):
        o = st.objs.get(name)
        if o is None and name.startswith('@'):
            o = self.load_global(st, name)
        return o

    def load_global(self, st, name):
        g = self.mod.globals.get(name)
        if g is None:
            # external data (stderr, ...)
            o = Obj(name, C64(1 << 20), 'ext', False)
            st.objs[name] = o
            st.mem[name] = mem.Sym('ext:' + name)
            return o
        ty, init, isconst, _ = g
        n = self.mod.size(ty)
        o = Obj(name, C64(n), 'const' if isconst else 'global', not isconst)
        st.objs[name] = o
        if init is None:
            st.mem[name] = mem.Sym('ext:' + name)
            return o
        key = name
        c = self._gcache().get(key)
        if c is None:
            b = bytearray(n)
            rel = []
            self._init_bytes(ty, init, b, 0, rel, self.mod.funcs)
            c = mem.Bytes(b)
            if rel:
                f = mem.Flat(c, {}, [])
                for off, t in rel:
                    for i in range(8):
                        f.b[off + i] = ext(t, 8 * i + 7, 8 * i)
                c = f
            self._gcache()[key] = c
        st.mem[name] = c
        return o

    def _gcache(self):
        m = self.mod
        if not hasattr(m, 'gcache'):
            m.gcache = {}
        return m.gcache

    def _init_bytes(self, ty, v, b, off, rel, funcs):
        mod = self.mod
        k = v[0]
        if k in ('zero', 'undef', 'null'):
            return
        ty = mod.resolve(ty)
        if k == 'c':
            n = mod.size(ty)
            b[off:off + n] = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif k == 'str':
            b[off:off + len(v[1])] = v[1]
        elif k == 'agg':
            if ty.k == 'struct':
                offs = mod.offsets(ty)
                for o, (ety, ev) in zip(offs, v[1]):
                    self._init_bytes(ety, ev, b, off + o, rel, funcs)
            else:
                es = mod.size(ty.el)
                for i, (ety, ev) in enumerate(v[1]):
                    self._init_bytes(ety, ev, b, off + i * es, rel, funcs)
        elif k == 'fp':
            b[off:off + 8] = struct.pack('<d', v[1])
        elif k in ('g', 'gep', 'cast'):
            rel.append((off, self.constval(ty, v, None)))
        else:
            raise EngineLimit('global initialiser ' + k)

    def resolve_sym(self, name, f):
        if f is not None and name in f.ren:
            return f.ren[name]
        return name

    # ------------------------------------------------------------ values
    def constval(self, ty, v, fr):
        k = v[0]
        if k == 'c':
            w = ty.n if ty.k == 'int' else 64
            return const(w, v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            f = fr.f if fr else None
            nm = self.resolve_sym(v[1], f)
            if nm in self.mod.funcs or nm in self.mod.decls and nm not in self.mod.globals:
                return tm.addr('fn:' + nm)
            return tm.addr(nm)
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef(ty)
        if k == 'gep':
            return self.gep(v[1], v[2], fr, None)
        if k == 'cast':
            return self.cast(v[1], v[2], self.constval(v[2], v[3], fr), v[4])
        if k == 'fp':
            return fpconst(v[1])
        if k == 'agg':
            return tuple(self.constval(t, x, fr) for t, x in v[1])
        raise EngineLimit('constant ' + k)

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            return const(ty.n, 0)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'fp':
            return const(64, 0)
        if ty.k == 'struct':
            return tuple(self.zero(f) for f in ty.fields)
        if ty.k in ('arr', 'vec'):
            return tuple(self.zero(ty.el) for _ in range(ty.n))
        raise EngineLimit('zero ' + ty.k)

    def undef(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            return tm.fresh(ty.n, 'undef')
        if ty.k in ('ptr', 'fp'):
            return tm.fresh(64, 'undef')
        if ty.k == 'struct':
            return tuple(self.undef(f) for f in ty.fields)
        if ty.k in ('arr', 'vec'):
            return tuple(self.undef(ty.el) for _ in range(ty.n))
        raise EngineLimit('undef ' + ty.k)

    def val(self, ty, v, env, fr):
        if v[0] == 'id':
            x = env.get(v[1])
            if x is None:
                raise EngineLimit('unbound %s in %s' % (v[1], fr.f.name))
            return x
        return self.constval(ty, v, fr)

    def width(self, ty):
        if ty.k == 'int':
            return ty.n
        return 64

    def gep(self, sty, ops, fr, env):
        base = self.val(ops[0][0], ops[0][1], env, fr)
        off, k = None, 0
        ty = sty
        first = True
        for oty, ov in ops[1:]:
            i = self.val(oty, ov, env, fr)
            if first:
                first = False
            else:
                ty = self.mod.resolve(ty)
                if ty.k == 'struct':
                    if i.op != 'const':
                        raise EngineLimit('symbolic struct index')
                    k += self.mod.offsets(ty)[i.v]
                    ty = ty.fields[i.v]
                    continue
                ty = ty.el
            if i.op == 'const':
                k += tm.sgn(i.v, i.w) * self.mod.size(ty)
            else:
                t = tm.mulc(tm.sext(i, 64) if i.w < 64 else i, self.mod.size(ty))
                off = t if off is None else add(off, t)
        if off is not None:
            base = add(base, off)
        return add(base, C64(k)) if k else base

    def cast(self, op, f, v, to):
        if op == 'zext':
            return zext(v, to.n)
        if op == 'sext':
            return tm.sext(v, to.n)
        if op == 'trunc':
            return tm.trunc(v, to.n)
        if op in ('ptrtoint', 'inttoptr'):
            w = self.width(to)
            if v.w == w:
                return v
            return tm.trunc(v, w) if v.w > w else zext(v, w)
        if op == 'bitcast':
            return v
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            if v.op == 'const':
                if op == 'uitofp':
                    return fpconst(float(v.v))
                if op == 'sitofp':
                    return fpconst(float(tm.sgn(v.v, v.w)))
                if op in ('fptoui', 'fptosi'):
                    return const(to.n, int(fpval(v)))
                return v
            return tm.uf(op, self.width(to), v)
        raise EngineLimit('cast ' + op)

    # ------------------------------------------------------------ memory
    def ptr_cases(self, p, st):
        """[(guard, objname, offset)]"""
        b = tm.is_ptr_base(p)
        if b:
            return [(TRUE, b[0].v, b[1])]
        if p.op == 'ite' or (p.op == 'lin' and any(a.op == 'ite' for a in p.args)):
            if p.op == 'ite':
                c = p.args[0]
                x, y = p.args[1], p.args[2]
            else:
                it = [a for a in p.args if a.op == 'ite' and (mentions_addr(a))]
                if not it:
                    return None
                it = it[0]
                c = it.args[0]
                x = tm.subst(p, {it: it.args[1]})
                y = tm.subst(p, {it: it.args[2]})
            d = self.decide(c, st)
            if d is TRUE:
                return self.ptr_cases(x, st)
            if d is FALSE:
                return self.ptr_cases(y, st)
            a = self.ptr_cases(x, st)
            b = self.ptr_cases(y, st)
            if a is None or b is None:
                return None
            return [(band(c, g), o, f) for g, o, f in a] + [(band(not_(c), g), o, f) for g, o, f in b]
        if p.op == 'const':
            return [(TRUE, 'null', p)]
        # value loaded through a known equality?
        for t in st.terms():
            if t.op == 'eq' and (t.args[0] is p or t.args[1] is p):
                o = t.args[1] if t.args[0] is p else t.args[0]
                if tm.is_ptr_base(o):
                    return self.ptr_cases(o, st)
        return None

    def access(self, p, n, st, what, write):
        cs = self.ptr_cases(p, st)
        if cs is None:
            raise EngineLimit('unresolved pointer in %s: %s' % (what, tm.show(p, 3)))
        out = []
        for g, name, off in cs:
            if g is FALSE:
                continue
            if name == 'null':
                if g is not TRUE and self.decide(g, st) is FALSE:
                    continue
                s2 = st
                if g is not TRUE:
                    s2 = st.fork()
                    s2.assume(g, True)
                self.oblige(s2, FALSE, 'memory-safety', 'null dereference: ' + what)
                continue
            o = self.obj_of(st, name)
            if o is None or not o.alive:
                s2 = st.fork()
                s2.assume(g, True)
                self.oblige(s2, FALSE, 'memory-safety', 'access to dead object %s: %s' % (name, what))
                continue
            self.bounds(o, off, n, st, g, what, write)
            out.append((g, name, off))
        if not out:
            raise EngineLimit('no valid target: ' + what)
        return out

    def bounds(self, o, off, n, st, g, what, write):
        """off .. off+n within the object (and inside the writable frame)"""
        if isinstance(n, int):
            n = C64(n)
        if self.check_bounds:
            ok = in_range(off, n, o.size)
            if ok is not True:
                goal = band(tm.ule(n, o.size), tm.ule(off, sub(o.size, n)))
                goal = goal if g is TRUE else tm.implies(g, goal)
                self.oblige(st, goal, 'memory-safety', '%s outside %s' % (what, o.name))
            else:
                self.count_trivial('memory-safety')
        if not write and o.rd is not None:
            s, l = o.rd
            if in_range(sub(off, s), n, l) is not True:
                goal = band(tm.ule(n, l), tm.ule(sub(off, s), sub(l, n)))
                self.oblige(st, goal if g is TRUE else tm.implies(g, goal), 'frame', '%s reads bytes of %s that another iteration writes' % (what, o.name))
        if write and o.wr is not True and not self.atomic:
            if o.wr is False:
                goal = FALSE
                if n.op == 'const' and n.v == 0:
                    goal = TRUE
            else:
                goal = FALSE
                for (s, l) in o.wr:
                    if in_range(sub(off, s), n, l) is True:
                        goal = TRUE
                        break
                    goal = bor(goal, band(tm.ule(n, l), tm.ule(sub(off, s), sub(l, n))))
            if goal is not TRUE:
                if g is not TRUE:
                    goal = tm.implies(g, goal)
                goal = bor(goal, eq(n, C64(0)))
                self.oblige(st, goal, 'frame', '%s writes outside its frame in %s' % (what, o.name))

    def count_trivial(self, name):
        self.triv = getattr(self, 'triv', 0) + 1

    def q(self, st):
        return lambda c: self.decide(c, st)

    def load_bytes(self, st, p, n, what='load'):
        """list of n byte terms"""
        cs = self.access(p, n, st, what, False)
        res = None
        for g, name, off in reversed(cs):
            if self.readlog is not None:
                self.readlog.append((name, off, n, g))
            bs = self.content_bytes(st, name, off, n)
            if res is None:
                res = bs
            else:
                res = [ite(g, x, y) for x, y in zip(bs, res)]
        return res

    def content_bytes(self, st, name, off, n):
        c = st.mem[name]
        q = self.q(st)
        try:
            if off.op == 'const':
                return [c.byte(C64(off.v + i), q) for i in range(n)]
            lo, hi = tm.umin(off), tm.umax(off)
            if n > 1 and hi - lo <= 1 << 16:
                r = self.tab_load(c, off, n, lo, hi, q)
                if r is not None:
                    return r
            return [c.byte(add(off, C64(i)), q) for i in range(n)]
        except mem.MuxTooBig:
            raise EngineLimit('symbolic index over too many cells in ' + name)

    def tab_load(self, c, off, n, lo, hi, q):
        """multi-byte load at symbolic offset from constant data -> one table term split in bytes"""
        base, g, idx = mem.stride_of(off)
        if idx is None:
            return None
        cnt = (hi - base) // g + 1
        if cnt > 4096 or cnt < 1:
            return None
        b = c
        while isinstance(b, mem.Flat) and not b.b and not b.r:
            b = b.p
        vals = []
        if isinstance(b, mem.Bytes):
            for j in range(cnt):
                o = base + g * j
                vals.append(int.from_bytes(b.b[o:o + n], 'little'))
        elif isinstance(b, mem.Flat) and not b.r:
            if cnt > 1024:
                return None
            for j in range(cnt):
                o = base + g * j
                v = 0
                for i in range(n):
                    x = b.byte(C64(o + i), None)
                    if x.op != 'const':
                        return None
                    v |= x.v << (8 * i)
                vals.append(v)
        else:
            return None
        t = tm.tab(tuple(vals), idx, 8 * n)
        return [ext(t, 8 * i + 7, 8 * i) for i in range(n)]

    def load(self, st, p, n, what='load'):
        bs = self.load_bytes(st, p, n, what)
        if n == 1:
            return bs[0]
        v = WHOLE.get(tuple(bs))
        return concat(*bs[::-1]) if v is None else v

    def store_bytes(self, st, p, vals, what='store'):
        n = len(vals)
        cs = self.access(p, n, st, what, True)
        for g, name, off in cs:
            if self.writelog is not None:
                self.writelog.append((name, off, n, g))
            old = st.mem[name]
            vs = vals
            if g is not TRUE:
                ob = self.content_bytes(st, name, off, n)
                vs = [ite(g, v, o) for v, o in zip(vals, ob)]
            st.mem[name] = mem.store_bytes(old, off, vs, st.own)
            if self.after_store is not None:
                self.after_store(st, name, off, vs)

    def store(self, st, p, v, what='store'):
        n = (v.w + 7) // 8
        if v.w % 8:
            v = zext(v, 8 * n)
        bs = [ext(v, 8 * i + 7, 8 * i) for i in range(n)]
        if n == 8 and v.op != 'const' and concat(*bs[::-1]) is not v:
            WHOLE[tuple(bs)] = v       # the word these bytes make up, as it was written
        self.store_bytes(st, p, bs, what)

    def load_be(self, st, p, n):
        return concat(*self.load_bytes(st, p, n)) if n > 1 else self.load_bytes(st, p, 1)[0]

    def store_be(self, st, p, v):
        n = v.w // 8
        self.store_bytes(st, p, [ext(v, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)])

    def load_ty(self, st, p, ty, what='load'):
        ty = self.mod.resolve(ty)
        if ty.k == 'int':
            n = self.mod.size(ty)
            v = self.load(st, p, n, what)
            return tm.trunc(v, ty.n) if ty.n < 8 * n else v
        if ty.k in ('ptr', 'fp'):
            return self.load(st, p, 8, what)
        if ty.k == 'struct':
            return tuple(self.load_ty(st, add(p, C64(o)), f, what) for o, f in zip(self.mod.offsets(ty), ty.fields))
        if ty.k == 'arr':
            es = self.mod.size(ty.el)
            return tuple(self.load_ty(st, add(p, C64(i * es)), ty.el, what) for i in range(ty.n))
        raise EngineLimit('load ' + ty.k)

    def store_ty(self, st, p, ty, v, what='store'):
        ty = self.mod.resolve(ty)
        if ty.k == 'struct':
            for o, f, x in zip(self.mod.offsets(ty), ty.fields, v):
                self.store_ty(st, add(p, C64(o)), f, x, what)
        elif ty.k == 'arr':
            es = self.mod.size(ty.el)
            for i in range(ty.n):
                self.store_ty(st, add(p, C64(i * es)), ty.el, v[i], what)
        else:
            self.store(st, p, v, what)

    def copy(self, st, dst, src, n, what='memcpy'):
        """memory copy with possibly symbolic length"""
        if n.op != 'const':
            n2 = simp_known(n, st)
            if n2.op == 'const':
                n = n2
        if n.op == 'const' and n.v <= 64:
            if n.v:
                self.store_bytes(st, dst, self.load_bytes(st, src, n.v, what), what)
            return
        z = eq(n, C64(0))
        sc = self.ptr_cases(src, st)
        dc = self.ptr_cases(dst, st)
        if (sc is None or dc is None):
            if self.decide(z, st) is TRUE:
                return
            raise EngineLimit('unresolved pointer in ' + what)
        if len(sc) != 1 or len(dc) != 1:
            raise EngineLimit('ambiguous pointer in ' + what)
        (_, sn, so), (_, dn, do) = sc[0], dc[0]
        if sn == 'null' or dn == 'null':
            if self.decide(z, st) is TRUE:
                return
            self.oblige(st, z, 'memory-safety', 'null pointer in ' + what)
            return
        s_o, d_o = self.obj_of(st, sn), self.obj_of(st, dn)
        if self.decide(z, st) is not FALSE:
            st2 = st.fork()
            st2.assume(not_(z), True)
        else:
            st2 = st
        self.bounds(s_o, so, n, st2, TRUE, what, False)
        self.bounds(d_o, do, n, st2, TRUE, what, True)
        if self.readlog is not None:
            self.readlog.append((sn, so, n, TRUE))
        if self.writelog is not None:
            self.writelog.append((dn, do, n, TRUE))
        snap = st.mem[sn]
        q = self.q(st.fork())
        if isinstance(snap, mem.Flat):
            snap = snap.copy(None)
        st.mem[dn] = mem.store_range(st.mem[dn], do, n, lambda rel: snap.byte(add(so, rel), q), st.own)

    def fill(self, st, dst, v, n, what='memset'):
        if n.op == 'const' and n.v <= 256:
            if n.v:
                self.store_bytes(st, dst, [v] * n.v, what)
            return
        dc = self.ptr_cases(dst, st)
        if dc is None or len(dc) != 1:
            raise EngineLimit('ambiguous pointer in ' + what)
        _, dn, do = dc[0]
        self.bounds(self.obj_of(st, dn), do, n, st, TRUE, what, True)
        if self.writelog is not None:
            self.writelog.append((dn, do, n, TRUE))
        st.mem[dn] = mem.store_range(st.mem[dn], do, n, lambda rel: v, st.own)

    # ------------------------------------------------------------ execution
    def tick(self, n=1):
        import time
        self.steps += n
        if self.deadline and (self.steps & 255) < n and time.time() > self.deadline:
            raise EngineLimit('time budget exhausted')

    def call(self, st, fname, args, depth=0):
        """run the body of a defined function; returns list of (state, ret)"""
        f = ir.load_func(self.mod.funcs[ir.find(self.mod, fname)])
        if depth > 60:
            raise EngineLimit('recursion in ' + fname)
        fr = Frame(f, depth)
        env = {}
        if len(args) < len(f.params):
            raise EngineLimit('argument count of ' + fname)
        for (ty, nm, bv), a in zip(f.params, args):
            env[nm] = a
        outs = self.region(fr, f.order[0], None, env, st, None)
        res = []
        for o in outs:
            if o.kind == 'ret':
                for nm in fr.allocas:
                    if nm in o.st.objs:
                        o.st.mem.pop(nm, None)
                        o.st.objs.pop(nm, None)
                res.append((o.st, o.ret))
        return res

    def call_merged(self, st, fname, args, depth):
        base = len(st.pc)
        res = self.call(st, fname, args, depth)
        if not res:
            return None
        cur = res[0]
        for r in res[1:]:
            cur = self.merge_states(cur[0], r[0], base, [(cur[1], r[1])])
            cur = (cur[0], cur[1][0])
        return cur

    def guard(self, st, base):
        return tm.conj([c for c, b in st.pc[base:] if b])

    def merge_states(self, a, b, base, vals):
        """merge two disjoint states sharing pc[:base]; vals: list of (x,y) values to merge"""
        ga, gb = self.guard(a, base), self.guard(b, base)
        c = ga
        if complement(ga, gb):
            pass
        s = State()
        s.pc = a.pc[:base]
        s.known = {}
        for k, v in a.known.items():
            if b.known.get(k) == v:
                s.known[k] = v
        for f, isb in a.pc[base:]:
            if not isb and b.known.get(f.id) is not True:
                s.assume(tm.implies(ga, f))
            elif not isb:
                s.pc = s.pc + ((f, False),)
        for f, isb in b.pc[base:]:
            if not isb and a.known.get(f.id) is not True:
                s.assume(tm.implies(gb, f))
        # pick the smaller guard as selector
        if tsize(gb) < tsize(ga):
            c = not_(gb)
        dis = TRUE if complement(ga, gb) else bor(ga, gb)
        if dis is not TRUE:
            # the selector must be exact on reachable states: ga and gb are disjoint
            s.assume(dis, True)
        for n in set(a.objs) | set(b.objs):
            oa, ob = a.objs.get(n), b.objs.get(n)
            if oa is None or ob is None:
                s.objs[n] = oa or ob
                s.mem[n] = a.mem[n] if oa is not None else b.mem[n]
                continue
            if oa.alive != ob.alive:
                raise EngineLimit('object %s freed on one path only' % n)
            s.objs[n] = oa
            s.mem[n] = mem.merge(c, a.mem[n], b.mem[n], s.own)
        for k in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(k), b.ghost.get(k)
            if x is y:
                s.ghost[k] = x
            elif isinstance(x, tm.T) and isinstance(y, tm.T):
                s.ghost[k] = ite(c, x, y)
            elif hasattr(x, 'merge'):
                s.ghost[k] = x.merge(c, y)
            elif hasattr(y, 'merge'):
                s.ghost[k] = y.merge(not_(c), x)
            elif x == y:
                s.ghost[k] = x
            else:
                raise EngineLimit('ghost state %s differs between paths' % k)
        out = [mergeval(c, x, y) for x, y in vals]
        return s, out

    def region(self, fr, block, prev, env, st, stop, in_loop=None):
        """execute from `block` until `stop` (exclusive) or return. Returns outcomes.
        in_loop: (header, body) when running one iteration: reaching header again gives kind 'back',
        leaving body gives kind 'exit'."""
        f = fr.f
        outs = []
        while True:
            if block == stop:
                return outs + [Outcome('stop', st, env, block, prev)]
            if in_loop is not None:
                if block == in_loop[0] and in_loop[2][0]:
                    return outs + [Outcome('back', st, env, block, prev)]
                if block not in in_loop[1]:
                    return outs + [Outcome('exit', st, env, block, prev)]
                in_loop[2][0] = True
            if block in f.loops and not (in_loop is not None and block == in_loop[0]):
                exits = self.loops.run(fr, block, prev, env, st)
                if exits is None:
                    return outs
                rets = [o for o in exits if o.kind == 'ret']
                outs += rets
                ex = [o for o in exits if o.kind == 'exit']
                if not ex:
                    return outs
                if len(ex) == 1:
                    o = ex[0]
                    st, env, block, prev = o.st, o.env, o.block, o.prev
                    continue
                return outs + self.join_many(fr, ex, stop, in_loop, f.loops[block], len(st.pc), block)
            b = f.blocks[block]
            self.tick(len(b.ins) + 1)
            if b.phis and prev is not None:
                new = []
                for p in b.phis:
                    for v, pb in p.a:
                        if pb == prev:
                            new.append((p.res, self.val(p.ty, v, env, fr)))
                            break
                    else:
                        raise EngineLimit('phi without predecessor')
                env = dict(env)
                for r, v in new:
                    env[r] = v
            elif True:
                env = dict(env)
            for ins in b.ins:
                r = self.step(fr, ins, env, st)
                if r is not None:
                    st = r
                    if st is DEAD:
                        return outs
            t = b.term
            if t.op == 'br':
                prev, block = block, t.a[0]
                continue
            if t.op == 'ret':
                rv = None
                if t.a is not None:
                    rv = self.val(t.ty, t.a, env, fr)
                return outs + [Outcome('ret', st, env, None, block, rv)]
            if t.op == 'unreachable':
                return outs
            if t.op == 'cbr':
                c = self.val(ir.Ty('int', 1), t.a[0], env, fr)
                c = self.decide(c, st)
                if c is TRUE:
                    prev, block = block, t.a[1]
                    continue
                if c is FALSE:
                    prev, block = block, t.a[2]
                    continue
                tgts = [(c, t.a[1]), (not_(c), t.a[2])]
            elif t.op == 'switch':
                v = self.val(t.ty, t.a[0], env, fr)
                tgts = []
                rest = TRUE
                done = None
                for cv, tb in t.a[2]:
                    c = self.decide(eq(v, self.constval(t.ty, cv, fr)), st)
                    if c is TRUE:
                        done = tb
                        break
                    if c is FALSE:
                        continue
                    tgts.append((band(rest, c), tb))
                    rest = band(rest, not_(c))
                if done is not None and rest is TRUE:
                    prev, block = block, done
                    continue
                tgts.append((rest, done if done is not None else t.a[1]))
                if len(tgts) == 1:
                    prev, block = block, tgts[0][1]
                    continue
            else:
                raise EngineLimit('terminator ' + t.op)
            # fork
            base = len(st.pc)
            branches = []
            for c, tb in tgts:
                s2 = st.fork()
                s2.assume(c, True)
                branches.append(Outcome('exit', s2, env, tb, block))
            return outs + self.join_many(fr, branches, stop, in_loop, None, base, block)

    def join_many(self, fr, branches, stop, in_loop, loopbody, base, block):
        """run the branch states to their common post-dominator, merge there, and go on"""
        f = fr.f
        join = f.ipd.get(block)
        if loopbody is not None:
            while join is not None and join in loopbody:
                join = f.ipd.get(join)
        if in_loop is not None and join is not None and join not in in_loop[1]:
            join = None      # joins outside the current iteration: handled by the loop driver
        if in_loop is not None and join == in_loop[0]:
            join = None
        # a join at or beyond `stop` means running to stop
        outs = []
        pend = []
        for o in branches:
            if join is not None and join != stop:
                rs = self.region(fr, o.block, o.prev, o.env, o.st, join, in_loop and (in_loop[0], in_loop[1], [True]))
            else:
                rs = self.region(fr, o.block, o.prev, o.env, o.st, stop, in_loop and (in_loop[0], in_loop[1], [True]))
            for r in rs:
                if r.kind == 'stop' and join is not None and join != stop:
                    pend.append(r)
                else:
                    outs.append(r)
            self.npaths(len(outs))
        if join is None or join == stop:
            # merge stop outcomes (and back edges) that arrive at the same place
            outs = self.merge_outs(fr, outs, base)
            return outs
        if not pend:
            return outs
        m = self.merge_at(fr, pend, join, base)
        outs2 = []
        for o in m:
            outs2 += self.region(fr, o.block, o.prev, o.env, o.st, stop, in_loop and (in_loop[0], in_loop[1], [True]))
        return self.merge_outs(fr, outs + outs2, base)

    def npaths(self, n):
        if n > self.max_paths:
            raise EngineLimit('too many paths')

    def merge_outs(self, fr, outs, base):
        groups = {}
        res = []
        for o in outs:
            if o.kind in ('stop', 'back', 'exit'):
                groups.setdefault((o.kind, o.block), []).append(o)
            else:
                res.append(o)
        for (k, b), g in groups.items():
            if len(g) == 1:
                res += g
            else:
                for m in self.merge_at(fr, g, b, base):
                    m.kind = k
                    res.append(m)
        return res

    def merge_at(self, fr, pend, join, base):
        """merge outcomes waiting in front of block `join`. Phi operands are pre-evaluated:
        the merged env carries phi results under a pseudo predecessor."""
        if len(pend) == 1:
            return pend
        f = fr.f
        b = f.blocks[join]
        cur = None
        for o in pend:
            env = dict(o.env)
            for p in b.phis:
                if o.prev == MERGED:
                    env['phi:' + p.res] = o.env['phi:' + p.res]
                    continue
                for v, pb in p.a:
                    if pb == o.prev:
                        env['phi:' + p.res] = self.val(p.ty, v, o.env, fr)
                        break
                else:
                    raise EngineLimit('phi without predecessor')
            o2 = Outcome(o.kind, o.st, env, join, MERGED)
            if cur is None:
                cur = o2
                continue
            keys = [k for k in cur.env if k in o2.env]
            s, vals = self.merge_states(cur.st, o2.st, base, [(cur.env[k], o2.env[k]) for k in keys])
            cur = Outcome(o.kind, s, dict(zip(keys, vals)), join, MERGED)
        # evaluate through a synthetic predecessor
        self.fix_phis(f, join)
        return [cur]

    def fix_phis(self, f, join):
        b = f.blocks[join]
        for p in b.phis:
            if not any(pb == MERGED for _, pb in p.a):
                p.a.append((('id', 'phi:' + p.res), MERGED))

    # ------------------------------------------------------------ instructions
    def step(self, fr, ins, env, st):
        op = ins.op
        if op in ir.BIN:
            a = self.val(ins.ty, ins.a[0], env, fr)
            b = self.val(ins.ty, ins.a[1], env, fr)
            if op[0] == 'f':
                env[ins.res] = fpop(op, a, b)
                return
            if ins.ty.k == 'vec':
                raise EngineLimit('vector arithmetic')
            env[ins.res] = BINOP[op](a, b)
            return
        if op == 'load':
            env[ins.res] = self.load_ty(st, self.val(ir.PTR, ins.a, env, fr), ins.ty, fr.f.name)
            return
        if op == 'store':
            v = self.val(ins.ty, ins.a[0], env, fr)
            self.atomic = len(ins.a) > 2 and ins.a[2]
            self.store_ty(st, self.val(ir.PTR, ins.a[1], env, fr), ins.ty, v, fr.f.name)
            self.atomic = False
            return
        if op == 'gep':
            env[ins.res] = self.gep(ins.ty, ins.a, fr, env)
            return
        if op == 'icmp':
            p, x, y = ins.a
            env[ins.res] = ICMP[p](self.val(ins.ty, x, env, fr), self.val(ins.ty, y, env, fr))
            return
        if op in ir.CAST:
            env[ins.res] = self.cast(op, ins.a[0], self.val(ins.a[0], ins.a[1], env, fr), ins.ty)
            return
        if op == 'select':
            c, x, y = ins.a
            c = self.val(ir.Ty('int', 1), c, env, fr)
            c = self.decide(c, st, c.op != 'const' and tsize(c, 60) < 60 and any(t.op == 'var' and str(t.v).startswith(('k!', 'kp!')) for t in tm.topo([c])))
            x = self.val(ins.ty, x, env, fr)
            y = self.val(ins.ty, y, env, fr)
            env[ins.res] = mergeval(c, x, y)
            return
        if op == 'alloca':
            cty, cv = ins.a
            n = self.val(cty, cv, env, fr)
            n = n if n.w == 64 else tm.zext(n, 64)
            size = tm.mulc(n, self.mod.size(ins.ty))
            nm = '%s.%s' % (fr.f.name.split('::')[-1].lstrip('@'), ins.res[1:])
            p = self.new_obj(st, nm, size, 'alloca')
            fr.allocas.append(p.v)
            env[ins.res] = p
            return
        if op == 'call':
            return self.do_call(fr, ins, env, st)
        if op == 'freeze':
            env[ins.res] = self.val(ins.ty, ins.a, env, fr)
            return
        if op == 'extractvalue':
            v = self.val(ins.ty, ins.a[0], env, fr)
            for i in ins.a[1]:
                v = v[i]
            env[ins.res] = v
            return
        if op == 'insertvalue':
            v = self.val(ins.ty, ins.a[0], env, fr)
            e = self.val(ins.a[1], ins.a[2], env, fr)
            env[ins.res] = insval(v, ins.a[3], e)
            return
        if op == 'fcmp':
            p, x, y = ins.a
            x = self.val(ins.ty, x, env, fr)
            y = self.val(ins.ty, y, env, fr)
            if x.op == 'const' and y.op == 'const':
                a, b = fpval(x), fpval(y)
                env[ins.res] = tm.boolc({'oeq': a == b, 'une': a != b, 'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b, 'one': a != b, 'ueq': a == b}[p])
            else:
                env[ins.res] = tm.uf('fcmp_' + p, 1, x, y)
            return
        if op == 'fneg':
            x = self.val(ins.ty, ins.a, env, fr)
            env[ins.res] = fpconst(-fpval(x)) if x.op == 'const' else tm.uf('fneg', 64, x)
            return
        raise EngineLimit('instruction ' + op)

    def do_call(self, fr, ins, env, st):
        callee, cargs = ins.a
        if callee[0] == '%':
            p = env.get(callee)
            p = simp_known(p, st) if p is not None else None
            if p is None or p.op != 'addr' or not str(p.v).startswith('fn:'):
                raise EngineLimit('unresolved function pointer in ' + fr.f.name)
            name = p.v[3:]
        else:
            name = self.resolve_sym(callee, fr.f)
        args = []
        tmp = []
        for aty, v, bv in cargs:
            x = self.val(aty, v, env, fr)
            if bv is not None:
                n = self.mod.size(bv)
                o = self.new_obj(st, 'byval', n, 'alloca')
                fr.allocas.append(o.v)
                self.copy(st, o, x, C64(n), 'byval')
                x = o
            args.append(x)
        if name not in self.contracts and '::' in name:
            short = '@' + name.split('::')[1]
            if short in self.contracts:
                name = short
        h = self.contracts.get(name) or self.externs.get(name)
        if h is None and name not in self.mod.funcs:
            h = EXTERN.get(name.split('.')[0] + '.*') if name.startswith('@llvm') else None
            h = h or EXTERN.get(name) or extern_prefix(name)
            if h is None:
                raise EngineLimit('call to unknown external function ' + name)
        if h is not None:
            if name in self.contracts:
                self.used_contracts.add(name)
            r = h(self, st, args)
            if r is DEAD:
                return DEAD
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], State):
                if ins.res:
                    env[ins.res] = r[1]
                return r[0]
            if ins.res:
                if r is None:
                    r = self.undef(ins.ty)
                env[ins.res] = r
            return None
        self.inlined.add(name)
        r = self.call_merged(st, name, args, fr.depth + 1)
        if r is None:
            return DEAD
        if ins.res:
            env[ins.res] = r[1] if r[1] is not None else self.undef(ins.ty)
        return r[0]


DEAD = State()
MERGED = '%merged'


def insval(v, idx, e):
    v = list(v)
    if len(idx) == 1:
        v[idx[0]] = e
    else:
        v[idx[0]] = insval(v[idx[0]], idx[1:], e)
    return tuple(v)


def mergeval(c, x, y):
    if x is y:
        return x
    if isinstance(x, tuple):
        return tuple(mergeval(c, a, b) for a, b in zip(x, y))
    if x is None or y is None:
        return x if y is None else y
    return ite(c, x, y)


def complement(a, b):
    return not_(a) is b or not_(b) is a or bor(a, b) is TRUE


_tsz = {}


def tsize(t, lim=2000):
    if t.id in _tsz:
        return _tsz[t.id]
    n = 0
    seen = set()
    st = [t]
    while st and n < lim:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        n += 1
        st.extend(x.args)
    _tsz[t.id] = n
    return n


_heavy = {}


def has_heavy(t):
    """terms z3 should not be asked about for mere branch pruning"""
    r = _heavy.get(t.id)
    if r is None:
        r = tsize(t, 400) >= 400
        _heavy[t.id] = r
    return r


def mentions_addr(t):
    return any(x.op == 'addr' for x in tm.topo([t]))


_vars = {}


def leaves(t):
    r = _vars.get(t.id)
    if r is None:
        r = frozenset(x.id for x in tm.topo([t]) if x.op == 'var' or x.op in ('sel', 'uf'))
        _vars[t.id] = r
    return r


def relevant(pcs, goal):
    """path-condition conjuncts transitively sharing leaves with the goal"""
    if len(pcs) <= 3:
        return list(pcs)
    cur = set(leaves(goal))
    rest = list(pcs)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for p in rest:
            l = leaves(p)
            if not l or l & cur:
                out.append(p)
                if not l <= cur:
                    cur |= l
                    ch = True
            else:
                nr.append(p)
        rest = nr
    # keep cheap remaining ones too (they may be contradictory)
    return out


def simp_known(t, st):
    """rewrite with known boolean literals"""
    if not st.known:
        return t
    if tsize(t, 3000) >= 3000:
        return t
    m = {}
    for x in tm.topo([t]):
        if x.w == 1 and x.op not in ('const',):
            k = st.known.get(x.id)
            if k is not None:
                m[x] = TRUE if k else FALSE
        elif x.op == 'const':
            pass
    # equalities term == const
    for c in st.terms():
        if c.op == 'eq' and c.args[0].op == 'const' and c.args[1].op in ('var', 'uf', 'sel'):
            m[c.args[1]] = c.args[0]
    if not m:
        return t
    return tm.subst(t, m)


def in_range(off, n, size):
    """True if provably off+n <= size by intervals"""
    if n.op == 'const' and off.op == 'const' and size.op == 'const':
        return off.v + n.v <= size.v or None
    e = add(off, n)
    if tm.umax(off) + tm.umax(n) < 1 << 63 and tm.umax(off) + tm.umax(n) <= tm.umin(size):
        return True
    if off.op == 'const' and off.v == 0 and n is size:
        return True
    d = sub(size, e)
    if d.op == 'const' and d.v < 1 << 40 and tm.umax(off) < 1 << 62 and tm.umax(n) < 1 << 62:
        return True
    return None


# ---------------------------------------------------------------- scalar ops
BINOP = {
    'add': add, 'sub': sub, 'mul': tm.mul, 'and': band, 'or': bor, 'xor': tm.xor,
    'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr, 'udiv': tm.udiv, 'urem': tm.urem,
    'sdiv': tm.sdiv, 'srem': tm.srem,
}
ICMP = {
    'eq': eq, 'ne': lambda a, b: not_(eq(a, b)), 'ult': ult, 'ule': tm.ule, 'ugt': tm.ugt, 'uge': tm.uge,
    'slt': tm.slt, 'sle': tm.sle, 'sgt': lambda a, b: tm.slt(b, a), 'sge': lambda a, b: not_(tm.slt(a, b)),
}


def fpconst(x):
    return const(64, int.from_bytes(struct.pack('>d', x), 'big'))


def fpval(t):
    return struct.unpack('>d', t.v.to_bytes(8, 'big'))[0]


def fpop(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = fpval(a), fpval(b)
        return fpconst({'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]())
    return tm.uf(op, 64, a, b)


# ---------------------------------------------------------------- library functions (assumed contracts)
EXTERN = {}


def ext_fn(*names):
    def d(f):
        for n in names:
            EXTERN[n] = f
        return f
    return d


@ext_fn('@llvm.memcpy.p0.p0.i64', '@memcpy', '@llvm.memmove.p0.p0.i64', '@memmove')
def _memcpy(ex, st, a):
    ex.copy(st, a[0], a[1], a[2])
    return a[0]


@ext_fn('@llvm.memset.p0.i64', '@memset')
def _memset(ex, st, a):
    ex.fill(st, a[0], tm.trunc(a[1], 8) if a[1].w > 8 else a[1], a[2])
    return a[0]


@ext_fn('@malloc')
def _malloc(ex, st, a):
    ex.assumptions.add('malloc/calloc/realloc return a fresh block (allocation failure is not explored)')
    return ex.new_obj(st, 'malloc', a[0], 'heap')


@ext_fn('@calloc')
def _calloc(ex, st, a):
    ex.assumptions.add('malloc/calloc/realloc return a fresh block (allocation failure is not explored)')
    return ex.new_obj(st, 'calloc', tm.mul(a[0], a[1]), 'heap', mem.Fn(lambda off: const(8, 0)))


@ext_fn('@realloc')
def _realloc(ex, st, a):
    p, n = a
    new = ex.new_obj(st, 'realloc', n, 'heap')
    if p.op == 'const' and p.v == 0:
        return new
    cs = ex.ptr_cases(p, st)
    if cs is None or len(cs) != 1:
        raise EngineLimit('realloc of unresolved pointer')
    _, name, off = cs[0]
    o = ex.obj_of(st, name)
    if o is None or not o.alive or o.kind != 'heap':
        ex.oblige(st, FALSE, 'memory-safety', 'realloc of a non-heap or dead block')
    ex.oblige(st, eq(off, C64(0)), 'memory-safety', 'realloc of an interior pointer')
    m = ite(ult(o.size, n), o.size, n)
    snap = st.mem[name]
    if isinstance(snap, mem.Flat):
        snap = snap.copy(None)
    q = ex.q(st.fork())
    st.mem[new.v] = mem.store_range(st.mem[new.v], C64(0), m, lambda rel: snap.byte(rel, q), st.own)
    kill(ex, st, name)
    return new


def kill(ex, st, name):
    o = st.objs[name]
    n = Obj(o.name, o.size, o.kind, o.wr)
    n.rd = o.rd
    n.alive = False
    st.objs[name] = n


@ext_fn('@free')
def _free(ex, st, a):
    p = a[0]
    cs = ex.ptr_cases(p, st)
    if cs is None:
        raise EngineLimit('free of unresolved pointer')
    for g, name, off in cs:
        if name == 'null':
            continue
        if g is not TRUE and ex.decide(g, st) is FALSE:
            continue
        o = ex.obj_of(st, name)
        if o is None or not o.alive or o.kind != 'heap':
            ex.oblige(st, not_(g), 'memory-safety', 'free of a non-heap or already freed block (%s)' % name)
        else:
            goal = eq(off, C64(0))
            ex.oblige(st, goal if g is TRUE else tm.implies(g, goal), 'memory-safety', 'free of an interior pointer')
            kill(ex, st, name)
    return None


@ext_fn('@printf', '@puts', '@putchar', '@fprintf', '@perror', '@fflush', '@clock', '@srand', '@putc', '@fputs', '@fputc')
def _noeffect(ex, st, a):
    return tm.fresh(32, 'libret')


@ext_fn('@time')
def _time(ex, st, a):
    return tm.fresh(64, 'time')


@ext_fn('@rand')
def _rand(ex, st, a):
    return tm.fresh(32, 'rand', 0, (1 << 31) - 1)


@ext_fn('@abort', '@exit', '@__assert_fail')
def _abort(ex, st, a):
    if not ex.allow_abort:
        ex.oblige(st, FALSE, 'no-abort', 'the call aborts the program')
    return DEAD


@ext_fn('@ceil', '@llvm.ceil.f64')
def _ceil(ex, st, a):
    import math
    if a[0].op == 'const':
        return fpconst(float(math.ceil(fpval(a[0]))))
    return tm.uf('ceil', 64, a[0])


@ext_fn('@floor', '@llvm.floor.f64')
def _floor(ex, st, a):
    import math
    if a[0].op == 'const':
        return fpconst(float(math.floor(fpval(a[0]))))
    return tm.uf('floor', 64, a[0])


@ext_fn('@log2', '@llvm.log2.f64')
def _log2(ex, st, a):
    import math
    if a[0].op == 'const':
        return fpconst(math.log2(fpval(a[0])))
    return tm.uf('log2', 64, a[0])


@ext_fn('@log', '@llvm.log.f64')
def _log(ex, st, a):
    import math
    if a[0].op == 'const':
        return fpconst(math.log(fpval(a[0])))
    return tm.uf('log', 64, a[0])


@ext_fn('@pow', '@llvm.pow.f64')
def _pow(ex, st, a):
    if a[0].op == 'const' and a[1].op == 'const':
        return fpconst(fpval(a[0]) ** fpval(a[1]))
    return tm.uf('pow', 64, a[0], a[1])


def extern_prefix(name):
    if name.startswith('@llvm.lifetime') or name.startswith('@llvm.dbg') or name.startswith('@llvm.stackrestore'):
        return lambda ex, st, a: None
    if name.startswith('@llvm.stacksave'):
        return lambda ex, st, a: tm.addr('stack')
    if name.startswith('@llvm.fshl.'):
        w = int(name.split('.i')[1])

        def fshl(ex, st, a):
            s = tm.urem(a[2], const(w, w))
            if s.op != 'const':
                raise EngineLimit('variable funnel shift')
            if s.v == 0:
                return a[0]
            return bor(tm.shl(a[0], s), tm.lshr(a[1], const(w, w - s.v)))
        return fshl
    if name.startswith('@llvm.abs.'):
        return lambda ex, st, a: ite(tm.slt(a[0], const(a[0].w, 0)), tm.neg(a[0]), a[0])
    if name.startswith('@llvm.bswap.'):
        return lambda ex, st, a: concat(*[ext(a[0], 8 * i + 7, 8 * i) for i in range(a[0].w // 8)])
    if name.startswith('@llvm.umin.'):
        return lambda ex, st, a: ite(ult(a[0], a[1]), a[0], a[1])
    if name.startswith('@llvm.umax.'):
        return lambda ex, st, a: ite(ult(a[0], a[1]), a[1], a[0])
    if name.startswith('@llvm.smin.'):
        return lambda ex, st, a: ite(tm.slt(a[0], a[1]), a[0], a[1])
    if name.startswith('@llvm.smax.'):
        return lambda ex, st, a: ite(tm.slt(a[0], a[1]), a[1], a[0])
    return None
