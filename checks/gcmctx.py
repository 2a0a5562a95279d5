"""layout of the GCM context, read from the LLVM types of the current tree"""
from modes import *
from specs import ghash as G


class Layout:
    """offsets of the context fields by name, from debug-free C: the header is compiled with offsetof probes"""

    def __init__(self, struct='struct gcm128_context', header='wbcrypto/modes.h', fields=('len', 'add_len', 'HL', 'HH', 'base_ectr', 'y', 'buf', 'key', 'block')):
        self.o, self.size = offsets(struct, header, fields)

    def __getitem__(self, k):
        return self.o[k]


_cache = {}


def offsets(struct, header, fields, inc=()):
    import subprocess, tempfile, re
    key = (struct, header, tuple(fields))
    if key in _cache:
        return _cache[key]
    src = '#include <stddef.h>\n#include <%s>\n' % header
    for f in fields:
        nm = re.sub(r'\W', '_', f)
        src += 'unsigned long off_%s = offsetof(%s, %s), sz_%s = sizeof(((%s*)0)->%s);\n' % (nm, struct, f, nm, struct, f)
    src += 'unsigned long sz = sizeof(%s);\n' % struct
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'o.c')
        open(p, 'w').write(src)
        I = ['-I' + ir.REPO + x for x in ('/include', '/WBMatrix/include', '/src')] + ['-I' + ir.REPO + '/src/' + x for x in sorted(os.listdir(ir.REPO + '/src'))]
        r = subprocess.run(['clang-18', '-w'] + I + ['-S', '-emit-llvm', '-O0', '-o', '-', p], capture_output=True, text=True)
        if r.returncode:
            raise sym.EngineLimit('context layout of %s: %s' % (struct, r.stderr[:300]))
    o = {}
    for f in fields:
        nm = re.sub(r'\W', '_', f)
        o[f] = int(re.search(r'@off_%s = .*global i64 (\d+)' % nm, r.stdout).group(1))
    s = int(re.search(r'@sz = .*global i64 (\d+)', r.stdout).group(1))
    _cache[key] = (o, s)
    return o, s


def T(n):
    return tm.raw_uf('TH', 128, n)


def table_content(L, rest='ctx0', T=T):
    """context bytes: HL/HH are the two halves of T(n), the other bytes are symbolic"""
    def fn(off):
        lo, hi = tm.umin(off), tm.umax(off)
        for nm, half in (('HL', 0), ('HH', 64)):
            b = L[nm]
            if lo >= b and hi < b + 128:
                rel = sub(off, C64(b))
                e, i = tm.udiv(rel, C64(8)), tm.urem(rel, C64(8))
                if i.op != 'const':
                    raise sym.EngineLimit('unaligned access to the hash table')
                t = T(ext(e, 3, 0))
                return ext(t, half + 8 * i.v + 7, half + 8 * i.v)
        if off.op == 'const' or hi < min(L['HL'], L['HH']) or lo >= max(L['HL'], L['HH']) + 128:
            return tm.sel(rest, off)
        raise sym.EngineLimit('access across fields of the GCM context')
    return mem.Fn(fn)


def ghmul(x):
    """contract function: product with the hash key whose table is in the context"""
    return tm.raw_uf('ghmul', 128, x)


def mult_contract(L, ctx):
    """gcm_mult(ctx, x, out): out = x * H.  Proved by P05 from the table contents, which must be intact."""
    def h(ex, st, a):
        ex.oblige(st, eq(a[0], ctx), 'call-precondition', 'gcm_mult gets the context')
        x = ex.load_be(st, a[1], 16)
        tables_intact(ex, st, L, ctx)
        ex.store_be(st, a[2], ghmul(x))
        return None
    return h


def tables_intact(ex, st, L, ctx):
    if ex.probing:
        return
    nm = tm.is_ptr_base(ctx)[0].v
    c = st.mem[nm]
    t = []
    for o, half in ((L['HL'], 0), (L['HH'], 64)):
        for n in range(16):
            got = ex.content_bytes(st, nm, C64(o + 8 * n), 8)
            for i in range(8):
                if got[i] is not ext(T(const(4, n)), half + 8 * i + 7, half + 8 * i):
                    t.append(eq(got[i], ext(T(const(4, n)), half + 8 * i + 7, half + 8 * i)))
    if t:
        ex.oblige(st, tm.conj(t), 'call-precondition', 'the hash tables of the context are intact')
    else:
        ex.count_trivial('call-precondition')


def inc32(y):
    return concat(ext(y, 127, 32), add(ext(y, 31, 0), const(32, 1)))


def blockP(arr, k, r=16):
    """zero-padded block k of array arr (r valid bytes)"""
    return concat(*[tm.sel(arr, add(tm.mulc(k, 16), C64(i))) if i < r else const(8, 0) for i in range(16)])


def canon_ctr(ctr):
    """rewrite a cipher argument to the counter value it provably equals"""
    def f(ex, st, x):
        y0 = ctr.y0
        hi, lo = ext(y0, 127, 32), ext(y0, 31, 0)
        cands = []
        for t in tm.topo([x]):
            if t.op == 'lin' and t.w == 32 and lo in t.args:
                cands.append(t)
        cands = cands[::-1] + [lo]
        out = []
        for t in cands:
            for u in (add(t, const(32, 1)), t):
                v = concat(hi, u)
                if v is x:
                    return x
                if v not in out:
                    out.append(v)
        for v in out[:8]:
            if ex.oblige(st, eq(x, v), 'lemma', 'cipher input is the incremented counter', soft=True, record=False):
                if not ex.probing:
                    ex.oblige(st, eq(x, v), 'call-precondition', 'cipher input is the incremented counter')
                return v
        return x
    return f


def ctr_ghosts(y0, name='ctr'):
    lo = lambda k: add(ext(y0, 31, 0), ext(k, 31, 0))
    g = loops.Closed(name, lambda k: concat(ext(y0, 127, 32), lo(k)))
    g.y0 = y0
    return g, loops.Closed(name + '32', lo)


def gcipher(key, ctr=None, name='E', failing=False, stored=lambda v: v):
    cn = canon_ctr(ctr) if ctr else None

    def h(ex, st, a):
        ex.oblige(st, eq(a[2], key), 'call-precondition', 'the block cipher gets the key of the context')
        x = ex.load_be(st, a[0], 16)
        if cn and x.op != 'var':
            x = cn(ex, st, x)
        ex.store_be(st, a[1], stored(E(x, name)))
        if failing:
            r = tm.fresh(32, 'cret', 0, 1)
            st.ghost['failed'] = bor(st.ghost.get('failed', FALSE), eq(r, C32(0)))
            return r
        return C32(1)
    return h


class Plain:
    """what differs between the GCM implementations: names, the key object, how the key stream is stored and combined"""
    N, MULT, BLK = '@WBCRYPTO_gcm_', '@gcm_mult', '@blk'
    F = ['src/modes/gcm128.c']
    bad = 0                 # result for too small an output buffer
    layout = staticmethod(lambda: Layout())

    def key(self, ex, st):
        return ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)

    def stored(self, v):
        """what the block cipher function stores for the cipher output v"""
        return v

    def base(self, v):
        """what base_ectr holds for the cipher output v"""
        return self.stored(v)

    def out(self, i, ks, b):
        """output byte i of a block from the key stream byte and the input byte"""
        return xor(ks, b)

    def tag(self, i, e, s):
        return xor(e, s)

    def hkey(self):
        return E(const(128, 0))


PLAIN = Plain()


class Gcm:
    """a GCM context in an arbitrary valid state"""

    def __init__(self, c, failing=False, ctr=True, V=PLAIN):
        self.V = V
        self.L = L = V.layout()
        self.ex = ex = c.exec()
        self.st = st = sym.State()
        st.ghost['failed'] = FALSE
        self.key = V.key(ex, st)
        self.ctx = ctx = ex.new_obj(st, 'ctx', L.size, 'arg', table_content(L))
        self.y0, self.b0, self.e0 = var(128, 'Y0'), var(128, 'B0'), var(128, 'EK0')
        self.len0, self.add0 = var(64, 'len0', 0, 1 << 60), var(64, 'alen0', 0, 1 << 60)
        ex.store_be(st, add(ctx, C64(L['y'])), self.y0)
        ex.store_be(st, add(ctx, C64(L['buf'])), self.b0)
        ex.store_be(st, add(ctx, C64(L['base_ectr'])), V.base(self.e0))
        ex.store(st, add(ctx, C64(L['len'])), self.len0)
        ex.store(st, add(ctx, C64(L['add_len'])), self.add0)
        ex.store(st, add(ctx, C64(L['key'])), self.key)
        ex.store(st, add(ctx, C64(L['block'])), fnptr(V.BLK))
        ex.contracts[V.MULT] = mult_contract(L, ctx)
        ex.contracts['@omp_set_num_threads'] = lambda ex, st, a: None
        for f in ('@omp_get_max_threads', '@omp_get_num_threads', '@omp_get_num_procs'):
            ex.contracts[f] = lambda ex, st, a: tm.fresh(32, 'threads', 1, 1 << 20)
        self.ctr, self.ctr32 = ctr_ghosts(self.y0)
        ex.contracts[V.BLK] = gcipher(self.key, self.ctr if ctr else None, failing=failing, stored=V.stored)

    def fld(self, st, f, n=16):
        p = add(self.ctx, C64(self.L[f]))
        return self.ex.load_be(st, p, 16) if n == 16 else self.ex.load(st, p, 8)

    def frame(self, st, **changed):
        """fields not mentioned keep their values; mentioned ones have the given value"""
        ex = self.ex
        keep = dict(y=self.y0, buf=self.b0, base_ectr=self.V.base(self.e0), len=self.len0, add_len=self.add0, key=self.key, block=fnptr(self.V.BLK))
        for f, v in keep.items():
            w = changed.get(f, v)
            if w is None:
                continue
            got = self.fld(st, f, 16 if f in ('y', 'buf', 'base_ectr') else 8)
            ex.oblige(st, eq(got, w), 'postcondition' if f in changed else 'frame', 'context field %s %s' % (f, 'has its specified value' if f in changed else 'is unchanged'))
        tables_intact(ex, st, self.L, self.ctx)
