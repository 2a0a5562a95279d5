from common import *
from modes import one, NMAX
import gcmctx
from gcmctx import byte
from engine import loops

FC = NMAX                                   # capacity of a modelled file


class SFiles:
    """stdio contracts; positions, lengths and the cipher's progress are memory cells, so that files of any length can be handled"""

    def __init__(self, ex, st, fail_at=None):
        self.ex, self.fail_at, self.n, self.failed = ex, fail_at, 0, None
        self.files = {}                     # path text -> (content object, length cell)
        st.ghost['exists'] = frozenset()
        for f in ('fopen', 'fread', 'fwrite', 'fclose', 'fflush', 'fseek', 'ftell', 'rewind', 'remove', 'memcmp', 'feof', 'ferror', 'fgetc', 'tmpfile'):
            ex.contracts['@' + f] = getattr(self, f)
        ex.contracts['@strlen'] = lambda ex, st, a: C64(len(self.text(st, a[0])))

    def fails(self, what):
        if self.ex.probing:
            return False
        self.n += 1
        if self.fail_at is not None and self.n - 1 == self.fail_at:
            self.failed = what
            return True
        return False

    def text(self, st, p):
        b = b''
        while True:
            t = self.ex.load(st, add(p, C64(len(b))), 1)
            if t.op != 'const':
                raise sym.EngineLimit('path with unknown bytes')
            if t.v == 0:
                return b.decode()
            b += bytes([t.v])

    def cell(self, st, name, v):
        o = self.ex.new_obj(st, name, 8, 'ghost', mem.Sym(name + '0'))
        self.ex.store(st, o, v)
        self.ex.cells.append((o, 8))
        return o

    def add(self, st, path, content=None, length=None):
        o = self.ex.new_obj(st, 'file ' + path, FC, 'ghost', content or mem.Sym('junk:' + path))
        self.files[path] = (o, self.cell(st, 'length of ' + path, length if length is not None else C64(0)))
        if length is not None:
            st.ghost['exists'] = st.ghost['exists'] | {path}

    def length(self, st, path):
        return self.ex.load(st, self.files[path][1], 8)

    def stream(self, st, p):
        if p.op != 'addr' or 'str:' + p.v not in st.ghost or not st.objs[p.v].alive:
            self.ex.oblige(st, FALSE, 'call-precondition', 'stdio call on an open stream')
            raise sym.EngineLimit('stdio call on a stream that is not open')
        return st.ghost['str:' + p.v]

    def open(self, st, path, mode):
        if path not in self.files:
            self.add(st, path)
        if mode[0] == 'r' and path not in st.ghost['exists']:
            return C64(0)
        st.ghost['exists'] = st.ghost['exists'] | {path}
        if mode[0] == 'w':
            self.ex.store(st, self.files[path][1], C64(0))
        elif mode[0] != 'r':
            raise sym.EngineLimit('fopen mode ' + mode)
        s = self.ex.new_obj(st, 'FILE', 8, 'stream', mem.Sym('stream'))
        st.ghost['str:' + s.v] = (path, self.cell(st, 'position in ' + path, C64(0)), mode)
        return s

    def fopen(self, ex, st, a):
        return C64(0) if self.fails('fopen') else self.open(st, self.text(st, a[0]), self.text(st, a[1]))

    def tmpfile(self, ex, st, a):
        return C64(0) if self.fails('tmpfile') else self.open(st, 'tmpfile!%d' % len(self.files), 'w+')

    def fclose(self, ex, st, a):
        path, pos, mode = self.stream(st, a[0])
        sym.kill(ex, st, a[0].v)
        return C32(0xffffffff) if mode[0] == 'w' and path == 'out.bin' and self.fails('fclose') else C32(0)

    def fflush(self, ex, st, a):
        return C32(0)

    def remove(self, ex, st, a):
        st.ghost['exists'] = st.ghost['exists'] - {self.text(st, a[0])}
        return C32(0)

    def fseek(self, ex, st, a):
        path, pos, mode = self.stream(st, a[0])
        if a[2].op != 'const' or a[2].v not in (0, 2) or a[1].op != 'const' and tm.umax(a[1]) > NMAX:
            raise sym.EngineLimit('fseek')
        ex.store(st, pos, add(a[1], self.length(st, path)) if a[2].v == 2 else a[1])
        return C32(0)

    def rewind(self, ex, st, a):
        ex.store(st, self.stream(st, a[0])[1], C64(0))
        return None

    def ftell(self, ex, st, a):
        return ex.load(st, self.stream(st, a[0])[1], 8)

    def feof(self, ex, st, a):
        raise sym.EngineLimit('feof')

    ferror = lambda self, ex, st, a: C32(0)
    fgetc = feof

    def item(self, ex, st, a):
        size = sym.simp_known(tm.mul(a[1], a[2]), st)
        if a[1].op != 'const' or a[1].v != 1:
            raise sym.EngineLimit('items larger than a byte')
        return size

    def fread(self, ex, st, a):
        n = self.item(ex, st, a)
        path, pos, mode = self.stream(st, a[3])
        o = self.files[path][0]
        p, l = ex.load(st, pos, 8), self.length(st, path)
        if self.fails('fread'):
            ex.store(st, pos, l)
            return C64(0)
        left = tm.sub(l, p)
        c = const(1, int(n.v <= left.v)) if n.op == left.op == 'const' and left.v <= NMAX else ule(add(p, n), l)
        d = ex.decide(c, st)
        if d.op != 'const':
            if not ex.probing:
                raise sym.EngineLimit('read that may or may not reach the end of the file: %s' % str(c)[:300])
            st.assume(c, True)
            d = TRUE
        if d is not TRUE:
            n = sym.simp_known(sub(l, p), st)
        if n.op != 'const':
            raise sym.EngineLimit('read of an unknown number of bytes')
        if n.v:
            ex.copy(st, a[0], add(o, p), n, 'fread')
        ex.store(st, pos, add(p, n))
        return n

    def fwrite(self, ex, st, a):
        n = self.item(ex, st, a)
        path, pos, mode = self.stream(st, a[3])
        if mode[0] == 'r' and '+' not in mode:
            ex.oblige(st, FALSE, 'call-precondition', 'writes go to a stream opened for writing')
        if self.fails('fwrite'):
            return tm.sub(n, C64(1))
        if n.op != 'const':
            raise sym.EngineLimit('write of an unknown number of bytes')
        o, lc = self.files[path]
        p, l = ex.load(st, pos, 8), ex.load(st, lc, 8)
        if n.v:
            ex.copy(st, add(o, p), a[0], n, 'fwrite')
        e = add(p, n)
        ex.store(st, pos, e)
        g = tm.sub(e, l)
        d = TRUE if g.op == 'const' and g.v <= NMAX else ex.decide(ule(l, e), st)
        ex.store(st, lc, e if d is TRUE else l if d is FALSE else ite(d, e, l))
        return n

    def memcmp(self, ex, st, a):
        z = TRUE
        for i in range(a[2].v):
            z = band(z, eq(ex.load(st, add(a[0], C64(i)), 1), ex.load(st, add(a[1], C64(i)), 1)))
        return ite(z, C32(0), tm.fresh(32, 'cmp', 1, 0x7fffffff))

    def closed(self, st):
        for n in st.objs:
            if 'str:' + n in st.ghost:
                self.ex.oblige(st, const(1, 0 if st.objs[n].alive else 1), 'postcondition', 'every opened stream is closed')


def conv(name, idx, blk, r):
    """the stream cipher as GCM defines it: block number, block (zero padded), number of its bytes -> output block"""
    return tm.uf(name, 128, idx, blk, const(8, r))


def blk_at(arr, off, r=16):
    return concat(*[tm.sel(arr, add(off, C64(i))) if i < r else const(8, 0) for i in range(16)])


def tail(name, q, r, i, base):
    """byte i of the r bytes after q pieces of 128"""
    b = i // 16
    nb = add(tm.mulc(q, 8), C64(b))
    m = min(16, r - 16 * b)
    return byte(conv(name, nb, blk_at('in0', add(tm.mulc(nb, 16), C64(base)), m), m), i % 16)


class Cipher:
    """contracts of encrypt, decrypt and finish of one GCM flavour (proved by P04, P09, P10)"""

    def __init__(self, ex, st, F, names, ctx):
        self.ex, self.F, self.ctx = ex, F, ctx
        self.count = F.cell(st, 'bytes processed', C64(0))
        self.fed = ex.new_obj(st, 'ciphertext seen', FC, 'ghost', mem.Sym('fed0'))
        self.tagged = None
        ex.contracts[names[0]] = self.crypt('ENC', True)
        ex.contracts[names[1]] = self.crypt('DEC', False)
        ex.contracts[names[2]] = self.finish

    def crypt(self, name, enc):
        def h(ex, st, a):
            ex.oblige(st, eq(a[0], self.ctx), 'call-precondition', 'the cipher gets its context')
            n = sym.simp_known(a[2], st)
            if n.op != 'const':
                raise sym.EngineLimit('cipher call on an unknown number of bytes')
            ex.oblige(st, ule(n, a[4]), 'call-precondition', 'the output length covers the input')
            if self.F.fails('cipher'):
                return C32(0)
            c = ex.load(st, self.count, 8)
            ex.oblige(st, eq(ext(c, 3, 0), const(4, 0)), 'call-precondition', 'only the last piece has a partial block')
            ins = [ex.load(st, add(a[1], C64(i)), 1) for i in range(n.v)]
            outs = []
            for b in range(0, n.v, 16):
                bs = ins[b:b + 16]
                blk = concat(*(bs + [const(8, 0)] * (16 - len(bs))))
                o = conv(name, tm.udiv(add(c, C64(b)), C64(16)), blk, len(bs))
                outs += [byte(o, i) for i in range(len(bs))]
            if n.v:
                ex.store_bytes(st, a[3], outs, 'cipher output')
                ex.store_bytes(st, add(self.fed, c), outs if enc else ins, 'ghost')
            ex.store(st, self.count, add(c, n))
            return C32(1)
        return h

    def finish(self, ex, st, a):
        ex.oblige(st, eq(a[0], self.ctx), 'call-precondition', 'the cipher gets its context')
        ex.oblige(st, eq(a[2], C64(16)), 'call-precondition', 'a 16 byte tag is asked for')
        c = ex.load(st, self.count, 8)
        if not ex.probing:
            self.tagged = (c, st.mem[self.fed.v])
        ex.store_be(st, a[1], tm.uf('TAG', 128, c))
        return C32(1)


FL = {'gcm': (['src/modes/gcmfile.c'], '@WBCRYPTO_gcmfile_', ['@WBCRYPTO_gcm_encrypt', '@WBCRYPTO_gcm_decrypt', '@WBCRYPTO_gcm_finish']),
      'ee': (['src/wbaes/wbaes_wbgcm_ee_file.c'], '@WBCRYPTO_wbaes_wbgcmfile_ee_', ['@WBCRYPTO_wbaes_wbgcm_ee_encrypt', '@WBCRYPTO_wbaes_wbgcm_ee_decrypt', '@WBCRYPTO_wbaes_wbgcm_ee_finish']),
      'mask': (['src/wbaes/wbaes_wbgcm_mask_file.c'], '@WBCRYPTO_wbaes_wbgcmfile_mask_', ['@WBCRYPTO_wbaes_wbgcm_mask_encrypt', '@WBCRYPTO_wbaes_wbgcm_mask_decrypt', '@WBCRYPTO_wbaes_wbgcm_mask_finish'])}


class Env:
    def __init__(self, c, fl, enc, length, fail_at=None):
        ex = self.ex = c.exec()
        st = self.st = sym.State()
        self.F = SFiles(ex, st, fail_at)
        self.fn = FL[fl][1] + ('encrypt' if enc else 'decrypt')
        c.need(self.fn)
        if fl == 'gcm':
            o, size = gcmctx.offsets('struct gcmfile_context', 'wbcrypto/modes.h', ['gcm', 'tag'])
            g = ex.new_obj(st, 'gcm', 512, 'arg', mem.Sym('gcm0'), wr=False)
            self.ctx = ex.new_obj(st, 'ctx', size, 'arg', mem.Sym('ctx0'))
            ex.store(st, add(self.ctx, C64(o['gcm'])), g)
            self.inner = g
        else:
            self.ctx = self.inner = ex.new_obj(st, 'ctx', 512, 'arg', mem.Sym('ctx0'), wr=False)
        self.F.add(st, 'in.bin', mem.Sym('in0'), length)
        self.F.add(st, 'out.bin')
        self.C = Cipher(ex, st, self.F, FL[fl][2], self.inner)
        self.args = [self.ctx, self.path(st, 'in.bin'), self.path(st, 'out.bin')]

    def path(self, st, t):
        p = self.ex.new_obj(st, 'path ' + t, len(t) + 1, 'arg', mem.Sym('path0'))
        self.ex.store_bytes(st, p, [const(8, x) for x in t.encode() + b'\0'], 'path')
        return p

    def regions(self, base, enc):
        f = lambda rel: gcmctx.pick(conv('ENC' if enc else 'DEC', tm.udiv(rel, C64(16)), blk_at('in0', add(C64(base), tm.sub(rel, tm.urem(rel, C64(16))))), 16), tm.urem(rel, C64(16)))
        rs = [loops.Region('ciphertext', self.C.fed, f if enc else (lambda rel: tm.sel('in0', add(C64(base), rel))))]
        for p in list(self.F.files):
            if p != 'in.bin':
                o = self.F.files[p][0]
                rs += [loops.Region('bytes of ' + p, o, f), loops.Region('body of ' + p, add(o, C64(24)), f)]
        self.ex.region_ghosts = rs
        return f

    def same(self, st, obj, base, q, r, want, part, what, memory=None):
        """16-byte blocks [0,q) at obj+base are want(j); then r bytes part(i)"""
        ex = self.ex
        s2 = st.fork()
        if memory is not None:
            s2.mem[obj.v] = memory
        for i in range(r):
            ex.oblige(s2, eq(ex.load(s2, add(obj, add(C64(base), add(tm.mulc(q, 16), C64(i)))), 1), part(i)), 'postcondition', what + ', byte %d of the last block' % i)
        j = var(64, 'j', 0, NMAX)
        s2.assume(ult(j, q))
        if ex.feasible(s2):
            ex.oblige(s2, eq(ex.load_be(s2, add(obj, add(C64(base), tm.mulc(j, 16))), 16), want(j)), 'postcondition', what + ', block j')


def cases(tier):
    """(number of 128 byte pieces, remaining bytes)"""
    rs = range(128) if tier == 'thorough' else (0, 1, 15, 16, 17, 100, 127)
    for r in rs:
        yield var(64, 'q', 1, NMAX >> 8), r
        yield C64(0), r


def u_encrypt(fl, third):
    def f(c):
        for q, r in cases(c.tier):
            if r % 3 != third:
                continue
            n = add(tm.mulc(q, 128), C64(r))
            e = Env(c, fl, True, n)
            ex, st = e.ex, e.st
            e.F.add(st, 'out.bin.tmp')
            e.regions(0, True)
            for st, ret in ex.call(st, e.fn, e.args):
                t = 'encryption of 128q+%d bytes' % r
                ret_is(ex, st, ret, 1, t)
                e.F.closed(st)
                qb, rb = tm.mulc(q, 8), r
                o = e.F.files['out.bin'][0]
                ex.oblige(st, eq(e.F.length(st, 'out.bin'), add(n, C64(24))), 'postcondition', t + ': the container has tag, length and ciphertext')
                ex.oblige(st, eq(ex.load_be(st, o, 16), tm.uf('TAG', 128, n)), 'postcondition', t + ': the container starts with the tag of all bytes')
                ex.oblige(st, eq(ex.load(st, add(o, C64(16)), 8), n), 'postcondition', t + ': then the length of the file')
                want = lambda j: conv('ENC', j, blk_at('in0', tm.mulc(j, 16)), 16)
                part = lambda i: tail('ENC', q, r, i, 0)
                e.same(st, o, 24, qb, rb, want, part, t + ': then the ciphertext')
                if e.C.tagged is None:
                    ex.oblige(st, FALSE, 'postcondition', t + ': the tag is computed')
                    continue
                tc, tmem = e.C.tagged
                e.same(st, e.C.fed, 0, qb, rb, want, part, t + ': the tag covers the ciphertext', tmem)
    return f


def u_decrypt(fl):
    def f(c):
        for q, r in cases(c.tier):
            n = add(tm.mulc(q, 128), C64(r))
            e = Env(c, fl, False, add(n, C64(24)))
            ex, st = e.ex, e.st
            e.regions(24, False)
            for st, ret in ex.call(st, e.fn, e.args):
                t = 'decryption of a container with 128q+%d bytes of ciphertext' % r
                e.F.closed(st)
                good = band(eq(blk_at('in0', C64(0)), tm.uf('TAG', 128, n)), eq(le_at('in0', 16), n))
                ex.oblige(st, bor(eq(ret, C32(1)), eq(ret, C32(0))), 'postcondition', t + ': returns 0 or 1')
                ex.oblige(st, eq(eq(ret, C32(1)), good), 'postcondition', t + ': succeeds exactly if length and tag match')
                s2 = st.fork()
                s2.assume(good)
                if not ex.feasible(s2):
                    continue
                st = s2
                if e.C.tagged is None:
                    ex.oblige(st, FALSE, 'postcondition', t + ': the tag is recomputed')
                    continue
                qb, rb = tm.mulc(q, 8), r
                o = e.F.files['out.bin'][0]
                ex.oblige(st, eq(e.F.length(st, 'out.bin'), n), 'postcondition', t + ': the output has as many bytes as the ciphertext')
                at = lambda j: add(tm.mulc(j, 16), C64(24))
                e.same(st, o, 0, qb, rb, lambda j: conv('DEC', j, blk_at('in0', at(j)), 16), lambda i: tail('DEC', q, r, i, 24), t + ': the output is the decrypted ciphertext')
                tc, tmem = e.C.tagged
                e.same(st, e.C.fed, 0, qb, rb, lambda j: blk_at('in0', at(j)), lambda i: tm.sel('in0', add(at(qb), C64(i))), t + ': the tag covers the ciphertext', tmem)
        # shorter than the header
        for k in range(24):
            e = Env(c, fl, False, C64(k))
            for st, ret in e.ex.call(e.st, e.fn, e.args):
                ret_is(e.ex, st, ret, 0, 'decryption of a file of %d bytes' % k)
                e.F.closed(st)
    return f


def le_at(arr, off):
    return concat(*[tm.sel(arr, C64(off + i)) for i in reversed(range(8))])


def u_io(fl):
    """any single I/O or cipher call fails"""
    def f(c):
        c.mark_bounded('one failing I/O call, file sizes 0, 1, 130, 300')
        for enc in (True, False):
            for n in (0, 1, 130, 300):
                k = 0
                while True:
                    e = Env(c, fl, enc, C64(n + (0 if enc else 24)), k)
                    for st, ret in e.ex.call(e.st, e.fn, e.args):
                        if e.F.failed is not None:
                            e.F.closed(st)
                            if e.F.failed != 'fread':
                                ret_is(e.ex, st, ret, 0, '%s of %d bytes with a failing %s' % (e.fn, n, e.F.failed))
                    if e.F.failed is None:
                        break
                    k += 1
            for what in ('in.bin',):
                e = Env(c, fl, enc, None)
                for st, ret in e.ex.call(e.st, e.fn, e.args):
                    ret_is(e.ex, st, ret, 0, e.fn + ' of a file that does not exist')
                    e.F.closed(st)
    return f


def u_wrap(c):
    """init, setiv and aad forward to GCM"""
    P = '@WBCRYPTO_gcmfile_'
    c.need(P + 'init', P + 'setiv', P + 'aad')
    o, size = gcmctx.offsets('struct gcmfile_context', 'wbcrypto/modes.h', ['gcm', 'tag'])
    for good in (True, False):
        ex = c.exec()
        st = sym.State()
        g = ex.new_obj(st, 'gcm', 512, 'arg', mem.Sym('gcm0'), wr=False)
        key, blk = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False), ex.new_obj(st, 'blk', 8, 'arg', mem.Sym('blk0'), wr=False)

        def init(ex, st, a):
            ex.oblige(st, band(eq(a[0], key), eq(a[1], blk)), 'call-precondition', 'key and cipher are passed on')
            return g if good else C64(0)
        ex.contracts['@WBCRYPTO_gcm_init'] = init
        for st, r in ex.call(st, P + 'init', [key, blk]):
            if r.op == 'const' and r.v == 0:
                continue                    # allocation failed
            if not good:
                ex.oblige(st, FALSE, 'postcondition', 'init without a GCM context returns NULL')
                continue
            ex.oblige(st, eq(ex.load(st, add(r, C64(o['gcm'])), 8), g), 'postcondition', 'init keeps the GCM context')
            for fn in ('setiv', 'aad'):
                for v in (0, 1):
                    s2 = st.fork()
                    p, ln = ex.new_obj(s2, 'bytes', 64, 'arg', mem.Sym('b0'), wr=False), var(64, 'len')
                    calls = []

                    def fwd(ex, st, a):
                        ex.oblige(st, band(eq(a[0], g), band(eq(a[1], p), eq(a[2], ln))), 'call-precondition', 'all arguments are passed on')
                        calls.append(1)
                        return C32(v)
                    ex.contracts['@WBCRYPTO_gcm_' + fn] = fwd
                    for s3, r3 in ex.call(s2, P + fn, [r, p, ln]):
                        ret_is(ex, s3, r3, v, P + fn)
                        ex.oblige(s3, const(1, 1 if len(calls) == 1 else 0), 'postcondition', P + fn + ' forwards once')


UNITS = []
for fl in FL:
    UNITS += [Unit('encrypt %s %d' % (fl, k), u_encrypt(fl, k), FL[fl][0], budget=400) for k in range(3)]
    UNITS += [Unit('decrypt ' + fl, u_decrypt(fl), FL[fl][0], budget=600), Unit('I/O ' + fl, u_io(fl), FL[fl][0], bounded=True, budget=300)]
UNITS += [Unit('wrappers', u_wrap, FL['gcm'][0])]
WB = ['src/wbaes/wbaes_local.c', 'src/wbaes/wbaes_wbgcm_ee_init.c', 'src/wbaes/wbaes_wbgcm_ee_mode.c', 'src/wbaes/wbaes_wbgcm_mask_init.c', 'src/wbaes/wbaes_wbgcm_mask_mode.c', 'src/utils/wrandom.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c']
H = Harness('p07.c', FL['gcm'][0] + FL['ee'][0] + FL['mask'][0] + ['src/modes/gcm128.c', 'src/aes/aes.c'] + WB, quick_s=6, wrap=['fopen', 'fwrite', 'fclose'])
if __name__ == '__main__':
    sys.exit(main('P07', UNITS, H))
