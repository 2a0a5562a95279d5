from ctype import *
from modes import one, fnptr
import random

APP = ['src/fpe_app/phone.c', 'src/fpe_app/idcard.c', 'src/fpe_app/cn_utf8.c']
FAM = ('sm4', 'wbsm4', 'aes', 'wbaes', 'other')
DIG = {10: lambda t: tm.trunc(add(t, C32(48)), 8)}


def isdig(b, radix):
    d = band(ule(const(8, 48), b), ule(b, const(8, 57)))
    return d if radix == 10 else bor(d, band(ule(const(8, 97), b), ule(b, const(8, 97 + radix - 11))))


class App:
    """contracts of the FPE front ends and of FF1/FF3 as keyed permutations of digit strings"""

    def __init__(self, c, fam, ffx, radix):
        self.c, self.fam, self.ffx, self.radix = c, fam, ffx, radix
        self.ex = ex = c.exec()
        self.st = st = sym.State()
        ex.contracts.update(TEXT)
        self.table = []                 # (alg, params, input symbols, output symbols)
        self.seq = 0
        for f in FAM[:4]:
            ex.contracts['@WBCRYPTO_%s_fpe_init' % f] = self.init(f)
        for alg in ('ff1', 'ff3'):
            for d in ('encrypt', 'decrypt'):
                ex.contracts['@WBCRYPTO_%s_%s' % (alg, d)] = self.block(alg, d)
        ex.contracts['@WBCRYPTO_fpe_free'] = self.free
        ex.contracts.update({'@utf8IntToCharDuodecimal': self.to12, '@utf8CharDuodecimalToInt': self.from12})
        self.key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
        self.calls = []
        s = lambda t: ex.new_obj(st, 'str', len(t) + 1, 'arg', mem.Bytes(t.encode() + b'\0'), wr=False)
        from gcmctx import offsets
        o, n = offsets('struct fpe_app_ctx', 'wbcrypto/fpe_app.h', ('cipher_ctx', 'cipher', 'ffx'))
        self.ctx = ex.new_obj(st, 'app', n, 'arg', mem.Sym('app0'))
        for f, v in (('cipher_ctx', self.key), ('cipher', s(fam)), ('ffx', s(ffx))):
            ex.store(st, add(self.ctx, C64(o[f])), v)
        self.d12 = {}
        self.d12r = {}

    def init(self, f):
        def h(ex, st, a):
            ex.oblige(st, const(1, int(f == (self.fam if self.fam != 'other' else 'aes'))), 'call-precondition', 'the selected cipher family is used (%s for %s)' % (f, self.fam))
            ex.oblige(st, eq(a[0], self.key), 'call-precondition', 'with the context\'s cipher key')
            ex.oblige(st, eq(a[3], C32(self.radix)), 'call-precondition', 'with radix %d' % self.radix)
            n = sym.simp_known(a[2], st)
            if n.op != 'const':
                raise sym.EngineLimit('tweak of unknown length')
            tw = [ex.load(st, add(a[1], C64(i)), 1) for i in range(n.v)]
            for t in tw:
                ex.oblige(st, const(1, int(not undef(t))), 'call-precondition', 'every tweak byte is determined by the input')
            p = ex.new_obj(st, 'fpe', 8, 'heap', mem.Sym('fpe'))
            st.ghost['fpe:' + p.v] = (f, tuple(tw))
            return p
        return h

    def free(self, ex, st, a):
        if a[0].op == 'const' and a[0].v == 0:
            return None
        sym._free(ex, st, a)
        return None

    def block(self, alg, d):
        def h(ex, st, a):
            want = alg == (self.ffx if self.ffx in ('ff1', 'ff3') else 'ff3')
            ex.oblige(st, const(1, int(want)), 'call-precondition', 'the selected FPE algorithm is used')
            if a[0].op != 'addr' or 'fpe:' + a[0].v not in st.ghost:
                ex.oblige(st, FALSE, 'call-precondition', 'an initialised FPE context')
                return C32(0)
            par = st.ghost['fpe:' + a[0].v]
            n = strlen(ex, st, [a[1]])
            if n.op != 'const':
                raise sym.EngineLimit('FPE input of unknown length')
            x = [ex.load(st, add(a[1], C64(i)), 1) for i in range(n.v)]
            for t in x:
                ex.oblige(st, isdig(t, self.radix), 'call-precondition', 'FPE input symbols are digits')
            self.calls.append((alg, d, par, x))
            if n.v < 2:
                return C32(0)
            y = self.apply(st, alg, d, par, x)
            ex.store_bytes(st, a[2], y + [const(8, 0)], 'FPE output')
            return C32(1)
        return h

    def apply(self, st, alg, d, par, x):
        for (al, pa, i, o) in self.table:
            if al == alg and pa == par:
                if d == 'encrypt' and i == x:
                    return list(o)
                if d == 'decrypt' and o == x:
                    return list(i)
        y = []
        for _ in x:
            self.seq += 1
            if self.radix == 10:
                y.append(DIG[10](var(32, 'o%d' % self.seq, 0, 9)))
            else:
                y.append(var(8, 'o%d' % self.seq, 48, 98))
                st.assume(isdig(y[-1], 12))
        self.table.append((alg, par, x, y) if d == 'encrypt' else (alg, par, y, x))
        return y

    # base-12 conversions: contracts proved by check P19
    def to12(self, ex, st, a):
        ex.oblige(st, ule(a[0], C32(20735)), 'call-precondition', 'index in range')
        k = a[0]
        if k not in self.d12:
            ds = []
            for i in range(4):
                self.seq += 1
                ds.append(var(8, 'g%d' % self.seq, 48, 98))
                st.assume(isdig(ds[-1], 12))
            self.d12[k] = ds
            self.d12r[tuple(ds)] = k
        ex.store_bytes(st, a[1], self.d12[k] + [const(8, 48)])
        return None

    def from12(self, ex, st, a):
        ds = [ex.load(st, add(a[0], C64(i)), 1) for i in range(4)]
        for t in ds:
            ex.oblige(st, isdig(t, 12), 'call-precondition', 'four base-12 digits')
        k = tuple(ds)
        if k not in self.d12r:
            self.seq += 1
            v = sub(zext(var(16, 'n%d' % self.seq, 0x4e00, 0x4e00 + 20735), 32), C32(0x4e00))
            self.d12r[k] = v
            self.d12[v] = ds
        return self.d12r[k]


def undef(t):
    for x in tm.topo([t]):
        if x.op == 'sel' and str(x.v).startswith('undef'):
            return True
    return False


def masks(n, rnd, k):
    """True: encrypted position"""
    out = [None, [True] * n]
    out += [[i >= n // 2 for i in range(n)], [i % 2 == 0 for i in range(n)], [i in (0, n - 1) for i in range(n)], [3 <= i < 7 for i in range(n)]]
    for _ in range(k):
        m = [rnd.random() < .6 for _ in range(n)]
        out.append(m)
    return [m for m in out if m is None or sum(m) >= 2]


def u_digits(kind, n, fams, ffxs, k, tails=(False,), every=None):
    def f(c):
        c.need('@WBCRYPTO_fpe_encrypt_%s_with_sample' % kind, '@WBCRYPTO_fpe_decrypt_%s_with_sample' % kind, '@WBCRYPTO_fpe_encrypt_' + kind, '@WBCRYPTO_fpe_decrypt_' + kind)
        c.mark_bounded('%d symbols, %s sample masks; all digits and all preserved sample characters' % (n, 'sampled' if every is None else 'all'))
        rnd = random.Random(n)
        for fam in fams:
            for ffx in ffxs:
                for m in masks(n, rnd, k) if every is None else [[bool(b >> i & 1) for i in range(n)] for b in every if bin(b).count('1') > 1]:
                    for tail in tails:
                        if tail and m is not None and sum(m[:-1]) < 2:
                            continue
                        A = App(c, fam, ffx, 10)
                        ex, st = A.ex, A.st
                        x = [DIG[10](var(32, 'x%d' % i, 0, 9)) for i in range(n)]
                        if tail:
                            x[-1] = const(8, ord('X'))
                        inp = ex.new_obj(st, 'in', n + 1, 'arg', mem.BV(concat(*x, const(8, 0))), wr=False)
                        if m is None:
                            smp = ex.new_obj(st, 'sample', 1, 'arg', mem.Bytes(b'\0'), wr=False)
                        else:
                            smp = ex.new_obj(st, 'sample', n + 1, 'arg', mem.BV(concat(*[const(8, 42) if e else var(8, 's%d' % i, 43, 255) for i, e in enumerate(m)], const(8, 0))), wr=False)
                        out = ex.new_obj(st, 'out', n + 1, 'arg', mem.Fn(lambda o: const(8, 0)))
                        back = ex.new_obj(st, 'back', n + 1, 'arg', mem.Fn(lambda o: const(8, 0)))
                        t = '%s %s/%s sample %s' % (kind, fam, ffx, '-' if m is None else ''.join('*' if e else 'k' for e in m))
                        for d, a, b in (('encrypt', inp, out), ('decrypt', out, back)):
                            fn = '@WBCRYPTO_fpe_%s_%s' % (d, kind)
                            st, r = one(ex.call(st, fn + ('' if m is None else '_with_sample'), [A.ctx, a, b] + ([] if m is None else [smp])), fn)
                            ret_is(ex, st, r, 1, t)
                        ex.oblige(st, const(1, int([q[1] for q in A.calls] == ['encrypt', 'decrypt'])), 'postcondition', t + ': one FPE call per direction')
                        keep = [] if m is None else [i for i in range(n) if not m[i]]
                        if tail:
                            keep = sorted(set(keep) | {n - 1})
                        for i in range(n):
                            y = ex.load(st, add(out, C64(i)), 1)
                            if i in keep:
                                ex.oblige(st, eq(y, x[i]), 'postcondition', '%s: position %d preserved' % (t, i))
                            else:
                                ex.oblige(st, isdig(y, 10), 'postcondition', '%s: position %d is a digit' % (t, i))
                                ex.oblige(st, const(1, int(y in [z for q in A.table for z in q[3]])), 'postcondition', '%s: position %d comes from the FPE output' % (t, i))
                            ex.oblige(st, eq(ex.load(st, add(back, C64(i)), 1), x[i]), 'postcondition', '%s: decryption restores position %d' % (t, i))
                        ex.oblige(st, eq(ex.load(st, add(out, C64(n)), 1), const(8, 0)), 'postcondition', t + ': length kept')
                        live(ex, st)
    return f


def live(ex, st):
    for nm, o in st.objs.items():
        if o.kind == 'heap' and o.alive:
            ex.oblige(st, FALSE, 'postcondition', 'the FPE context is released', soft=True, record=False)


def u_cn(n, fams, ffxs):
    def f(c):
        c.need('@WBCRYPTO_fpe_encrypt_cn_utf8_with_sample', '@WBCRYPTO_fpe_decrypt_cn_utf8_with_sample')
        c.mark_bounded('%d characters; every sample mask; all characters' % n)
        for fam in fams:
            for ffx in ffxs:
                for bits in [None] + list(range(1, 1 << n)):
                    m = None if bits is None else [bool(bits >> i & 1) for i in range(n)]
                    A = App(c, fam, ffx, 12)
                    ex, st = A.ex, A.st
                    x = []
                    for i in range(n):
                        v = var(16, 'x%d' % i, 0x4e00, 0x4e00 + 20735)
                        x += [concat(const(4, 14), ext(v, 15, 12)), concat(const(2, 2), ext(v, 11, 6)), concat(const(2, 2), ext(v, 5, 0))]
                    inp = ex.new_obj(st, 'in', 3 * n + 1, 'arg', mem.BV(concat(*x, const(8, 0))), wr=False)
                    if m is None:
                        smp = ex.new_obj(st, 'sample', 1, 'arg', mem.Bytes(b'\0'), wr=False)
                    else:
                        sb = []
                        for i, e in enumerate(m):
                            sb += [const(8, 42)] if e else [var(8, 's%d_%d' % (i, k), 128, 255) for k in range(3)]
                        smp = ex.new_obj(st, 'sample', len(sb) + 1, 'arg', mem.BV(concat(*sb, const(8, 0))), wr=False)
                    out = ex.new_obj(st, 'out', 3 * n + 1, 'arg', mem.Fn(lambda o: const(8, 0)))
                    back = ex.new_obj(st, 'back', 3 * n + 1, 'arg', mem.Fn(lambda o: const(8, 0)))
                    t = 'Chinese text %s/%s sample %s' % (fam, ffx, '-' if m is None else ''.join('*' if e else 'k' for e in m))
                    for d, a, b in (('encrypt', inp, out), ('decrypt', out, back)):
                        fn = '@WBCRYPTO_fpe_%s_cn_utf8' % d
                        st, r = one(ex.call(st, fn + ('' if m is None else '_with_sample'), [A.ctx, a, b] + ([] if m is None else [smp])), fn)
                        ret_is(ex, st, r, 1, t)
                    for i in range(n):
                        for k in range(3):
                            y = ex.load(st, add(out, C64(3 * i + k)), 1)
                            if m is not None and not m[i]:
                                ex.oblige(st, eq(y, x[3 * i + k]), 'postcondition', '%s: byte %d of character %d preserved' % (t, k, i))
                            ex.oblige(st, eq(ex.load(st, add(back, C64(3 * i + k)), 1), x[3 * i + k]), 'postcondition', '%s: decryption restores byte %d of character %d' % (t, k, i))
                        if m is None or m[i]:
                            y = [ex.load(st, add(out, C64(3 * i + k)), 1) for k in range(3)]
                            cp = concat(const(16, 0), ext(y[0], 3, 0), ext(y[1], 5, 0), ext(y[2], 5, 0))
                            ex.oblige(st, band(band(eq(ext(y[0], 7, 4), const(4, 14)), eq(ext(y[1], 7, 6), const(2, 2))), eq(ext(y[2], 7, 6), const(2, 2))), 'postcondition', '%s: character %d is a three-byte character' % (t, i))
                            ex.oblige(st, band(ule(C32(0x4e00), cp), ule(cp, C32(0x4e00 + 20735))), 'postcondition', '%s: character %d is in the range' % (t, i))
                    ex.oblige(st, eq(ex.load(st, add(out, C64(3 * n)), 1), const(8, 0)), 'postcondition', t + ': length kept')
                    live(ex, st)
    return f


def u_cnbad(c):
    """a character outside the range is reported"""
    A = App(c, 'aes', 'ff1', 12)
    for n, pos in ((1, 0), (2, 1), (3, 1)):
        A = App(c, 'aes', 'ff1', 12)
        ex, st = A.ex, A.st
        x = []
        for i in range(n):
            v = var(32, 'x%d' % i, 0, 0xffff)
            if i == pos:
                st.assume(bor(ult(v, C32(0x4e00)), ult(C32(0x4e00 + 20735), v)))
            else:
                st.assume(band(ule(C32(0x4e00), v), ule(v, C32(0x4e00 + 20735))))
            x += [concat(const(4, 14), ext(v, 15, 12)), concat(const(2, 2), ext(v, 11, 6)), concat(const(2, 2), ext(v, 5, 0))]
        inp = ex.new_obj(st, 'in', 3 * n + 1, 'arg', mem.BV(concat(*x, const(8, 0))), wr=False)
        out = ex.new_obj(st, 'out', 3 * n + 1, 'arg', mem.Fn(lambda o: const(8, 0)))
        for st, r in ex.call(st, '@WBCRYPTO_fpe_encrypt_cn_utf8', [A.ctx, inp, out]):
            ret_is(ex, st, r, 0, 'Chinese text with an unsupported character')


def u_init(c):
    """application context: the first 16 key bytes (zero-extended) go to the chosen family"""
    c.need('@WBCRYPTO_fpe_app_init')
    import re
    h = open(os.path.join(ir.REPO, 'include/wbcrypto/conf.h')).read()
    encm = int(re.search(r'WBCRYPTO_ENCRYPT_MODE\s+(\d+)', h).group(1))
    from gcmctx import offsets
    o, size = offsets('struct fpe_app_ctx', 'wbcrypto/fpe_app.h', ('cipher_ctx', 'cipher', 'ffx'))
    for fam in FAM:
        for n in list(range(17)) + [None]:
            ex = c.exec()
            ex.contracts.update(TEXT)
            st = sym.State()
            kl = var(64, 'keylen', 17, 1 << 62) if n is None else C64(n)
            key = ex.new_obj(st, 'key', kl, 'arg', mem.Sym('kb'), wr=False)
            K = [tm.sel('kb', C64(i)) if n is None or i < n else const(8, 0) for i in range(16)]
            want = 'aes' if fam == 'other' else fam

            def ctxinit(f):
                def h(ex, st, a):
                    if f == 'wbsm4':
                        ex.oblige(st, eq(a[0], C32(encm)), 'call-precondition', 'white-box SM4 tables for encryption')
                    p = ex.new_obj(st, 'cipherctx', 8, 'heap', mem.Sym('cc'))
                    st.ghost['cc:' + p.v] = (f, False)
                    return p
                return h

            def keyinit(f):
                def h(ex, st, a):
                    if a[0].op != 'addr' or 'cc:' + a[0].v not in st.ghost or st.ghost['cc:' + a[0].v][0] != f:
                        ex.oblige(st, FALSE, 'call-precondition', 'key set-up of a context of the same family')
                        return C32(1)
                    ex.oblige(st, eq(a[2], C64(16)), 'call-precondition', 'sixteen key bytes')
                    for i in range(16):
                        ex.oblige(st, eq(ex.load(st, add(a[1], C64(i)), 1), K[i]), 'call-precondition', 'key byte %d' % i)
                    st.ghost['cc:' + a[0].v] = (f, True)
                    return C32(1)
                return h
            for f in FAM[:4]:
                ex.contracts['@WBCRYPTO_%s_context_init' % f] = ctxinit(f)
                ex.contracts['@WBCRYPTO_%s_%s' % (f, 'gen_table' if f[:2] == 'wb' else 'init_key')] = keyinit(f)
            s = lambda t: ex.new_obj(st, 'str', len(t) + 1, 'arg', mem.Bytes(t.encode() + b'\0'), wr=False)
            cn, fx = s(fam), s('ff1')
            ctx = ex.new_obj(st, 'app', size, 'arg', mem.Sym('app0'))
            for st, r in ex.call(st, '@WBCRYPTO_fpe_app_init', [ctx, key, kl, cn, fx]):
                ret_is(ex, st, r, 1, 'fpe_app_init')
                p = ex.load(st, add(ctx, C64(o['cipher_ctx'])), 8)
                ok = p.op == 'addr' and st.ghost.get('cc:' + p.v) == (want, True)
                ex.oblige(st, const(1, int(ok)), 'postcondition', 'the context holds a keyed %s cipher' % want)
                ex.oblige(st, eq(ex.load(st, add(ctx, C64(o['ffx'])), 8), fx), 'postcondition', 'the FPE algorithm is recorded')
                ex.oblige(st, eq(ex.load(st, add(ctx, C64(o['cipher'])), 8), cn), 'postcondition', 'the cipher is recorded')


UNITS = [
    Unit('application context', u_init, ['src/fpe_app/init.c'], 'all keys, key lengths 0..16 and above, every cipher selection'),
    Unit('phone, 11 digits', u_digits('phone', 11, ('aes', 'sm4'), ('ff1', 'ff3'), 12), APP),
] + [Unit('phone, 11 digits, all samples, part %d' % (i + 1), u_digits('phone', 11, ('aes',), ('ff1',), 0, every=range(512 * i, 512 * (i + 1))), APP) for i in range(4)] + [
    Unit('phone, every cipher and algorithm', u_digits('phone', 6, FAM, ('ff1', 'ff3', 'zz'), 1), APP),
    Unit('ID card, 18 symbols', u_digits('idcard', 18, ('aes', 'wbsm4'), ('ff1', 'ff3'), 6, (False, True)), APP),
    Unit('ID card, every cipher and algorithm', u_digits('idcard', 6, FAM, ('ff1', 'ff3', 'zz'), 1, (False, True)), APP),
    Unit('Chinese text, 1 character', u_cn(1, FAM, ('ff1', 'ff3', 'zz')), APP + ['src/fpe_app/utf8_util.c']),
    Unit('Chinese text, 2 characters', u_cn(2, ('wbaes', 'sm4'), ('ff1', 'ff3')), APP + ['src/fpe_app/utf8_util.c']),
    Unit('Chinese text, 4 characters', u_cn(4, ('aes',), ('ff1', 'ff3')), APP + ['src/fpe_app/utf8_util.c']),
    Unit('Chinese text, unsupported characters', u_cnbad, APP + ['src/fpe_app/utf8_util.c']),
]
SRC = APP + ['src/fpe_app/init.c', 'src/fpe_app/utf8_util.c'] + ['src/fpe/' + x for x in ('ff1.c', 'ff3.c', 'fpe_locl.c', 'init.c', 'ff1_cmac.c', 'ff3_gmac.c')] + \
    ['src/aes/aes.c', 'src/aes/aes_modes.c', 'src/sm4/sm4.c', 'src/sm4/sm4_modes.c', 'src/wbaes/wbaes.c', 'src/wbaes/wbaes_local.c', 'src/wbaes/wbaes_modes.c',
     'src/wbsm4/wbsm4.c', 'src/wbsm4/wbsm4_gen.c', 'src/wbsm4/wbsm4_modes.c', 'src/utils/wrandom.c', 'src/utils/padding.c', 'src/modes/cbc128.c', 'src/modes/gcm128.c', 'src/modes/gcmfile.c',
     'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c']
H = Harness('p18.c', SRC, quick_s=5)
if __name__ == '__main__':
    sys.exit(main('P18', UNITS, H, assumptions=['FF1/FF3 are length-preserving permutations of digit strings for each key and tweak (checks P15, P16)', 'base-12 conversions: contracts proved by check P19', 'cipher families\' FPE front ends: check P22']))
