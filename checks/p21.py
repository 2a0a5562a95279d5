from files import *
from modes import one, NMAX

K = ['src/utils/keystore.c']
W = ['src/wbsm4/wbsm4_exkey.c', 'src/wbsm4/wbsm4.c']
IO = ['@fopen', '@fread', '@fwrite', '@fclose']


def u_raw(c):
    """keystore: symbolic context length and contents, any outcome of every I/O call"""
    c.need('@WBCRYPTO_keystore_key_to_file', '@WBCRYPTO_keystore_file_to_key')
    n = var(64, 'ctx_len', 0, NMAX)
    for fn, store in (('@WBCRYPTO_keystore_key_to_file', True), ('@WBCRYPTO_keystore_file_to_key', False)):
        for opened in (False, True):
            for whole in (True, False):           # False: any call may come up short
                if not opened and not whole:
                    continue
                ex = c.exec()
                st = sym.State()
                ctx = ex.new_obj(st, 'ctx', n, 'arg', mem.Sym('ctx0'), wr=not store)
                path = ex.new_obj(st, 'path', 64, 'arg', mem.Sym('path0'), wr=False)
                flen = var(64, 'flen', 0, NMAX)
                fobj = ex.new_obj(st, 'file', n if store else flen, 'ghost', mem.Sym('file0'))
                g = st.ghost
                g['pos'], g['bad'], g['closed'], g['opened'] = C64(0), FALSE, FALSE, FALSE

                def fopen(ex, st, a):
                    ex.oblige(st, eq(a[0], path), 'call-precondition', 'the given path is opened')
                    m = ex.load(st, a[1], 1)
                    ex.oblige(st, eq(m, const(8, ord('w' if store else 'r'))), 'call-precondition', 'opened for the right direction')
                    if not opened:
                        return C64(0)
                    st.ghost['opened'] = TRUE
                    return ex.new_obj(st, 'FILE', 8, 'stream', mem.Sym('stream'))

                def rw(wr):
                    def h(ex, st, a):
                        if a[3].op != 'addr' or not st.objs[a[3].v].alive:
                            ex.oblige(st, FALSE, 'call-precondition', 'I/O on an open stream')
                            return C64(0)
                        sz = tm.mul(a[1], a[2])
                        pos = st.ghost['pos']
                        if wr:
                            r = a[2]
                            if not whole:
                                k = tm.fresh(1, 'short')
                                r = ite(eq(k, const(1, 1)), tm.fresh(64, 'cnt', 0, NMAX), a[2])
                                st.assume(ule(r, a[2]))
                            ex.copy(st, add(fobj, pos), a[0], sz, 'fwrite')
                        else:
                            rest = sub(flen, pos)
                            if whole:
                                st.assume(ule(sz, rest))
                                r = a[2]
                            else:
                                r = tm.fresh(64, 'cnt', 0, NMAX)
                                st.assume(ule(r, a[2]))
                                st.assume(tm.implies(ult(rest, sz), ult(r, a[2])))
                            if whole:
                                ex.copy(st, a[0], add(fobj, pos), sz, 'fread')
                            else:
                                junk = tm.fresh(64, 'junkid')
                                ex.fill(st, a[0], tm.fresh(8, 'junk'), sz, 'fread')
                        st.ghost['pos'] = add(pos, sz)
                        st.ghost['bad'] = bor(st.ghost['bad'], not_(eq(r, a[2])))
                        return r
                    return h

                def fclose(ex, st, a):
                    if a[0].op != 'addr' or not st.objs[a[0].v].alive:
                        ex.oblige(st, FALSE, 'call-precondition', 'fclose of an open stream')
                        return C32(0)
                    sym.kill(ex, st, a[0].v)
                    st.ghost['closed'] = TRUE
                    if whole or not store:
                        return C32(0)
                    r = tm.fresh(32, 'fcloseret')
                    st.ghost['bad'] = bor(st.ghost['bad'], not_(eq(r, C32(0))))
                    return r
                ex.contracts.update({'@fopen': fopen, '@fread': rw(False), '@fwrite': rw(True), '@fclose': fclose})
                for st, ret in ex.call(st, fn, [ctx, n, path]):
                    g = st.ghost
                    t = '%s (%s)' % (fn, 'open fails' if not opened else 'I/O succeeds' if whole else 'I/O may fail')
                    if not opened:
                        ret_is(ex, st, ret, 0, t)
                        continue
                    ex.oblige(st, g['closed'], 'postcondition', t + ': the stream is closed')
                    if whole:
                        ret_is(ex, st, ret, 1, t)
                        ex.oblige(st, eq(g['pos'], n), 'postcondition', t + ': the whole context is transferred')
                        i = var(64, 'i', 0, NMAX)
                        s2 = st.fork()
                        s2.assume(ult(i, n))
                        if not store:
                            s2.assume(ule(n, flen))
                        dst = fobj if store else ctx
                        ex.oblige(s2, eq(ex.load(s2, add(dst, i), 1), tm.sel('ctx0' if store else 'file0', i)), 'postcondition', t + ': byte i of the %s' % ('file is byte i of the context' if store else 'context is byte i of the file'))
                    else:
                        ex.oblige(st, eq(eq(ret, C32(1)), not_(g['bad'])), 'postcondition', t + ': returns 1 exactly if every transfer was complete')


def wbctx(ex, st, rounds, pre, L, fill=True):
    """a white-box SM4 context with `rounds` rounds; tables hold arbitrary words"""
    ctx = ex.new_obj(st, pre + 'ctx', L[1], 'heap', mem.Sym(pre + 'ctx'))
    o = L[0]
    ex.store(st, add(ctx, C64(o['rounds'])), C32(rounds))

    def ptrs(name, ps):
        a = ex.new_obj(st, name, 8 * len(ps), 'heap', mem.Sym(name))
        for i, p in enumerate(ps):
            ex.store(st, add(a, C64(8 * i)), p)
        return a
    tabs = {}

    def tab(*k):
        nm = pre + '_'.join(map(str, k))
        t = ex.new_obj(st, nm, 1024, 'heap', mem.Sym(nm))
        tabs[k] = t
        return t
    MM = ptrs(pre + 'MM', [ptrs(pre + 'MMi', [ptrs(pre + 'MMj', [tab('MM', i, j, k) for k in range(4)]) for j in range(3)]) for i in range(rounds)])
    ex.store(st, add(ctx, C64(o['MM'])), MM)
    for f in ('CC', 'DD', 'Table'):
        ex.store(st, add(ctx, C64(o[f])), ptrs(pre + f, [ptrs(pre + f + 'i', [tab(f, i, j) for j in range(4)]) for i in range(rounds)]))
    return ctx, tabs


FIELDS = ('rounds', 'encmode', 'MM', 'CC', 'DD', 'SE', 'FE', 'Table')


def layout():
    from gcmctx import offsets
    return offsets('struct wbsm4_context', 'wbcrypto/wbsm4.h', FIELDS)


def deref(ex, st, p, *idx):
    for i in idx:
        p = ex.load(st, add(p, C64(8 * i)), 8)
    return p


def same_ctx(ex, st, st0, a, b, rounds, L, what):
    """every field of context b equals that of context a"""
    o = L[0]
    for f in ('rounds', 'encmode'):
        ex.oblige(st, eq(ex.load(st, add(b, C64(o[f])), 4), ex.load(st, add(a, C64(o[f])), 4)), 'postcondition', '%s: %s' % (what, f))

    def tab(p, q, n, t):
        for i in range(0, n, 4):
            ex.oblige(st, eq(ex.load(st, add(q, C64(i)), 4), ex.load(st, add(p, C64(i)), 4)), 'postcondition', '%s: word %d of %s' % (what, i // 4, t))
    for f in ('SE', 'FE'):
        tab(add(a, C64(o[f])), add(b, C64(o[f])), 4 * 4 * 1024, f)
    for i in range(rounds):
        for f in ('CC', 'DD', 'Table'):
            for j in range(4):
                tab(deref(ex, st, ex.load(st, add(a, C64(o[f])), 8), i, j), deref(ex, st, ex.load(st, add(b, C64(o[f])), 8), i, j), 1024, '%s[%d][%d]' % (f, i, j))
        for j in range(3):
            for k in range(4):
                tab(deref(ex, st, ex.load(st, add(a, C64(o['MM'])), 8), i, j, k), deref(ex, st, ex.load(st, add(b, C64(o['MM'])), 8), i, j, k), 1024, 'MM[%d][%d][%d]' % (i, j, k))


def u_wbfile(rounds):
    def f(c):
        c.need('@WBCRYPTO_wbsm4_key2file', '@WBCRYPTO_wbsm4_file2key')
        c.mark_bounded('%d stored rounds' % rounds)
        L = layout()
        ex = c.exec()
        ex.no_summary = True
        st = sym.State()
        fs = Files(ex)
        a, _ = wbctx(ex, st, rounds, 'a', L)
        b, _ = wbctx(ex, st, rounds, 'b', L)
        path = ex.new_obj(st, 'path', 8, 'arg', mem.Sym('path0'), wr=False)
        fs.add(st, path, 1 << 20)
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_key2file', [a, path]), 'key2file')
        ret_is(ex, st, r, 1, 'key2file')
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_file2key', [b, path]), 'file2key')
        ret_is(ex, st, r, 1, 'file2key')
        fs.closed(st)
        same_ctx(ex, st, None, a, b, rounds, L, 'store to a file and load')
    return f


def u_wbfail(fn):
    def f(c):
        """one I/O call of the store, or of the load, fails: the function reports failure and does not crash"""
        c.mark_bounded('1 stored round, sampled failure points')
        L = layout()
        ex = c.exec()
        ex.no_summary = True
        st0 = sym.State()
        fs = Files(ex)
        a, _ = wbctx(ex, st0, 1, 'a', L)
        b, _ = wbctx(ex, st0, 1, 'b', L)
        path = ex.new_obj(st0, 'path', 8, 'arg', mem.Sym('path0'), wr=False)
        fs.add(st0, path, 1 << 20)
        s1 = st0.fork()
        s1, r = one(ex.call(s1, '@WBCRYPTO_wbsm4_key2file', [a, path]), 'key2file')
        ret_is(ex, s1, r, 1, 'key2file')
        n = fs.n
        if fn.endswith('file2key'):
            st0 = s1.fork()
            fs.n = 0
            s1, r = one(ex.call(s1, fn, [b, path]), 'file2key')
            ret_is(ex, s1, r, 1, 'file2key')
            n = fs.n
        for p in sorted(set([0, 1, 2, 3, 4, 5, 3 + 256 * 5, 4 + 256 * 12, 5 + 256 * 12, 6 + 256 * 12, 7 + 256 * 12, 8 + 256 * 12, n - 3, n - 2, n - 1])):
            if not 0 <= p < n:
                continue
            fs.n, fs.fail_at = 0, p
            for st, r in ex.call(st0.fork(), fn, [b if fn.endswith('file2key') else a, path]):
                ret_is(ex, st, r, 0, '%s, I/O call %d (%s) fails: it' % (fn, p, fs.log[-1] if fs.log else '?'))
                fs.closed(st)
    return f


def u_wbshort(c):
    """missing or truncated key file: the load reports failure"""
    c.mark_bounded('1 stored round, sampled truncations')
    L = layout()
    ex0 = c.exec()
    ex0.no_summary = True
    st0 = sym.State()
    fs = Files(ex0)
    a, _ = wbctx(ex0, st0, 1, 'a', L)
    path = ex0.new_obj(st0, 'path', 8, 'arg', mem.Sym('path0'), wr=False)
    f = fs.add(st0, path, 1 << 20)
    st = st0.fork()
    b, _ = wbctx(ex0, st, 1, 'b', L)
    for st, r in ex0.call(st, '@WBCRYPTO_wbsm4_file2key', [b, path]):
        ret_is(ex0, st, r, 0, 'load of a missing file')
    st0, r = one(ex0.call(st0, '@WBCRYPTO_wbsm4_key2file', [a, path]), 'key2file')
    n = fs.length(st0, f)
    for m in sorted(set([0, 1, 15, 16, 17, 19, 20, 23, 24, 25, 27, 24 + 12 * 1024, 25 + 12 * 1024, n // 2, n - 1025, n - 9, n - 4, n - 2, n - 1])):
        st = st0.fork()
        st.ghost['len:' + f.v] = m
        b, _ = wbctx(ex0, st, 1, 'b', L)
        for st, r in ex0.call(st, '@WBCRYPTO_wbsm4_file2key', [b, path]):
            ret_is(ex0, st, r, 0, 'load of a file cut to %d of %d bytes' % (m, n))
            fs.closed(st)


def u_wbbytes(rounds):
    def f(c):
        c.need('@WBCRYPTO_wbsm4_key2bytes', '@WBCRYPTO_wbsm4_bytes2key')
        c.mark_bounded('%d stored rounds' % rounds)
        L = layout()
        ex = c.exec()
        ex.no_summary = True
        st = sym.State()
        a, _ = wbctx(ex, st, rounds, 'a', L)
        b, _ = wbctx(ex, st, rounds, 'b', L)
        ks = ex.new_obj(st, 'ks', 8, 'arg', mem.Sym('ks0'))
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_key2bytes', [a, ks]), 'key2bytes')
        ret_is(ex, st, r, 1, 'key2bytes')
        p = ex.load(st, ks, 8)
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_bytes2key', [b, p]), 'bytes2key')
        ret_is(ex, st, r, 1, 'bytes2key')
        same_ctx(ex, st, None, a, b, rounds, L, 'store to bytes and load')
    return f


def u_resize(c):
    """a context initialised for another number of rounds takes the stored number (32 stored, 36 initialised and back)"""
    c.mark_bounded('0 and 1 dummy rounds')
    L = layout()
    for stored, init in ((0, 1), (1, 0)):
        ex = c.exec()
        ex.no_summary = True
        st = sym.State()
        st, a = one(ex.call(st, '@WBCRYPTO_wbsm4_context_init', [C32(1), C32(stored)]), 'init')
        ex.store(st, add(a, C64(L[0]['encmode'])), var(32, 'mode'))
        ks = ex.new_obj(st, 'ks', 8, 'arg', mem.Sym('ks0'))
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_key2bytes', [a, ks]), 'key2bytes')
        st, b = one(ex.call(st, '@WBCRYPTO_wbsm4_context_init', [C32(0), C32(init)]), 'init')
        st, r = one(ex.call(st, '@WBCRYPTO_wbsm4_bytes2key', [b, ex.load(st, ks, 8)]), 'bytes2key')
        ret_is(ex, st, r, 1, 'bytes2key')
        o = L[0]
        for f in ('rounds', 'encmode'):
            ex.oblige(st, eq(ex.load(st, add(b, C64(o[f])), 4), ex.load(st, add(a, C64(o[f])), 4)), 'postcondition', f)
        R = 32 + 4 * stored
        def tab(p, q, t):
            for i in range(0, 1024, 128):
                ex.oblige(st, eq(ex.load(st, add(q, C64(i)), 4), ex.load(st, add(p, C64(i)), 4)), 'postcondition', 'word %d of %s' % (i // 4, t))
        for i in range(R):
            for f in ('CC', 'DD', 'Table'):
                for j in range(4):
                    tab(deref(ex, st, ex.load(st, add(a, C64(o[f])), 8), i, j), deref(ex, st, ex.load(st, add(b, C64(o[f])), 8), i, j), '%s[%d][%d]' % (f, i, j))
            for j in range(12):
                tab(deref(ex, st, ex.load(st, add(a, C64(o['MM'])), 8), i, j // 4, j % 4), deref(ex, st, ex.load(st, add(b, C64(o['MM'])), 8), i, j // 4, j % 4), 'MM[%d][%d]' % (i, j))


UNITS = [
    Unit('raw store and load', u_raw, K, 'any context, any length up to 2^36, any outcome of each stdio call'),
    Unit('white-box SM4 key file, 5 rounds', u_wbfile(5), W, 'arbitrary table contents', budget=400),
    Unit('white-box SM4 key file, store failures', u_wbfail('@WBCRYPTO_wbsm4_key2file'), W, budget=400),
    Unit('white-box SM4 key file, load failures', u_wbfail('@WBCRYPTO_wbsm4_file2key'), W, budget=400),
    Unit('white-box SM4 key file, missing or short', u_wbshort, W),
    Unit('white-box SM4 key bytes, 5 rounds', u_wbbytes(5), W, 'arbitrary table contents'),
    Unit('white-box SM4, other number of rounds', u_resize, W),
]
H = Harness('p21.c', K + W + ['src/wbsm4/wbsm4_gen.c', 'src/utils/wrandom.c', 'WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c', 'src/sm4/sm4.c', 'src/utils/padding.c'], quick_s=5, wrap=['fopen', 'fread', 'fwrite', 'fclose'])
if __name__ == '__main__':
    sys.exit(main('P21', UNITS, H, assumptions=['stdio contracts in checks/files.py: fwrite appends, fread returns the next bytes or a short count, fclose of a written stream may fail']))
