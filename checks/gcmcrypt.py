"""encrypt/decrypt contract shared by the serial (P04) and the parallel (P06) functions"""
from gcmctx import *

N = '@WBCRYPTO_gcm_'


def lens(q, r):
    return add(tm.mulc(q, 16), C64(r))


def tail(g, q, r, P, mul=ghmul):
    """GHASH state after q full blocks and r further bytes"""
    v = g.at(q)
    return mul(xor(v, P(q, r))) if r else v


def crypt(fn, dec, inplace, rs, failing=False, small=False, qs=None, V=PLAIN):
    N = V.N

    def f(c):
        c.need(N + fn)
        for r, q in [(r, q) for r in rs for q in ([C64(x) for x in qs if x or r] if qs else [var(64, 'q', 0, NMAX >> 4)] if r else [var(64, 'q', 1, NMAX >> 4)] + ([] if small or failing else [C64(0)]))]:
            g = Gcm(c, failing, V=V)
            ex, st = g.ex, g.st
            n = lens(q, r)
            cap = var(64, 'outlen')
            st.assume(ult(cap, n) if small else ule(n, cap))
            if inplace:
                inp = out = ex.new_obj(st, 'buf', n, 'arg', mem.Sym('in0'), wr=not small)
            else:
                inp = ex.new_obj(st, 'in', n, 'arg', mem.Sym('in0'), wr=False)
                out = ex.new_obj(st, 'out', n, 'arg', mem.Sym('out0'), wr=not small)

            def X(k, r=16):
                """output block k"""
                s = E(inc32(g.ctr.at(k)))
                return concat(*[V.out(i, byte(s, i), tm.sel('in0', add(tm.mulc(k, 16), C64(i)))) if i < r else const(8, 0) for i in range(16)])
            P = (lambda k, r=16: blockP('in0', k, r)) if dec else X
            gh = loops.Ghost('ghash', g.b0, lambda k, v: ghmul(xor(v, P(k))))
            ex.ghosts = [g.ctr, g.ctr32, gh]
            ofn = lambda rel: pick(X(tm.udiv(rel, C64(16))), tm.urem(rel, C64(16)))
            ex.region_ghosts = [] if failing else [loops.Region('output', out, ofn)]
            for st, ret in ex.call(st, N + fn, [g.ctx, inp, n, out, cap]):
                if small:
                    ret_is(ex, st, ret, V.bad, fn + ' with too small an output buffer')
                    g.frame(st)
                    continue
                if failing:
                    ex.oblige(st, eq(eq(ret, C32(1)), not_(st.ghost['failed'])), 'postcondition', 'returns 1 exactly if no cipher call failed')
                    continue
                ret_is(ex, st, ret, 1, fn)
                yq = g.ctr.at(q)
                g.frame(st, len=add(g.len0, n), y=inc32(yq) if r else yq, buf=tail(gh, q, r, P))
                j = var(64, 'j', 0, NMAX)
                s2 = st.fork()
                s2.assume(ult(j, q))
                if ex.feasible(s2):
                    got = ex.load_be(s2, add(out, tm.mulc(j, 16)), 16)
                    ex.oblige(s2, eq(got, X(j)), 'postcondition', 'output block j is input ^ E(counter j+1)')
                for i in range(r):
                    got = ex.load(st, add(out, lens(q, i)), 1)
                    ex.oblige(st, eq(got, byte(X(q, r), i)), 'postcondition', 'byte %d of the last partial block' % i)
    return f


def u_setiv(rs, failing=False, V=PLAIN):
    N = V.N

    def f(c):
        c.need(N + 'setiv')
        for r in rs:
            native = r == '12'
            g = Gcm(c, failing, ctr=False, V=V)
            ex, st = g.ex, g.st
            if native:
                n = C64(12)
            else:
                q = var(64, 'q', 1 if r == 12 else 0, NMAX >> 4)
                n = lens(q, r)
            iv = ex.new_obj(st, 'iv', n, 'arg', mem.Sym('iv0'), wr=False)
            gh = loops.Ghost('ivhash', const(128, 0), lambda k, v: ghmul(xor(v, blockP('iv0', k))))
            ex.ghosts = [gh]
            rs_ = ex.call(st, N + 'setiv', [g.ctx, iv, n])
            if failing:
                for st, ret in rs_:
                    ex.oblige(st, eq(eq(ret, C32(1)), not_(st.ghost['failed'])), 'postcondition', 'returns 1 exactly if no cipher call failed')
                continue
            st, ret = one(rs_, 'setiv')
            ret_is(ex, st, ret, 1, 'setiv')
            if native:
                J0 = concat(*[tm.sel('iv0', C64(i)) for i in range(12)], const(32, 1))
            else:
                v = tail(gh, q, r, lambda k, m: blockP('iv0', k, m))
                J0 = ghmul(xor(v, concat(C64(0), tm.mulc(n, 8))))
            g.frame(st, len=C64(0), add_len=C64(0), y=J0, buf=const(128, 0), base_ectr=V.base(E(J0)))
    return f


def u_aad(rs, V=PLAIN):
    N = V.N

    def f(c):
        c.need(N + 'aad')
        for r in rs:
            g = Gcm(c, V=V)
            ex, st = g.ex, g.st
            q = var(64, 'q', 0, NMAX >> 4)
            n = lens(q, r)
            a = ex.new_obj(st, 'aad', n, 'arg', mem.Sym('aad0'), wr=False)
            gh = loops.Ghost('aadhash', g.b0, lambda k, v: ghmul(xor(v, blockP('aad0', k))))
            ex.ghosts = [gh]
            st, ret = one(ex.call(st, N + 'aad', [g.ctx, a, n]), 'aad')
            ret_is(ex, st, ret, 1, 'aad')
            g.frame(st, add_len=n, buf=tail(gh, q, r, lambda k, m: blockP('aad0', k, m)))
    return f


def u_finish(V=PLAIN):
    N = V.N

    def f(c):
        c.need(N + 'finish')
        for n in range(17):
            g = Gcm(c, V=V)
            ex, st = g.ex, g.st
            tag = ex.new_obj(st, 'tag', n, 'arg', mem.Sym('tag0'))
            empty = band(eq(g.len0, C64(0)), eq(g.add0, C64(0)))
            st.assume(tm.implies(empty, eq(g.b0, const(128, 0))))
            st, ret = one(ex.call(st, N + 'finish', [g.ctx, tag, C64(n)]), 'finish')
            ret_is(ex, st, ret, 1, 'finish')
            S = ghmul(xor(g.b0, concat(tm.mulc(g.add0, 8), tm.mulc(g.len0, 8))))
            st.assume(eq(ghmul(const(128, 0)), const(128, 0)))     # product with zero, see the lemma
            for i in range(n):
                got = ex.load(st, add(tag, C64(i)), 1)
                ex.oblige(st, eq(got, V.tag(i, byte(g.e0, i), byte(S, i))), 'postcondition', 'tag byte %d of %d is E(J0) ^ GHASH' % (i, n))
            g.frame(st, buf=None)
    return f


def groups(fn, dec, V=PLAIN, failing=True):
    F = V.F
    us = []
    for ip in (False, True):
        for rs in ((0, 1, 2, 3), (4, 5, 6, 7), (8, 9, 10, 11), (12, 13, 14, 15)):
            us.append(Unit('%s%s, length 16q+%s' % (fn, ' in place' if ip else '', '/'.join(map(str, rs))), crypt(fn, dec, ip, rs, V=V), F, 'any context state, data, length up to 2^36'))
    if failing:
        us.append(Unit(fn + ', failing cipher', crypt(fn, dec, False, (0, 1, 15), failing=True), F))
    us.append(Unit(fn + ', small output', crypt(fn, dec, False, range(16), small=True, V=V), F))
    return us
