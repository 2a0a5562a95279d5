from modes import *
from specs import sm3 as S

F = ['src/sm3/sm3.c']
BLK, UPD, FIN, ONE, INI = '@sm3_block_data_order', '@WBCRYPTO_sm3_update', '@WBCRYPTO_sm3_final', '@WBCRYPTO_sm3', '@WBCRYPTO_sm3_init'
CTX = 108   # 8 state words, Nl, Nh, 64 data bytes, num


def words(h):
    """state words from the 32 memory bytes (little-endian words)"""
    return [le(ext(h, 255 - 32 * i, 224 - 32 * i)) for i in range(8)]


def cf_mem(h, block):
    """compression on the memory image of the state; block 512-bit big-endian byte order"""
    B = [ext(block, 511 - 32 * i, 480 - 32 * i) for i in range(16)]
    return concat(*[le(w) for w in S.cf(words(h), B)])


class Chain(loops.Ghost):
    """chaining value; the uninterpreted term of index k is kept as eight words"""

    def at(self, k):
        if k.op == 'const' and k.v == 0:
            return self.base
        return concat(*[le(tm.raw_uf('G:sm3.%d' % i, 32, k)) for i in range(8)])


def mword(j):
    return tm.raw_uf('msgword', 32, j)


def mbyte(rel):
    """message bytes, named by big-endian words (any byte sequence of whole blocks has this form)"""
    w = mword(tm.udiv(rel, C64(4)))
    r = tm.urem(rel, C64(4))
    if r.op == 'const':
        return byte(w, r.v)
    t = byte(w, 3)
    for i in range(3):
        t = ite(eq(r, C64(i)), byte(w, i), t)
    return t


def u_block(c):
    S.selftest()
    c.need(BLK)
    tm.WORDS = True
    try:
        for n in (C64(0), var(64, 'num', 1, NMAX >> 6)):
            ex = c.exec()
            st = sym.State()
            V = [var(32, 'V%d' % i) for i in range(8)]
            rest = var(8 * (CTX - 32), 'rest')
            h0 = concat(*[le(v) for v in V])
            ctx = ex.new_obj(st, 'ctx', CTX, 'arg', mem.BV(concat(h0, rest)))
            d = ex.new_obj(st, 'd', tm.mulc(n, 64), 'arg', mem.Fn(mbyte), wr=False)
            g = Chain('sm3', h0, lambda k, v: cf_mem(v, concat(*[mword(add(tm.mulc(k, 16), C64(i))) for i in range(16)])))
            ex.ghosts = [g]
            st, r = one(ex.call(st, BLK, [ctx, d, n]), BLK)
            ex.oblige(st, eq(ex.load_be(st, ctx, 32), g.at(n)), 'postcondition', 'state after num blocks is the num-fold SM3 compression')
            ex.oblige(st, eq(ex.load_be(st, add(ctx, C64(32)), CTX - 32), rest), 'postcondition', 'bytes 32.. of the context are untouched')
    finally:
        tm.WORDS = False


# --- update, final, one-shot over the contract of the block function ---------------------------
IVMEM = concat(*[le(const(32, x)) for x in S.IV])


def G(k):
    """chaining value after k blocks of the message 'msg' (defined by G(0)=IV, G(k+1)=CF(G(k), block k))"""
    if k.op == 'const' and k.v == 0:
        return IVMEM
    return tm.raw_uf('sm3chain', 256, k)


def mblock(k):
    return concat(*[tm.sel('msg', add(tm.mulc(k, 64), C64(i))) for i in range(64)])


def CF(h, b):
    return tm.raw_uf('CF', 256, h, b)


def blk(ex, st, a):
    """contract of sm3_block_data_order, proved by the unit "block function" """
    ctx, p, n = a
    h = ex.load_be(st, ctx, 32)
    k0 = None
    if h is IVMEM:
        k0 = C64(0)
    elif h.op == 'uf' and h.v == 'sm3chain':
        k0 = h.args[0]
    if n.op == 'const' and n.v == 1:
        b = ex.load_be(st, p, 64)
        if k0 is not None and ex.oblige(st, eq(b, mblock(k0)), 'match', 'the block is the next message block', soft=True, record=False):
            ex.store_be(st, ctx, G(add(k0, C64(1))))
        else:
            ex.store_be(st, ctx, CF(h, b))
        return None
    if k0 is None:
        raise sym.EngineLimit('block function called on an unknown chaining value')
    j = tm.fresh(64, 'jb', 0, NMAX)
    s2 = st.fork()
    s2.assume(ult(j, tm.mulc(n, 64)))
    ex.oblige(s2, eq(ex.load(s2, add(p, j), 1), tm.sel('msg', add(tm.mulc(k0, 64), j))), 'call-precondition', 'the blocks handed over are the next message blocks')
    ex.store_be(st, ctx, G(add(k0, n)))
    return None


def setup(c, Q, num, ln):
    ex = c.exec({BLK: blk})
    st = sym.State()
    base = add(tm.mulc(Q, 64), C64(num))
    data = ex.new_obj(st, 'data', ln, 'arg', mem.Fn(lambda rel: tm.sel('msg', add(base, rel))), wr=False)
    return ex, st, data


def ctx_obj(ex, st, Q, num):
    N = var(64, 'N')
    B = [tm.sel('msg', add(tm.mulc(Q, 64), C64(i))) for i in range(num)]
    parts = [G(Q), le(ext(N, 31, 0)), le(ext(N, 63, 32))] + B + ([var(8 * (64 - num), 'old')] if num < 64 else []) + [le(C32(num))]
    return ex.new_obj(st, 'ctx', CTX, 'arg', mem.BV(concat(*parts))), N


def lens(num):
    """(case, length, whole blocks completed, bytes buffered afterwards)"""
    yield C64(0), C64(0), C64(num)
    if num < 63:
        l = var(64, 'len', 1, 63 - num)
        yield l, C64(0), add(C64(num), l)
    for q in (C64(0), var(64, 'q', 1, NMAX >> 6)):
        for r in (C64(0), var(64, 'r', 1, 63)):
            yield add(add(C64(64 - num), tm.mulc(q, 64)), r), add(q, C64(1)), r


def u_update(nums):
    def f(c):
        c.need(UPD, BLK)
        for num in nums:
            for ln, dq, r in lens(num):
                Q = var(64, 'Q', 0, NMAX >> 6)
                ex, st, data = setup(c, Q, num, ln)
                ex.ghosts = [loops.Closed('c0', lambda k: G(add(Q, k))), loops.Closed('c1', lambda k: G(add(add(Q, k), C64(1))))]
                ctx, N = ctx_obj(ex, st, Q, num)
                for st, ret in ex.call(st, UPD, [ctx, data, ln]):
                    w = 'num=%d, %s' % (num, 'empty piece' if ln.op == 'const' else 'piece within the buffer' if dq.op == 'const' else 'piece completing blocks')
                    ret_is(ex, st, ret, 1, UPD)
                    ex.oblige(st, eq(ex.load_be(st, ctx, 32), G(add(Q, dq))), 'postcondition', w + ': chaining value covers all whole blocks')
                    N2 = concat(ex.load(st, add(ctx, C64(36)), 4), ex.load(st, add(ctx, C64(32)), 4))
                    ex.oblige(st, eq(N2, add(N, tm.mulc(ln, 8))), 'postcondition', w + ': 64-bit bit count is advanced by 8*len')
                    ex.oblige(st, eq(ex.load(st, add(ctx, C64(104)), 4), ext(r, 31, 0)), 'postcondition', w + ': buffered count')
                    j = var(64, 'j', 0, 63)
                    s2 = st.fork()
                    s2.assume(ult(j, r))
                    if r.op != 'const' or r.v:
                        ex.oblige(s2, eq(ex.load(s2, add(add(ctx, C64(40)), j), 1), tm.sel('msg', add(tm.mulc(add(Q, dq), 64), j))), 'postcondition', w + ': the buffer holds the message tail')
    return f


def padded(h, tail, N):
    """digest (memory bytes) from the chaining value, the tail bytes and the bit count"""
    z = [const(8, 0)]
    p = tail + [const(8, 0x80)]
    if len(p) > 56:
        h = CF(h, concat(*(p + z * (64 - len(p)))))
        p = []
    p = p + z * (56 - len(p))
    h = CF(h, concat(*(p + [N])))
    return concat(*[le(ext(h, 255 - 32 * i, 224 - 32 * i)) for i in range(8)])


def u_final(nums):
    def f(c):
        c.need(FIN, BLK)
        for num in nums:
            Q = var(64, 'Q', 0, NMAX >> 6)
            ex, st, _ = setup(c, Q, num, C64(0))
            ctx, N = ctx_obj(ex, st, Q, num)
            md = ex.new_obj(st, 'md', 32, 'arg', mem.Sym('md0'))
            st, ret = one(ex.call(st, FIN, [ctx, md]), FIN)
            ret_is(ex, st, ret, 1, FIN)
            tail = [tm.sel('msg', add(tm.mulc(Q, 64), C64(i))) for i in range(num)]
            ex.oblige(st, eq(ex.load_be(st, md, 32), padded(G(Q), tail, N)), 'postcondition', 'num=%d: digest of the padded tail with the 64-bit length' % num)
    return f


def u_init(c):
    c.need(INI)
    ex = c.exec()
    st = sym.State()
    ctx = ex.new_obj(st, 'ctx', CTX, 'arg', mem.Sym('ctx0'))
    st, ret = one(ex.call(st, INI, [ctx]), INI)
    ret_is(ex, st, ret, 1, INI)
    ex.oblige(st, eq(ex.load_be(st, ctx, 32), IVMEM), 'postcondition', 'initial chaining value')
    for o, w in ((32, 'low bit count'), (36, 'high bit count'), (104, 'buffered count')):
        ex.oblige(st, eq(ex.load(st, add(ctx, C64(o)), 4), C32(0)), 'postcondition', w + ' is 0')


def u_oneshot(rs):
    def f(c):
        c.need(ONE, UPD, FIN, INI, BLK)
        for r in rs:
            for q in (C64(0), var(64, 'q', 1, NMAX >> 6)):
                ln = add(tm.mulc(q, 64), C64(r))
                ex, st, data = setup(c, C64(0), 0, ln)
                ex.ghosts = [loops.Closed('c0', lambda k: G(k))]
                md = ex.new_obj(st, 'md', 32, 'arg', mem.Sym('md0'))
                st, ret = one(ex.call(st, ONE, [data, ln, md]), ONE)
                ret_is(ex, st, ret, 1, ONE)
                tail = [tm.sel('msg', add(tm.mulc(q, 64), C64(i))) for i in range(r)]
                ex.oblige(st, eq(ex.load_be(st, md, 32), padded(G(q), tail, tm.mulc(ln, 8))), 'postcondition', 'length 64q+%d: digest of the message' % r)
    return f


def groups(f, nm, what):
    return [Unit('%s, %s %d..%d' % (nm, what, g, g + 7), f(range(g, g + 8)), F) for g in range(0, 64, 8)]


UNITS = [
    Unit('block function', u_block, F, 'sm3_block_data_order, any number of blocks'),
    Unit('init', u_init, F)] + groups(u_update, 'update', 'buffered') + groups(u_final, 'final', 'buffered') + groups(u_oneshot, 'one-shot', 'length mod 64 in') + [
]
H = Harness('p02.c', F, quick_s=4)
if __name__ == '__main__':
    sys.exit(main('P02', UNITS, H))
