from modes import *

F = ['src/modes/cbc128.c', 'src/utils/padding.c']
ENC, DEC = '@WBCRYPTO_cbc128_encrypt', '@WBCRYPTO_cbc128_decrypt'


def setup(c, ptr, failing=False):
    ex = c.exec()
    st = sym.State()
    st.ghost['failed'] = FALSE
    key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
    ex.contracts[ptr] = cipher(key, failing=failing)
    return ex, st, key


def enc_setup(c, empty, failing=False, cap='enough', aligned=False):
    ex, st, key = setup(c, '@blk', failing)
    q = var(64, 'q', 1 if aligned else 0, NMAX >> 4)
    n = tm.mulc(q, 16)
    if empty:
        n = C64(0)
        nb = C64(0)
        pad = const(8, 0)
    elif aligned:
        nb = q
        pad = const(8, 0)
    else:
        rr = var(64, 'rr', 1, 15)
        n = add(n, rr)
        nb = add(q, C64(1))
        pad = ext(sub(C64(16), rr), 7, 0)
    pl = tm.mulc(nb, 16)
    inp = ex.new_obj(st, 'in', n, 'arg', mem.Sym('msg'), wr=False)
    outsz = pl if cap == 'enough' else var(64, 'cap', 0, NMAX * 2)
    out = ex.new_obj(st, 'out', outsz, 'arg', mem.Sym('out0'))
    use = ex.new_obj(st, 'use', 8, 'arg', mem.Sym('use0'))
    ivec = ex.new_obj(st, 'ivec', 16, 'arg', mem.Sym('iv'), wr=False)
    cap_ = var(64, 'max_olen')
    if cap == 'enough':
        st.assume(ule(pl, cap_))
    else:
        st.assume(ult(cap_, pl))

    def P(k):
        return concat(*[ite(ult(add(tm.mulc(k, 16), C64(i)), n), tm.sel('msg', add(tm.mulc(k, 16), C64(i))), pad) for i in range(16)])
    iv = be_block('iv', C64(0))
    ch = loops.Ghost('cbc', iv, lambda k, v: E(xor(P(k), v)))
    ex.ghosts = [ch]

    def fn(rel):
        return pick(ch.at(add(tm.udiv(rel, C64(16)), C64(1))), tm.urem(rel, C64(16)))

    def written(rel):
        return pick(ch.succ(tm.udiv(rel, C64(16))), tm.urem(rel, C64(16)))
    ex.region_ghosts = [loops.Region('ciphertext', out, fn, written)]
    args = [inp, n, out, cap_, use, key, ivec, fnptr('@blk')]
    return ex, st, args, dict(n=n, nb=nb, pl=pl, ch=ch, out=out, use=use)


def u_enc(c):
    c.need(ENC)
    for empty, aligned in ((True, False), (False, False), (False, True)):
        ex, st, a, g = enc_setup(c, empty, aligned=aligned)
        st, r = one(ex.call(st, ENC, a), ENC)
        ret_is(ex, st, r, 1, ENC)
        ex.oblige(st, eq(ex.load(st, g['use'], 8), g['pl']), 'postcondition', 'reported length is the padded length')
        no_leak(ex, st)
        if empty:
            continue
        j = var(64, 'j', 0, NMAX)
        st.assume(ult(j, g['nb']))
        got = ex.load_be(st, add(a[2], tm.mulc(j, 16)), 16)
        ex.oblige(st, eq(got, g['ch'].at(add(j, C64(1)))), 'postcondition', 'ciphertext block j is C(j+1) with C(0)=IV, C(k+1)=E(P(k)^C(k)), P the PKCS#7-filled message')


def u_enc_cap(c):
    for aligned in (False, True):
        ex, st, a, g = enc_setup(c, False, cap='small', aligned=aligned)
        for st, r in ex.call(st, ENC, a):
            ret_is(ex, st, r, 0, ENC + ' with too small an output buffer')
            ex.oblige(st, eq(ex.load(st, g['use'], 8), le(tm_sel('use0', 8))), 'postcondition', 'reported length untouched on failure')
            no_leak(ex, st)


def tm_sel(nm, n):
    return concat(*[tm.sel(nm, C64(i)) for i in range(n)])


def u_enc_fail(c):
    for aligned in (False, True):
        ex, st, a, g = enc_setup(c, False, failing=True, aligned=aligned)
        for st, r in ex.call(st, ENC, a):
            ex.oblige(st, eq(eq(r, C32(1)), not_(st.ghost['failed'])), 'postcondition', 'returns 1 exactly if no cipher call failed')
            ex.oblige(st, ule(r, C32(1)), 'postcondition', 'returns 0 or 1')
            no_leak(ex, st)


def no_leak(ex, st):
    for n, o in st.objs.items():
        if o.kind == 'heap' and o.alive:
            ex.oblige(st, FALSE, 'postcondition', 'temporary buffer is released', soft=True, record=False)


def dec_setup(c, inplace, empty, failing=False, cap='enough'):
    ex, st, key = setup(c, '@blk', failing)
    q = C64(0) if empty else var(64, 'q', 1, NMAX >> 4)
    n = tm.mulc(q, 16)
    cap_ = var(64, 'max_olen')
    st.assume(ule(n, cap_) if cap == 'enough' else ult(cap_, n))
    use = ex.new_obj(st, 'use', 8, 'arg', mem.Sym('use0'))
    ivec = ex.new_obj(st, 'ivec', 16, 'arg', mem.Sym('iv'))
    if inplace:
        inp = out = ex.new_obj(st, 'buf', n, 'arg', mem.Sym('ct'), wr=cap == 'enough')
    else:
        inp = ex.new_obj(st, 'in', n, 'arg', mem.Sym('ct'), wr=False)
        out = ex.new_obj(st, 'out', n, 'arg', mem.Sym('out0'), wr=cap == 'enough')
    iv = be_block('iv', C64(0))
    CT = lambda k: be_block('ct', tm.mulc(k, 16))
    ch = loops.Ghost('chain', iv, lambda k, v: CT(k))
    ex.ghosts = [ch]
    return ex, st, [inp, n, out, cap_, use, key, ivec, fnptr('@blk')], dict(q=q, ch=ch, iv=iv, CT=CT)


def dec(inplace, empty):
    def f(c):
        c.need(DEC)
        ex, st, a, g = dec_setup(c, inplace, empty)
        if inplace:
            ch, CT = g['ch'], g['CT']
            fn = lambda rel: pick(xor(E(CT(tm.udiv(rel, C64(16)))), prevc(g, tm.udiv(rel, C64(16)))), tm.urem(rel, C64(16)))
            wr = lambda rel: pick(xor(E(CT(tm.udiv(rel, C64(16)))), ch.at(tm.udiv(rel, C64(16)))), tm.urem(rel, C64(16)))
            # the loop invariant carries the chaining value in ivec; the region states it by the ghost
            ex.region_ghosts = [loops.Region('plaintext', a[2], wr, wr)]
        st, r = one(ex.call(st, DEC, a), DEC)
        ret_is(ex, st, r, 1, DEC)
        no_leak(ex, st)
        if empty:
            return
        j = var(64, 'j', 0, NMAX)
        st.assume(ult(j, g['q']))
        if inplace:
            # unfold the chain at j: chain(0)=iv, chain(j)=CT(j-1)
            st.assume(eq(g['ch'].at(j), prevc(g, j)))
            ex.assumptions.add('ghost chain unfolded at the queried index (definition of the sequence)')
        got = ex.load_be(st, add(a[2], tm.mulc(j, 16)), 16)
        ex.oblige(st, eq(got, xor(E(g['CT'](j)), prevc(g, j))), 'postcondition', 'plaintext block j is D(C(j)) ^ C(j-1), C(-1)=IV')
    return f


def prevc(g, j):
    return ite(eq(j, C64(0)), g['iv'], g['CT'](sub(j, C64(1))))


def u_dec_cap(c):
    for ip in (False, True):
        ex, st, a, g = dec_setup(c, ip, False, cap='small')
        for st, r in ex.call(st, DEC, a):
            ret_is(ex, st, r, 0, DEC + ' with too small an output buffer')


def dec_fail(ip):
    def f(c):
        ex, st, a, g = dec_setup(c, ip, False, failing=True)
        if ip:
            CT, ch = g['CT'], g['ch']
            wr = lambda rel: pick(xor(E(CT(tm.udiv(rel, C64(16)))), ch.at(tm.udiv(rel, C64(16)))), tm.urem(rel, C64(16)))
            ex.region_ghosts = [loops.Region('plaintext', a[2], wr, wr)]
        for st, r in ex.call(st, DEC, a):
            ex.oblige(st, eq(eq(r, C32(1)), not_(st.ghost['failed'])), 'postcondition', 'returns 1 exactly if no cipher call failed')
    return f


def u_lemma(c):
    ex = c.exec()
    st = sym.State()
    P, ch = var(128, 'P'), var(128, 'C')
    Eu = lambda x: tm.raw_uf('E', 128, x)
    Du = lambda x: tm.raw_uf('D', 128, x)
    x = xor(P, ch)
    st.assume(eq(Du(Eu(x)), x))
    ex.oblige(st, eq(xor(Du(Eu(x)), ch), P), 'lemma', 'if D inverts E, each decrypted block D(C(j+1)) ^ C(j) is P(j)')


UNITS = [
    Unit('encrypt', u_enc, F, 'any length 0..2^36, message bytes, IV, cipher'),
    Unit('encrypt, small output', u_enc_cap, F),
    Unit('encrypt, failing cipher', u_enc_fail, F),
    Unit('decrypt', dec(False, False), F, 'any number of blocks'),
    Unit('decrypt in place', dec(True, False), F),
    Unit('decrypt empty', dec(False, True), F),
    Unit('decrypt empty in place', dec(True, True), F),
    Unit('decrypt, small output', u_dec_cap, F),
    Unit('decrypt, failing cipher', dec_fail(False), F),
    Unit('decrypt in place, failing cipher', dec_fail(True), F),
    Unit('round trip lemma', u_lemma, F),
]
H = Harness('p03.c', F, quick_s=5)
if __name__ == '__main__':
    sys.exit(main('P03', UNITS, H))
