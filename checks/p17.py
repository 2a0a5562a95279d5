from fpe import *
from specs import ghash as G

F = FILES
TABN = lambda n: tm.uf(('htab', n), 128)      # entry n of the GHASH table of H = E(0)


def c_gen(ex, st, a):
    for n in range(16):
        ex.store(st, add(a[1], C64(8 * n)), ext(TABN(n), 127, 64))
        ex.store(st, add(a[2], C64(8 * n)), ext(TABN(n), 63, 0))
    return C32(1)


def c_mult(ex, st, a):
    for n in range(16):
        ex.oblige(st, eq(concat(ex.load(st, add(a[0], C64(8 * n)), 8), ex.load(st, add(a[1], C64(8 * n)), 8)), TABN(n)), 'call-precondition', 'gmac_mult_H gets the table of H')
    x = simp(ex, st, canon(ex.load_be(st, a[2], 16)))
    ex.store_be(st, a[3], tm.uf('ghmul', 128, x))
    return None


def mac_units(alg, shapes, spec, quick=None):
    def f(c):
        e, d = '@WBCRYPTO_%s_encrypt' % alg, '@WBCRYPTO_%s_decrypt' % alg
        fin = '@WBCRYPTO_%s_finish' % alg
        c.need(e, d, fin)
        sh = shapes if c.tier == 'thorough' else quick
        c.mark_bounded('shapes (radix, length, tweak length): ' + ' '.join('%d/%d/%d' % s for s in sh))
        o, size = gcmctx.offsets('struct fpe_mac_ctx', 'wbcrypto/fpe.h', ['fpe_ctx', 'tag'])
        for r, n, t in sh:
            ex = newexec(c)
            ex.contracts['@gmac_gen_H'] = c_gen
            ex.contracts['@gmac_mult_H'] = c_mult
            st = sym.State()
            key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
            ex.contracts['@blk'] = cipher(key)
            tweak = [var(8, 'tw%d' % i) for i in range(t)]
            full = tweak + [const(8, 0)] * (16 - t)
            ctx = setup(ex, st, r, tweak, key)
            mac = ex.new_obj(st, 'mac', size, 'arg', mem.Sym('mac0'))
            ex.store(st, add(mac, C64(o['fpe_ctx'])), ctx)
            ds = [of_term(var(32, 'd%d_%d' % (r, i), 0, r - 1)) for i in range(n)]
            w = 'radix %d length %d tweak %d' % (r, n, t)
            enc = spec(ds, r, tweak if alg.startswith('ff1') else full)
            p = string(ex, st, 'in', ds)
            q = ex.new_obj(st, 'out', n + 1, 'arg', mem.Sym('out0'))
            tg = ex.new_obj(st, 'tag', 16, 'arg', mem.Sym('tag0'))
            ln = ex.new_obj(st, 'len', 8, 'arg', mem.Sym('len0'))
            st = run(ex, st, e, mac, p, n, q, enc, 'encryption, ' + w)
            t1 = canon(ex.load_be(st, add(mac, C64(o['tag'])), 16))
            for x in tm.topo([t1]):
                if x.op == 'sel' or x.op == 'var' and not x.v.startswith('tw'):
                    ex.oblige(st, FALSE, 'postcondition', '%s: the tag depends on %s, which is neither key, tweak nor string' % (w, str(x)[:80]))
            st, rr = one(ex.call(st, fin, [mac, tg, ln]), fin)
            ret_is(ex, st, rr, 1, fin)
            ex.oblige(st, eq(canon(ex.load_be(st, tg, 16)), t1), 'postcondition', w + ': finish returns the tag')
            ex.oblige(st, eq(ex.load(st, ln, 8), C64(16)), 'postcondition', w + ': finish reports length 16')
            # decryption in a context with another history
            mac2 = ex.new_obj(st, 'mac2', size, 'arg', mem.Sym('mac20'))
            ex.store(st, add(mac2, C64(o['fpe_ctx'])), ctx)
            z = ex.new_obj(st, 'back', n + 1, 'arg', mem.Sym('back0'))
            st = run(ex, st, d, mac2, q, n, z, ds, 'decryption of the encryption, ' + w)
            t2 = canon(ex.load_be(st, add(mac2, C64(o['tag'])), 16))
            ex.oblige(st, eq(t1, t2), 'postcondition', w + ': both directions compute the same tag')
            p2 = string(ex, st, 'inout', ds, True)
            st = run(ex, st, e, mac2, p2, n, p2, enc, 'in-place encryption with a used context, ' + w)
            ex.oblige(st, eq(canon(ex.load_be(st, add(mac2, C64(o['tag'])), 16)), t1), 'postcondition', w + ': a used context computes the same tag')
    return f


def u_gmac(c):
    c.need('@gmac_gen_H', '@gmac_mult_H')
    ex = c.exec()
    st = sym.State()
    key = ex.new_obj(st, 'key', 8, 'arg', mem.Sym('key0'), wr=False)
    ex.contracts['@blk'] = cipher(key)
    ctx = setup(ex, st, 10, [], key)
    o, size = gcmctx.offsets('struct fpe_mac_ctx', 'wbcrypto/fpe.h', ['fpe_ctx', 'tag'])
    mac = ex.new_obj(st, 'mac', size, 'arg', mem.Sym('mac0'))
    ex.store(st, add(mac, C64(o['fpe_ctx'])), ctx)
    hh = ex.new_obj(st, 'HH', 128, 'arg', mem.Sym('hh0'))
    hl = ex.new_obj(st, 'HL', 128, 'arg', mem.Sym('hl0'))
    st, r = one(ex.call(st, '@gmac_gen_H', [mac, hh, hl]), 'gmac_gen_H')
    ret_is(ex, st, r, 1, 'gmac_gen_H')
    Hk = E(const(128, 0))
    for n in range(16):
        g = concat(ex.load(st, add(hh, C64(8 * n)), 8), ex.load(st, add(hl, C64(8 * n)), 8))
        ex.oblige(st, eq(g, G.nib(const(4, n), Hk)), 'postcondition', 'table entry %d is the nibble multiple of H = E(0)' % n)
    ex = c.exec()
    st = sym.State()
    T = gcmctx.T
    hh = ex.new_obj(st, 'HH', 128, 'arg', mem.Fn(lambda off: tb(off, 64)), wr=False)
    hl = ex.new_obj(st, 'HL', 128, 'arg', mem.Fn(lambda off: tb(off, 0)), wr=False)

    def tb(off, base):
        n, k = ext(tm.udiv(off, C64(8)), 3, 0), tm.urem(off, C64(8))
        if k.op != 'const':
            raise sym.EngineLimit('unaligned table access')
        return ext(T(n), base + 8 * k.v + 7, base + 8 * k.v)
    X = var(128, 'X')
    x = ex.new_obj(st, 'x', 16, 'arg', mem.BV(X), wr=False)
    out = ex.new_obj(st, 'out', 16, 'arg', mem.Sym('out0'))
    st, r = one(ex.call(st, '@gmac_mult_H', [hh, hl, x, out]), 'gmac_mult_H')
    ex.oblige(st, eq(ex.load_be(st, out, 16), G.by_table(X, T)), 'postcondition', 'gmac_mult_H is the sum of x^(4j) T(nibble j)')


Q1 = [(10, n, 8) for n in range(2, 18)] + [(r, 7, 5) for r in range(2, 37, 3)] + [(10, 6, t) for t in range(0, 20, 3)] + [(36, 40, 9), (10, 56, 7), (10, 70, 0)] + [(10, 6, t) for t in (31, 32, 33, 64, 65, 128, 255, 256, 300)] + [(2, 257, 1)]
M1 = [(10, n, t) for n in range(2, 41) for t in (0, 1, 7)] + [(r, n, 8) for r in range(2, 37) for n in (2, 3, 16, 19)] + [(10, 60, 3), (2, 192, 4), (26, 100, 1)]
Q3 = [(10, n, 8) for n in range(2, 18)] + [(r, 7, 8) for r in range(2, 37, 3)] + [(10, 6, t) for t in (0, 4, 7, 16, 20, 33, 64, 65, 256)] + [(36, 36, 8), (10, 56, 8)]
M3 = [(10, n, 8) for n in range(2, 57)] + [(r, n, 8) for r in range(2, 37) for n in (2, 3, 16, 19, 36)]
UNITS = shape_units('FF1-CMAC', 'ff1_cmac', ff1, Q1, M1, 8, mac_units) + shape_units('FF3-GMAC', 'ff3_gmac', ff3, Q3, M3, 8, mac_units)
UNITS += [Unit('GHASH tables and product', u_gmac, F), Unit('characters', u_map, F), Unit('short strings', u_short('ff1_cmac', 24), F), Unit('short strings GMAC', u_short('ff3_gmac', 24), F),
          Unit('context', u_init, F)]
H = Harness('p17.c', F, quick_s=4, extra=['-lcrypto', '-lm'])
if __name__ == '__main__':
    sys.exit(main('P17', UNITS, H))
