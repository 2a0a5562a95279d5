"""contracts of the hash-key multiplication and of the table set-up, shared by P05, P09 and P10"""
from gcmctx import *


def u_mult(alias, V=PLAIN):
    MULT = V.MULT

    def f(c):
        G.selftest()
        c.need(MULT)
        L = V.layout()
        ex = c.exec()
        st = sym.State()
        X = var(128, 'X')
        ctx = ex.new_obj(st, 'ctx', L.size, 'arg', table_content(L), wr=alias == 'ctx')
        if alias == 'ctx':
            for fld in ('buf', 'y'):
                s2 = st.fork()
                p = add(ctx, C64(L[fld]))
                ex.store_be(s2, p, X)
                s2, r = one(ex.call(s2, MULT, [ctx, p, p]), MULT)
                post(ex, s2, p, X)
                tables_intact(ex, s2, L, ctx)
                for o in range(L.size):
                    if not (L[fld] <= o < L[fld] + 16) and not any(L[t] <= o < L[t] + 128 for t in ('HL', 'HH')):
                        ex.oblige(s2, eq(ex.load(s2, add(ctx, C64(o)), 1), tm.sel('ctx0', C64(o))), 'frame', 'context byte %d untouched' % o)
            return
        x = ex.new_obj(st, 'x', 16, 'arg', mem.BV(X), wr=alias == 'same')
        out = x if alias == 'same' else ex.new_obj(st, 'out', 16, 'arg', mem.Sym('out0'))
        st, r = one(ex.call(st, MULT, [ctx, x, out]), MULT)
        post(ex, st, out, X)

    def post(ex, st, p, X):
        ex.oblige(st, eq(ex.load_be(st, p, 16), G.by_table(X, T)), 'postcondition', 'output is the sum of x^(4j) T(nibble j of the input)')
    return f


def u_init(V=PLAIN):
    INIT = V.N + 'init'

    def f(c):
        c.need(INIT)
        L = V.layout()
        for failing in (False, True)[:2 if V is PLAIN else 1]:
            ex = c.exec()
            st = sym.State()
            st.ghost['failed'] = FALSE
            key = V.key(ex, st)
            ex.contracts[V.BLK] = gcipher(key, failing=failing, stored=V.stored)
            rs = ex.call(st, INIT, [key] + ([fnptr(V.BLK)] if V is PLAIN else []))
            if failing:
                for st, r in rs:
                    ex.oblige(st, eq(eq(r, C64(0)), st.ghost['failed']), 'postcondition', 'returns NULL exactly if the cipher failed')
                continue
            st, r = one(rs, INIT)
            H = V.hkey()
            b = tm.is_ptr_base(r)
            if b is None:
                raise sym.EngineLimit('gcm_init does not return a fresh object')
            ex.oblige(st, boolc(st.objs[b[0].v].alive and st.objs[b[0].v].kind == 'heap'), 'postcondition', 'returns a live allocated context')
            for n in range(16):
                hl = ex.load(st, add(r, C64(L['HL'] + 8 * n)), 8)
                hh = ex.load(st, add(r, C64(L['HH'] + 8 * n)), 8)
                ex.oblige(st, eq(concat(hh, hl), G.nib(const(4, n), H)), 'postcondition', 'table entry %d is the %d-th nibble multiple of H = E(0)' % (n, n))
            ex.oblige(st, eq(ex.load(st, add(r, C64(L['key'])), 8), key), 'postcondition', 'key stored')
            ex.oblige(st, eq(ex.load(st, add(r, C64(L['block'])), 8), fnptr(V.BLK)), 'postcondition', 'cipher stored')
            for f in ('len', 'add_len'):
                ex.oblige(st, eq(ex.load(st, add(r, C64(L[f])), 8), C64(0)), 'postcondition', f + ' is zero')
    return f


def boolc(b):
    return TRUE if b else FALSE
