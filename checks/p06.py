from gcmcrypt import *

F = ['src/modes/gcm_parallel.c']


def groups(fn, dec):
    us = []
    for ip in (False, True):
        for rs in ((0, 1, 2, 3), (4, 5, 6, 7), (8, 9, 10, 11), (12, 13, 14, 15)):
            us.append(Unit('%s%s, length 16q+%s' % (fn, ' in place' if ip else '', '/'.join(map(str, rs))), crypt(fn, dec, ip, rs), F, 'same postcondition as the serial function (check P04); the parallel region run in program order'))
        for rs in (range(0, 6), range(6, 11), range(11, 16)):
            us.append(Unit('%s%s, length 16q+%d..%d, iterations are independent' % (fn, ' in place' if ip else '', rs[0], rs[-1]), race(fn, dec, ip, rs), F, 'OpenMP lowering of the same source (clang -fopenmp): one arbitrary iteration of the parallel loop writes and reads only its own 16 bytes of the output, its locals and atomics, so every schedule equals program order', flags=('-fopenmp',)))
    us.append(Unit(fn + ', failing cipher', crypt(fn, dec, False, (0, 1, 15), failing=True, qs=(0, 1, 2)), F, 'bounded: up to 3 blocks, every pattern of failing cipher calls', bounded=True))
    us.append(Unit(fn + ', small output', crypt(fn, dec, False, range(16), small=True), F))
    return us


def race(fn, dec, inplace, rs):
    def f(c):
        c.need(N + fn)
        for r, last in [(r, l) for r in rs for l in (False, True)]:
            q = var(64, 'q', 0 if r else 1, NMAX >> 4)
            g = Gcm(c)
            ex, st = g.ex, g.st
            n = lens(q, r)
            if inplace:
                inp = out = ex.new_obj(st, 'buf', n, 'arg', mem.Sym('in0'))
            else:
                inp = ex.new_obj(st, 'in', n, 'arg', mem.Sym('in0'), wr=False)
                out = ex.new_obj(st, 'out', n, 'arg', mem.Sym('out0'))
            P = lambda k, r=16: blockP('in0', k, r)
            gh = loops.Ghost('ghash', g.b0, lambda k, v: ghmul(xor(v, P(k))))
            ex.ghosts = [g.ctr, g.ctr32, gh]
            seen = []
            i = var(64, 'iteration', 0, NMAX >> 4)

            def fork(ex, st, a):
                seen.append(1)
                s = st.fork()
                for nm, o in list(s.objs.items()):
                    o2 = sym.Obj(o.name, o.size, o.kind, False)
                    o2.alive = o.alive
                    if nm == tm.is_ptr_base(out)[0].v:
                        lo = tm.mulc(i, 16)
                        o2.wr = [(lo, C64(16))]
                        o2.rd = (lo, C64(16))
                    s.objs[nm] = o2
                tid = ex.new_obj(s, 'gtid', 4, 'arg', mem.Sym('gtid0'), wr=False)
                b = ex.contracts.copy()
                done = [0]

                def bounds(s, plast, plo, phi, pstride):
                    ub = ex.load(s, phi, 8)
                    if last:
                        s.assume(eq(i, ub), True)
                    else:
                        s.assume(ult(i, ub), True)
                    s.assume(not_(ult(ub, i)), True)
                    ex.store(s, plo, i)
                    ex.store(s, phi, i)

                def static_init(ex, s, x):
                    bounds(s, *x[3:7])

                def dispatch_init(ex, s, x):
                    s.ghost['disp'] = (x[3], x[4])
                    return None

                def dispatch_next(ex, s, x):
                    d = s.ghost.get('disp')
                    if d is None:
                        return C32(0)
                    s.ghost['disp'] = None
                    s.assume(band(ule(d[0], i), ule(i, d[1])))
                    ex.store(s, x[3], i)
                    ex.store(s, x[4], i)
                    return C32(1)
                nop = lambda ex, s, x: None
                for sfx in ('8u', '8', '4u', '4'):
                    if sfx[0] == '8':
                        ex.contracts['@__kmpc_for_static_init_' + sfx] = static_init
                        ex.contracts['@__kmpc_dispatch_init_' + sfx] = dispatch_init
                        ex.contracts['@__kmpc_dispatch_next_' + sfx] = dispatch_next
                        ex.contracts['@__kmpc_dispatch_fini_' + sfx] = nop
                for h in ('@__kmpc_for_static_fini', '@__kmpc_barrier'):
                    ex.contracts[h] = nop
                ex.contracts['@blk'] = pureblk
                target = a[2].v.split(':', 1)[1]
                for s3, ret in ex.call(s, target, [tid, tid] + a[3:]):
                    pass
                ex.contracts = b
                return sym.DEAD

            def pureblk(ex, s, a):
                """the block cipher reads its input and key only and writes its output block (assumed thread safe)"""
                ex.load_be(s, a[0], 16)
                ex.store_be(s, a[1], tm.fresh(128, 'ks'))
                return tm.fresh(32, 'cr', 0, 1)
            ex.contracts['@__kmpc_fork_call'] = fork
            ex.contracts['@__kmpc_global_thread_num'] = lambda ex, st, a: C32(0)
            ex.contracts['@__kmpc_push_num_threads'] = lambda ex, st, a: None
            for s, ret in ex.call(st, N + fn, [g.ctx, inp, n, out, n]):
                pass
            if not seen:
                c.notes.append('no parallel region for length 16q+%d' % r)
    return f


UNITS = groups('parallel_encrypt', False) + groups('parallel_decrypt', True)
H = Harness('p06.c', ['src/modes/gcm_parallel.c', 'src/modes/gcm128.c'], quick_s=5, extra=('-fopenmp',))
if __name__ == '__main__':
    sys.exit(main('P06', UNITS, H))
