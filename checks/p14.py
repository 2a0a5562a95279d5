from common import *

FM = ['WBMatrix/src/WBMatrix.c', 'WBMatrix/src/random.c']
FU = ['src/utils/wrandom.c']
tm.INJ.add('perm')


class Perm:
    """Ghost state for a byte array of n cells whose content is, at the checkpoints, val o sigma with sigma an
    arbitrary bijection of [0, n).  After each write the writes since the last checkpoint are examined: if
    they amount to exchanging two cells (proved for an arbitrary cell), the content is val o (bijection)
    again and is replaced by a fresh arbitrary bijection."""

    def __init__(self, ex, ptr, n, val):
        self.ex, self.n, self.val = ex, n, val
        self.name = tm.is_ptr_base(ptr)[0].v
        self.w = max(1, (n - 1).bit_length())
        self.k = 0
        self.filling = True
        self.wr = []
        self.cells = {}
        ex.after_store = self.stored

    def at(self, off):
        if self.k == 0:
            return self.val(off)
        return self.val(zext(tm.uf(('perm', self.name, self.k), self.w, ext(off, self.w - 1, 0)), 64))

    def havoc(self, st):
        self.k += 1
        self.filling = False
        st.mem[self.name] = mem.Flat(mem.Fn(self.at), own=st.own)
        self.wr = []

    def stored(self, st, name, off, vals):
        if name != self.name:
            return
        if self.filling:
            # filling: constant cells
            if off.op != 'const' or len(vals) != 1 or vals[0].op != 'const':
                raise sym.EngineLimit('table is not filled with constants before the first exchange')
            self.cells[off.v] = vals[0].v
            if len(self.cells) == self.n:
                self.ex.oblige(st, TRUE if sorted(self.cells.values()) == list(range(self.n)) else FALSE, 'invariant', 'table starts as a permutation of 0..%d' % (self.n - 1))
                self.havoc(st)
            return
        if len(vals) != 1:
            raise sym.EngineLimit('wide write to the permuted table')
        self.wr.append(off)
        if len(self.wr) >= 2:
            self.check(st)

    def check(self, st, final=False):
        offs = []
        for o in self.wr:
            if o not in offs:
                offs.append(o)
        if not offs:
            return
        if len(offs) > 2:
            raise sym.EngineLimit('more than two cells changed between two permutations')
        a, b = offs[0], offs[-1]
        x = var(64, 'cell', 0, self.n - 1)
        goal = eq(st.mem[self.name].byte(x, self.ex.q(st)), self.at(ite(eq(x, a), b, ite(eq(x, b), a, x))))
        if not final and self.ex.prove(st, goal)[0] != 'valid':
            return           # in the middle of an exchange: decided at a later write or at the end
        self.ex.oblige(st, goal, 'invariant', 'the writes exchange two cells')
        for o in (a, b):
            self.ex.oblige(st, ult(o, C64(self.n)), 'invariant', 'exchanged cells lie in the table')
        self.havoc(st)


def rnd(ex, st, args):
    return st, tm.fresh(32, 'rnd')


def u_gen(fn, n):
    def f(c):
        c.need(fn)
        ex = c.exec()
        ex.no_summary = True
        ex.contracts['@cus_random'] = rnd
        st = sym.State()
        p = ex.new_obj(st, 'perm', n, 'arg', mem.Sym('perm0'))
        q = ex.new_obj(st, 'inv', n, 'arg', mem.Sym('inv0'))
        P = Perm(ex, p, n, lambda v: ext(v, 7, 0))
        st, r = one(ex.call(st, fn, [p, q]), fn)
        if P.k == 0:
            raise sym.EngineLimit('no exchange seen')
        P.check(st, True)
        for i in range(n):
            v = ex.load(st, add(p, C64(i)), 1)
            ex.oblige(st, eq(v, P.at(C64(i))), 'postcondition', 'table is the permutation of the last exchange at %d' % i)
            ex.oblige(st, ult(zext(v, 64), C64(n)), 'postcondition', 'entry %d is below %d' % (i, n))
            ex.oblige(st, eq(ex.load(st, add(q, zext(v, 64)), 1), const(8, i)), 'postcondition', 'inverse[permutation[%d]] == %d' % (i, i))
    return f


def u_shuffle(c):
    fn = '@wRandomShuffleU8'
    c.need(fn)
    c.mark_bounded('list lengths 0..20, 32, 36, 64')
    for n in list(range(21)) + [32, 36, 64]:
        ex = c.exec()
        ex.no_summary = True
        st = sym.State()
        p = ex.new_obj(st, 'list', n, 'arg', mem.Sym('list0'))
        P = Perm(ex, p, n, lambda v: tm.sel('list0', v))
        P.filling = False
        st, r = one(ex.call(st, fn, [p, C32(n)]), fn)
        P.check(st, True)
        ret_is(ex, st, r, 0, fn)


def one(rs, fn):
    rs = list(rs)
    if len(rs) != 1:
        raise sym.EngineLimit('%d outcomes of %s' % (len(rs), fn))
    return rs[0]


UNITS = [
    Unit('genPermutation4', u_gen('@genPermutation4', 16), FM, 'any sequence of random numbers'),
    Unit('genPermutation8', u_gen('@genPermutation8', 256), FM, 'any sequence of random numbers', budget=400),
    Unit('wRandomShuffleU8', u_shuffle, FU, budget=300),
]
H = Harness('p14.c', FM + FU, quick_s=3, wrap=('cus_random', 'rand'))
if __name__ == '__main__':
    sys.exit(main('P14', UNITS, H))
