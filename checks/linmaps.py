"""Contracts of the WBMatrix functions over abstract GF(2)-linear maps, and a normal form for what they compute.

A matrix in memory is either constant (then it is named by its rows) or the content of an array named by a token;
the contracts (proved by P13, which see) read the token and return uninterpreted applications `lin:TOKEN`(x).  The
normal form knows: linearity, products, block diagonal matrices, inverse pairs, the identity, and (for P12) the
self-equivalences of the S-box."""
from common import *
from specs import sm4 as S4
from specs import aes as AES

EMPTY = frozenset()
ZERO8 = const(8, 0)


def islin(t):
    return t.op == 'uf' and isinstance(t.v, str) and t.v.startswith('lin:')


class Maps:
    def __init__(self, ex, sbox=S4.S):
        self.ex = ex
        self.sbox = tuple(sbox)
        self.n = 0
        self.inv, self.words, self.blocks, self.se = {}, {}, {}, {}
        self.m4, self.m8, self.m32, self.sub, self.tabs = {}, {}, {}, {}, {}
        self.ident = self.const_tok(32, [1 << (31 - i) for i in range(32)])
        self.install()

    # ------------------------------------------------------------ tokens
    def const_tok(self, n, rows):
        return 'K%d:' % n + ''.join('%0*x' % (n // 4, r) for r in rows)

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def mat_bytes(self, tok, n):
        if tok.startswith('K'):
            h = tok.split(':')[1]
            rows = [int(h[i:i + n // 4], 16) for i in range(0, len(h), n // 4)]
            return [const(8, (r >> 8 * b) & 255) for r in rows for b in range(n // 8)]
        if '@' in tok:
            a, base = self.se[tok]
            return [tm.sel(a, add(base, C64(i))) for i in range(8)]
        return [tm.sel(tok, C64(i)) for i in range(n * n // 8)]

    def token(self, bs, n):
        """the token of the matrix with these bytes"""
        if all(b.op == 'const' for b in bs):
            w = n // 8
            return self.const_tok(n, [sum(bs[w * i + k].v << 8 * k for k in range(w)) for i in range(n)])
        b = bs[0]
        if b.op == 'sel':
            base = b.args[0]
            if all(x.op == 'sel' and x.v == b.v and x is tm.sel(b.v, add(base, C64(i))) for i, x in enumerate(bs)):
                if base.op == 'const' and base.v == 0 and not b.v.startswith('SE'):
                    return b.v
                t = '%s@%d' % (b.v, base.id)
                self.se[t] = (b.v, base)
                return t
        raise sym.EngineLimit('matrix that is neither constant nor one made by the matrix library')

    def at(self, st, p, n):
        """(token, vector) of the affine map at p"""
        ex = self.ex
        k = n * n // 8
        tok = self.token([ex.load(st, add(p, C64(i)), 1) for i in range(k)], n)
        return tok, ex.load(st, add(p, C64(k)), n // 8)

    def put(self, st, p, n, tok, vec=None):
        bs = self.mat_bytes(tok, n)
        if vec is not None:
            bs = bs + bytes_of(vec)[::-1]
        self.ex.store_bytes(st, p, bs, 'matrix')

    # ------------------------------------------------------------ contracts
    def app(self, tok, x):
        if x.op == 'const' and x.v == 0 or tok == self.ident:
            return x
        return tm.raw_uf('lin:' + tok, x.w, x)

    def aff8_args(self, st, a, k):
        """k Aff8 values passed by value; returns them and the remaining arguments"""
        out, i = [], 0
        for _ in range(k):
            if a[i].w == 64 and tm.is_ptr_base(a[i]) is None and i + 1 < len(a) and a[i + 1].w == 8:
                out.append((self.token(bytes_of(a[i])[::-1], 8), a[i + 1]))
                i += 2
            else:
                out.append(self.at(st, a[i], 8))
                i += 1
        return out, a[i:]

    def install(self):
        C = self.ex.contracts

        def pair(n):
            def h(ex, st, a):
                t = self.fresh('A%d_' % n)
                u = t + '~'
                self.inv[t], self.inv[u] = u, t
                v = var(n, 'v' + t)
                self.put(st, a[0], n, t, v)
                self.put(st, a[1], n, u, self.app(u, v))
                return None
            return h
        C['@genaffinepairM32'], C['@genaffinepairM8'] = pair(32), pair(8)

        def mix32(ex, st, a):
            (A, ka), (B, kb) = self.at(st, a[0], 32), self.at(st, a[1], 32)
            self.put(st, a[2], 32, self.product(A, B), xor(self.app(A, kb), ka))
            return None
        C['@affinemixM32'] = mix32

        def mul32(ex, st, a):
            A = self.token([ex.load(st, add(a[0], C64(i)), 1) for i in range(128)], 32)
            B = self.token([ex.load(st, add(a[1], C64(i)), 1) for i in range(128)], 32)
            self.put(st, a[2], 32, self.product(A, B))
            return None
        C['@MatMulMatM32'] = mul32

        def com(ex, st, a):
            ms, rest = self.aff8_args(st, a, 4)
            t = self.fresh('D32_')
            self.blocks[t] = [m[0] for m in ms][::-1]      # index 0: least significant byte
            self.put(st, rest[0], 32, t, concat(*[m[1] for m in ms]))
            return None
        C['@affinecomM8to32'] = com

        def u32(ex, st, a):
            t, v = self.at(st, a[0], 32)
            return xor(self.app(t, a[1]), v)
        C['@affineU32'] = u32

        def num32(ex, st, a):
            return self.app(self.token([ex.load(st, add(a[0], C64(i)), 1) for i in range(128)], 32), a[1])
        C['@MatMulNumM32'] = num32

        def u8(ex, st, a):
            ms, rest = self.aff8_args(st, a, 1)
            return xor(self.app(ms[0][0], rest[0]), ms[0][1])
        C['@affineU8'] = u8

        def ident(ex, st, a):
            self.put(st, a[0], 32, self.ident)
            return None
        C['@identityM32'] = ident
        C['@cus_random'] = lambda ex, st, a: tm.fresh(32, 'rnd')
        C['@InitRandom'] = lambda ex, st, a: None
        C['@time'] = lambda ex, st, a: tm.fresh(64, 'time')

        # matrices without a vector, and random permutations of nibbles
        def mpair(n):
            def h(ex, st, a):
                t = self.fresh('A%d_' % n)
                u = t + '~'
                self.inv[t], self.inv[u] = u, t
                self.put(st, a[0], n, t)
                self.put(st, a[1], n, u)
                return None
            return h
        C['@genMatpairM8'], C['@genMatpairM32'] = mpair(8), mpair(32)
        C['@genMatpairM128'] = mpair(128)

        def num8(ex, st, a):
            return self.app(self.token(bytes_of(a[0])[::-1], 8), a[1])
        C['@MatMulNumM8'] = num8

        def mcom(ex, st, a):
            t = self.fresh('D32_')
            self.blocks[t] = [self.token(bytes_of(x)[::-1], 8) for x in a[:4]][::-1]
            self.put(st, a[4], 32, t)
            return None
        C['@MatrixcomM8to32'] = mcom

        def perm(ex, st, a):
            t = self.fresh('p')
            for p, u in ((a[0], t), (a[1], t + '~')):
                ex.store_bytes(st, p, [concat(const(4, 0), pm(u, const(4, i))) for i in range(16)], 'permutation')
            return None
        C['@genPermutation4'] = perm

        def perm8(ex, st, a):
            t = self.fresh('q')
            for p, u in ((a[0], t), (a[1], t + '~')):
                ex.store_bytes(st, p, [pm8(u, const(8, i)) for i in range(256)], 'permutation')
            return None
        C['@genPermutation8'] = perm8
        tm.UF_RULES['pm'] = tm.UF_RULES['pm8'] = pm_rule

    def product(self, A, B):
        t = 'P(%s,%s)' % (A, B)
        self.words[t] = (A, B)
        return t

    # ------------------------------------------------------------ normal form
    def s8(self, t):
        """8-bit term -> set of atoms whose sum it is"""
        r = self.m8.get(t.id)
        if r is None:
            r = self.m8[t.id] = self._s8(t)
        return r

    def _s8(self, t):
        op = t.op
        if op == 'const':
            return frozenset(const(8, 1 << b) for b in range(8) if t.v >> b & 1)
        if op == 'xor':
            r = EMPTY
            by = {}
            for x in t.args:
                if x.op == 'ext' and x.args[0].w == 32 and x.v[1] % 8 == 0:
                    by.setdefault(x.v[1] // 8, []).append(x.args[0])
                else:
                    r = r ^ self.s8(x)
            for j, ts in by.items():
                r = r ^ self.byte_of(self.s32(sum_of(ts)), j)
            return r
        if op == 'ext' and t.args[0].w == 32 and t.v[1] % 8 == 0:
            return self.byte_of(self.s32(t.args[0]), t.v[1] // 8, t.args[0])
        if islin(t):
            r = EMPTY
            for x in self.s8(t.args[0]):
                r = r ^ self.lin8(t.v[4:], x)
            return r
        if op == 'concat' and len(t.args) == 2 and t.args[0].w == 4:
            w = self.words_of(t)
            if w is not None:
                return self.byte_of(self.s32(w[0]), w[1]) ^ self.s8(const(8, w[2]))
            (A, c1), (B, c0) = self.s4(t.args[0]), self.s4(t.args[1])
            if all(h == 1 for _, h in A) and all(h == 0 for _, h in B) and {a for a, _ in A} == {b for b, _ in B}:
                return frozenset(a for a, _ in A) ^ self.s8(const(8, c1 << 4 | c0))
            return frozenset([t])
        if op == 'tab' and t.w == 8 and t.args[0].w == 8:
            x = self.s8(t.args[0])
            if t.v != self.sbox and len(t.v) == 256:
                ks = self.linear_tab(t.v, 1)
                if ks is not None:
                    r = EMPTY
                    for b in (x if ks[1] else [tm.tab(self.sbox, self.t8(x), 8)]):
                        r = r ^ self.lin8(ks[0][0], b)
                    return r
            return frozenset([tm.tab(t.v, self.t8(x), 8)])
        return frozenset([t])

    def words_of(self, t):
        """a byte put together from nibbles of 32-bit words: (sum of the words, byte position, constant)"""
        parts, cs = [], []
        for x in t.args:
            ws, c = [], 0
            for y in (x.args if x.op == 'xor' else (x,)):
                if y.op == 'const':
                    c ^= y.v
                elif y.op == 'ext' and y.args[0].w == 32:
                    ws.append((y.args[0], y.v[1]))
                else:
                    return None
            parts.append(ws)
            cs.append(c)
        A, B = parts
        lo = {l for _, l in B}
        if not A or len(lo) != 1 or min(lo) % 8 or {l for _, l in A} != {min(lo) + 4} or {w for w, _ in A} != {w for w, _ in B}:
            return None
        return sum_of([w for w, _ in A]), min(lo) // 8, cs[0] << 4 | cs[1]

    def s4(self, t):
        """4-bit term -> set of (byte atom, is its high nibble), constant"""
        r = self.m4.get(t.id)
        if r is None:
            r = self.m4[t.id] = self._s4(t)
        return r

    def _s4(self, t):
        if t.op == 'const':
            return EMPTY, t.v
        if t.op == 'xor':
            r, c = EMPTY, 0
            for x in t.args:
                a, b = self.s4(x)
                r, c = r ^ a, c ^ b
            return r, c
        if t.op == 'ext' and t.v[1] % 4 == 0:
            hi, lo = t.v
            b = ext(t.args[0], lo // 8 * 8 + 7, lo // 8 * 8)
            h = lo // 4 % 2
            r, c = EMPTY, 0
            for x in self.s8(b):
                if x.op == 'const':
                    c ^= x.v >> 4 * h & 15
                else:
                    r = r ^ frozenset([(x, h)])
            return r, c
        return frozenset([(t, None)]), 0

    def byte_of(self, s, j, src=None):
        r = EMPTY
        for path, b, p in s:
            if not path:
                if p == j:
                    r = r ^ frozenset([b])
            else:
                r = r ^ frozenset([tm._mk('ext', 8, (self.t32(frozenset([(path, b, p)])),), (8 * j + 7, 8 * j))])
        return r

    def t8(self, s):
        k = 0
        xs = []
        for x in s:
            if x.op == 'const':
                k ^= x.v
            else:
                xs.append(x)
        r = const(8, k)
        for x in sorted(xs, key=lambda x: x.id):
            r = xor(r, x)
        return r

    def subblock(self, tok, q, j):
        """the 8x8 block of a constant 32x32 matrix that maps input byte j to output byte q (0: least significant)"""
        r = self.sub.get((tok, q, j))
        if r is None:
            rows = self.rows(tok, 32)
            r = self.sub[tok, q, j] = self.const_tok(8, [rows[24 - 8 * q + i] >> 8 * j & 255 for i in range(8)])
        return r

    def rows(self, tok, n):
        h = tok.split(':')[1]
        return [int(h[i:i + n // 4], 16) for i in range(0, len(h), n // 4)]

    def konst8(self, tok, x):
        rows = self.rows(tok, 8)
        if x.op == 'const':
            return self._s8(const(8, sum((bin(r & x.v).count('1') & 1) << (7 - i) for i, r in enumerate(rows))))
        if x.op == 'uf' and x.v.startswith('lin:K8:'):
            inner = self.rows(x.v[4:], 8)
            out = []
            for r in rows:
                v = 0
                for k in range(8):
                    if r >> (7 - k) & 1:
                        v ^= inner[k]
                out.append(v)
            rows, x = out, x.args[0]
        if not any(rows):
            return EMPTY
        if rows == [128 >> i for i in range(8)]:
            return frozenset([x])
        return frozenset([tm.raw_uf('lin:' + self.const_tok(8, rows), 8, x)])

    def lin8(self, tok, x):
        if tok.startswith('K8:'):
            return self.konst8(tok, x)
        if islin(x) and self.inv.get(tok) == x.v[4:]:
            return self.s8(x.args[0])
        if x.op == 'tab' and tuple(x.v) == self.sbox and tok.startswith('SEB@'):
            # B(S(A(y))) = S(y)
            a, base = self.se[tok]
            A = 'SEA@%d' % base.id
            z = self.s8(x.args[0])
            va = tm.sel('SEA', add(base, C64(8)))
            y = EMPTY
            ok = va in z
            for b in z - {va}:
                if b.op == 'uf' and b.v == 'lin:' + A:
                    y = y ^ self.s8(b.args[0])
                else:
                    ok = False
            if ok:
                return frozenset([tm.tab(x.v, self.t8(y), 8)]) ^ frozenset([tm.sel('SEB', add(base, C64(8)))])
        return frozenset([tm.raw_uf('lin:' + tok, 8, x)])

    def s32(self, t):
        """32-bit term -> set of (path, byte atom, byte position)"""
        r = self.m32.get(t.id)
        if r is None:
            r = self.m32[t.id] = self._s32(t)
        return r

    def _s32(self, t):
        op = t.op
        if op == 'xor':
            r = EMPTY
            by = {}
            for x in t.args:
                if islin(x):     # M(a) + M(b) = M(a + b)
                    by.setdefault(x.v[4:], []).append(x.args[0])
                else:
                    r = r ^ self.s32(x)
            for tok, ts in by.items():
                r = r ^ self.apply(tok, self.s32(sum_of(ts)))
            return self.gather(r)
        if islin(t):
            return self.apply(t.v[4:], self.s32(t.args[0]))
        if op == 'tab' and t.args[0].w == 8 and len(t.v) == 256:
            ks = self.linear_tab(t.v)
            if ks is not None:
                x = t.args[0] if ks[1] else tm.tab(self.sbox, self.norm8(t.args[0]), 8)
                r = EMPTY
                for j in range(4):
                    for b in self.s8(x):
                        r = r ^ frozenset(((), y, j) for y in self.lin8(ks[0][j], b))
                return r
        r = EMPTY
        for j in range(4):
            b = ext(t, 8 * j + 7, 8 * j)
            if b.op == 'ext' and b.args[0] is t:
                r = r ^ frozenset([((), b, j)])
            else:
                r = r ^ frozenset(((), x, j) for x in self.s8(b))
        return self.gather(r)

    def linear_tab(self, v, nb=4):
        """a table byte -> word that is linear, or linear after the S-box"""
        key = (v, nb)
        if key not in self.tabs:
            self.tabs[key] = None
            w = [0] * 256
            for x in range(256):
                w[self.sbox[x]] = v[x]
            for tabl, direct in ((list(v), True), (w, False)):
                if tabl[0] == 0 and all(tabl[x] == tabl[x & -x] ^ tabl[x & (x - 1)] for x in range(1, 256)):
                    self.tabs[key] = ([self.const_tok(8, [sum(((tabl[1 << b] >> (8 * j + 7 - i)) & 1) << b for b in range(8)) for i in range(8)]) for j in range(nb)], direct)
                    break
        return self.tabs[key]

    def gather(self, r):
        """the four bytes of one application of a map -> the application"""
        groups = {}
        for path, b, j in r:
            if not path and b.op == 'ext' and b.v == (8 * j + 7, 8 * j) and islin(b.args[0]):
                groups.setdefault(b.args[0], []).append(((), b, j))
        for T, g in groups.items():
            if len(g) == 4:
                r = (r - frozenset(g)) ^ self.s32(T)
        return r

    def apply(self, tok, s):
        if tok in self.words:
            A, B = self.words[tok]
            return self.apply(A, self.apply(B, s))
        if tok == self.ident:
            return s
        r = EMPTY
        for path, b, j in s:
            if path and self.inv.get(tok) == path[0]:
                r = r ^ frozenset([(path[1:], b, j)])
            elif tok.startswith('K'):
                for jj, x in ([(j, b)] if not path else [(q, x) for q in range(4) for x in self.byte_of(frozenset([(path, b, j)]), q)]):
                    for q in range(4):
                        r = r ^ frozenset(((), y, q) for y in self.lin8(self.subblock(tok, q, jj), x))
            elif path and tok in self.blocks:
                for q in range(4):
                    for x in self.byte_of(frozenset([(path, b, j)]), q):
                        r = r ^ frozenset(((), y, q) for y in self.lin8(self.blocks[tok][q], x))
            elif not path and tok in self.blocks:
                r = r ^ frozenset(((), x, j) for x in self.lin8(self.blocks[tok][j], b))
            else:
                r = r ^ frozenset([((tok,) + path, b, j)])
        return r

    def t32(self, s):
        r = const(32, 0)
        for path, b, j in sorted(s, key=lambda x: (x[0], x[1].id, x[2])):
            t = concat(*([const(24 - 8 * j, 0)] if j < 3 else []) + [b] + ([const(8 * j, 0)] if j else []))
            for g in reversed(path):
                t = tm.raw_uf('lin:' + g, 32, t)
            r = xor(r, t)
        return r

    def norm8(self, t):
        return self.t8(self.s8(t))

    # ------------------------------------------------------------ SM4 over these terms
    def sm4_L(self):
        rows = [0] * 32
        for j in range(32):
            y = S4_L(1 << (31 - j))
            for i in range(32):
                if y >> (31 - i) & 1:
                    rows[i] |= 1 << (31 - j)
        return self.const_tok(32, rows)

    def sm4(self, X, rk):
        """sets of the four output words"""
        L = self.sm4_L()
        x = [self.s32(t) for t in X]
        for k in rk:
            z = x[1] ^ x[2] ^ x[3] ^ self.s32(k)
            tau = EMPTY
            for j in range(4):
                tau = tau ^ frozenset([((), tm.tab(self.sbox, self.t8(self.byte_of(z, j)), 8), j)])
            x = [x[1], x[2], x[3], x[0] ^ self.apply(L, tau)]
        return x[::-1]

    def k8(self, f):
        """the constant 8x8 matrix of a linear function on bytes"""
        return self.const_tok(8, [sum((f(1 << b) >> (7 - i) & 1) << b for b in range(8)) for i in range(8)])

    def aes(self, X, rk):
        """sets of the 16 output bytes; X: 16 byte terms, rk: 176 byte terms"""
        mul = {1: None, 2: self.k8(lambda x: AES.gmul(x, 2)), 3: self.k8(lambda x: AES.gmul(x, 3))}

        def times(k, s):
            if k == 1:
                return s
            r = EMPTY
            for x in s:
                r = r ^ self.lin8(mul[k], x)
            return r
        k = [self.s8(b) for b in rk]
        s = [self.s8(b) ^ k[i] for i, b in enumerate(X)]
        for r in range(1, 11):
            s = [frozenset([tm.tab(self.sbox, self.t8(s[AES.SHIFT[i]]), 8)]) for i in range(16)]
            if r < 10:
                m = []
                for c in range(4):
                    for i in range(4):
                        z = EMPTY
                        for q in range(4):
                            z = z ^ times(AES.MIX[i][q], s[4 * c + q])
                        m.append(z)
                s = m
            s = [a ^ b for a, b in zip(s, k[16 * r:])]
        return s

    def same_sets(self, st, got, want, what):
        for i, (t, w) in enumerate(zip(got, want)):
            self.ex.oblige(st, TRUE if self.s8(t) == w else eq(t, self.t8(w)), 'postcondition', what + ': output byte %d' % i)

    def same_bytes(self, st, got, want, what):
        """got: 16 byte terms, want: 4 word sets"""
        for i in range(16):
            w = self.byte_of(want[i // 4], 3 - i % 4)
            g = self.s8(got[i])
            self.ex.oblige(st, TRUE if g == w else eq(got[i], self.t8(w)), 'postcondition', what + ': output byte %d' % i)


def sum_of(ts):
    r = ts[0]
    for t in ts[1:]:
        r = xor(r, t)
    return r


def pm(tok, x):
    return tm.uf(('pm', tok), 4, x)


def pm8(tok, x):
    return tm.uf(('pm8', tok), 8, x)


def pm_rule(name, w, args):
    x = args[0]
    if x.op == 'uf' and isinstance(x.v, tuple) and x.v[0] == name[0] and (x.v[1] == name[1] + '~' or name[1] == x.v[1] + '~'):
        return x.args[0]
    return None


def rotl(x, n):
    return ((x << n) | (x >> (32 - n))) & 0xffffffff


def S4_L(x):
    return x ^ rotl(x, 2) ^ rotl(x, 10) ^ rotl(x, 18) ^ rotl(x, 24)
