"""stdio contracts over modelled files (used by the store/load and file-mode proofs)

A file is an object holding its bytes and a length; the position of a stream is ghost state.  The
contracts here are for streams whose positions are known numbers (the caller's loops are executed).  The k-th
I/O call (fopen, fread, fwrite, fputs, fgets, fclose of a written stream) can be made to fail."""
from common import *


class Files:
    def __init__(self, ex, fail_at=None):
        self.ex = ex
        self.fail_at = fail_at
        self.paths = {}           # path object name -> file id
        self.n = 0
        self.log = []             # which I/O call was made to fail
        for f in ('fopen', 'fread', 'fwrite', 'fclose', 'fputs', 'fgets', 'strcmp', 'fflush', 'strncmp', 'memcmp'):
            ex.contracts['@' + f] = getattr(self, f)

    def add(self, st, path, cap, length=None):
        """declare a file of at most cap bytes behind the path pointer; length None: it does not exist"""
        obj = self.ex.new_obj(st, 'file', cap, 'ghost', mem.Sym('junk:' + path.v))
        self.paths[path.v] = obj
        st.ghost['len:' + obj.v] = length
        return obj

    def length(self, st, obj):
        return st.ghost['len:' + obj.v]

    def fails(self, what):
        self.n += 1
        if self.fail_at is not None and self.n - 1 == self.fail_at:
            self.log.append(what)
            return True
        return False

    def cstr(self, st, p):
        b = b''
        while True:
            t = self.ex.load(st, add(p, C64(len(b))), 1)
            if t.op != 'const':
                raise sym.EngineLimit('string with unknown bytes')
            if t.v == 0:
                return b
            b += bytes([t.v])

    def stream(self, st, p):
        n = p.v if p.op == 'addr' else None
        if n is None or 'str:%s' % n not in st.ghost or not st.objs[n].alive:
            self.ex.oblige(st, FALSE, 'call-precondition', 'stdio call on an open stream')
            raise sym.EngineLimit('stdio call on a stream that is not open')
        return n, st.ghost['str:' + n]

    def fopen(self, ex, st, a):
        if a[0].op != 'addr' or a[0].v not in self.paths:
            raise sym.EngineLimit('fopen of an unknown path')
        obj = self.paths[a[0].v]
        mode = self.cstr(st, a[1])
        if self.fails('fopen'):
            return C64(0)
        if mode[:1] == b'r' and self.length(st, obj) is None:
            return C64(0)
        if mode[:1] == b'w':
            st.ghost['len:' + obj.v] = 0
        elif mode[:1] != b'r':
            raise sym.EngineLimit('fopen mode %r' % mode)
        s = ex.new_obj(st, 'FILE', 8, 'stream', mem.Sym('stream'))
        st.ghost['str:' + s.v] = (obj, 0, mode)
        return s

    def items(self, st, size, n):
        size, n = sym.simp_known(size, st), sym.simp_known(n, st)
        if size.op != 'const' or n.op != 'const':
            raise sym.EngineLimit('I/O of an unknown number of bytes')
        return size.v, n.v

    def fwrite(self, ex, st, a):
        size, n = self.items(st, a[1], a[2])
        nm, (obj, pos, mode) = self.stream(st, a[3])
        if mode[:1] == b'r' and b'+' not in mode:
            ex.oblige(st, FALSE, 'call-precondition', 'fwrite to a stream opened for writing')
        if self.fails('fwrite'):
            return C64(n - 1 if n else 0)
        if size * n:
            ex.copy(st, add(obj, C64(pos)), a[0], C64(size * n), 'fwrite')
        st.ghost['str:' + nm] = (obj, pos + size * n, mode)
        st.ghost['len:' + obj.v] = max(self.length(st, obj), pos + size * n)
        return C64(n if size else 0)

    def fread(self, ex, st, a):
        size, n = self.items(st, a[1], a[2])
        nm, (obj, pos, mode) = self.stream(st, a[3])
        if size * n:
            ex.access(a[0], size * n, st, 'fread', True) if size * n <= 64 else None
        avail = self.length(st, obj) - pos
        bad = self.fails('fread')
        got = min(n, avail // size) if size else 0
        if bad:
            got = max(0, min(got, n - 1))
        full = min(size * n, avail) if not bad else got * size
        if full:
            ex.copy(st, a[0], add(obj, C64(pos)), C64(full), 'fread')
        st.ghost['str:' + nm] = (obj, pos + full, mode)
        return C64(got)

    def fputs(self, ex, st, a):
        b = self.cstr(st, a[0])
        nm, (obj, pos, mode) = self.stream(st, a[1])
        if self.fails('fputs'):
            return C32(0xffffffff)
        ex.store_bytes(st, add(obj, C64(pos)), [const(8, x) for x in b], 'fputs')
        st.ghost['str:' + nm] = (obj, pos + len(b), mode)
        st.ghost['len:' + obj.v] = max(self.length(st, obj), pos + len(b))
        return C32(1)

    def fgets(self, ex, st, a):
        nm, (obj, pos, mode) = self.stream(st, a[2])
        n = a[1].v
        out = []
        if self.fails('fgets'):
            return C64(0)
        while len(out) < n - 1 and pos < self.length(st, obj):
            t = ex.load(st, add(obj, C64(pos)), 1)
            if t.op != 'const':
                raise sym.EngineLimit('fgets of unknown bytes')
            out.append(t)
            pos += 1
            if t.v == 10:
                break
        if not out:
            return C64(0)
        ex.store_bytes(st, a[0], out + [const(8, 0)], 'fgets')
        st.ghost['str:' + nm] = (obj, pos, mode)
        return a[0]

    def fclose(self, ex, st, a):
        nm, (obj, pos, mode) = self.stream(st, a[0])
        sym.kill(ex, st, nm)
        if mode[:1] == b'w' and self.fails('fclose'):
            return C32(0xffffffff)
        return C32(0)

    def fflush(self, ex, st, a):
        return C32(0)

    def strcmp(self, ex, st, a):
        x, y = self.cstr(st, a[0]), self.cstr(st, a[1])
        return C32(0 if x == y else 1 if x > y else 0xffffffff)

    def strncmp(self, ex, st, a):
        n = a[2].v
        x, y = self.cstr(st, a[0])[:n], self.cstr(st, a[1])[:n]
        return C32(0 if x == y else 1 if x > y else 0xffffffff)

    def memcmp(self, ex, st, a):
        n = a[2].v
        z = tm.TRUE
        for i in range(n):
            z = band(z, eq(ex.load(st, add(a[0], C64(i)), 1), ex.load(st, add(a[1], C64(i)), 1)))
        return ite(z, C32(0), tm.fresh(32, 'cmp', 1, 0x7fffffff))

    def closed(self, st):
        """every stream that was opened is closed"""
        for n in st.objs:
            if 'str:' + n in st.ghost:
                self.ex.oblige(st, const(1, 0 if st.objs[n].alive else 1), 'postcondition', 'every opened stream is closed')
