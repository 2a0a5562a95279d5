"""Front end: compiles /repo's C sources to LLVM IR with clang (no optimisation other than
promotion of scalar locals to SSA form and CFG clean-up) and parses the IR text."""
import re, os, subprocess, hashlib, struct as _struct

CLANG = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, '..', 'stubs')
INC = ['-I' + REPO + '/include', '-I' + REPO + '/WBMatrix/include', '-I' + STUBS]


class FrontEndError(Exception):
    pass


def compile_ir(src, out, extra=()):
    cmd = [CLANG, '-std=c99', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-w', '-fcommon'] + INC + list(extra) + ['-S', '-emit-llvm', src, '-o', out + '0']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FrontEndError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
    r = subprocess.run([OPT, '-S', '-passes=mem2reg,simplifycfg', out + '0', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise FrontEndError('opt failed on %s:\n%s' % (src, r.stderr[-2000:]))
    os.unlink(out + '0')


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', '_sz', '_al', '_off')

    def __init__(self, k, n=0, el=None, fields=None, packed=False):
        self.k, self.n, self.el, self.fields, self.packed = k, n, el, fields, packed
        self._sz = None
        self._off = None


PTR = Ty('ptr')
VOID = Ty('void')


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.files = {}

    def align(self, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return t.n // 8 if t.n < 80 else 16
        if t.k == 'arr' or t.k == 'vec':
            return self.align(t.el)
        if t.k == 'named':
            return self.align(self.structs[t.n])
        if t.k == 'struct':
            if t.packed or not t.fields:
                return 1
            return max(self.align(f) for f in t.fields)
        raise FrontEndError('align ' + t.k)

    def size(self, t):
        if t._sz is not None:
            return t._sz
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = self.align(t)
            r = (b + a - 1) // a * a
        elif t.k == 'ptr':
            r = 8
        elif t.k == 'fp':
            r = t.n // 8 if t.n < 80 else 16
        elif t.k in ('arr', 'vec'):
            r = t.n * self.size(t.el)
        elif t.k == 'named':
            r = self.size(self.structs[t.n])
        elif t.k == 'struct':
            self.offsets(t)
            r = t._sz
        else:
            raise FrontEndError('size ' + t.k)
        t._sz = r
        return r

    def offsets(self, t):
        if t.k == 'named':
            return self.offsets(self.structs[t.n])
        if t._off is None:
            o = 0
            offs = []
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(f)
            a = self.align(t)
            t._off = offs
            t._sz = (o + a - 1) // a * a
        return t._off

    def resolve(self, t):
        while t.k == 'named':
            t = self.structs[t.n]
        return t


# ------------------------------------------------------------------ tokenizer
_tok = re.compile(r'''\s*(?:
 (c"(?:[^"\\]|\\.)*")|          # c string
 ([%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")|  # ids
 (-?\d+\.\d+e[+-]?\d+|0x[KLMHR]?[0-9A-Fa-f]+)|   # fp
 (-?\d+)|
 ([a-zA-Z_][a-zA-Z0-9_.]*)|
 (\.\.\.|[][(){}<>,=*:!\#|"])
)''', re.X)


class Lex:
    def __init__(self, s):
        self.t = []
        pos = 0
        n = len(s)
        while pos < n:
            m = _tok.match(s, pos)
            if not m:
                if s[pos:].strip() == '':
                    break
                raise FrontEndError('lex: ' + s[pos:pos + 60])
            self.t.append(m.group(m.lastindex))
            pos = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise FrontEndError('expected %s got %s in %s' % (x, y, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))


ATTR = {'noundef', 'nocapture', 'readonly', 'writeonly', 'zeroext', 'signext', 'noalias', 'nonnull', 'immarg', 'returned', 'readnone', 'inreg', 'nofree',
        'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'external', 'common', 'linkonce_odr', 'hidden', 'weak', 'inbounds',
        'nuw', 'nsw', 'exact', 'tail', 'musttail', 'notail', 'volatile', 'fastcc', 'ccc', 'nneg', 'disjoint', 'dso_preemptable', 'noinline', 'optnone', 'mustprogress'}


def parse_type(lx):
    t = lx.next()
    if t == 'void':
        r = VOID
    elif t == 'ptr':
        r = PTR
    elif t[0] == 'i' and t[1:].isdigit():
        r = Ty('int', int(t[1:]))
    elif t == 'double':
        r = Ty('fp', 64)
    elif t == 'float':
        r = Ty('fp', 32)
    elif t == 'x86_fp80':
        r = Ty('fp', 80)
    elif t == '[':
        n = int(lx.next())
        lx.expect('x')
        el = parse_type(lx)
        lx.expect(']')
        r = Ty('arr', n, el)
    elif t == '<':
        if lx.peek() == '{':
            lx.next()
            fs = []
            while not lx.accept('}'):
                fs.append(parse_type(lx))
                lx.accept(',')
            lx.expect('>')
            r = Ty('struct', fields=fs, packed=True)
        else:
            n = int(lx.next())
            lx.expect('x')
            el = parse_type(lx)
            lx.expect('>')
            r = Ty('vec', n, el)
    elif t == '{':
        fs = []
        while not lx.accept('}'):
            fs.append(parse_type(lx))
            lx.accept(',')
        r = Ty('struct', fields=fs)
    elif t[0] == '%':
        r = Ty('named', t)
    elif t in ('label', 'metadata', 'opaque', 'token'):
        r = Ty(t)
    else:
        raise FrontEndError('type ' + t + ' in ' + ' '.join(lx.t[max(0, lx.i - 5):lx.i + 10]))
    # function type suffix:  i32 (ptr, ...)
    if lx.peek() == '(' and r.k in ('void', 'int', 'ptr', 'fp', 'named', 'struct') and _is_fnty(lx):
        d = 0
        while True:
            x = lx.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        r2 = Ty('fn')
        r2.el = r
        return r2
    return r


def _is_fnty(lx):
    # only used in call instructions: "i32 (ptr, ...) @printf("
    d = 0
    j = lx.i
    while j < len(lx.t):
        if lx.t[j] == '(':
            d += 1
        elif lx.t[j] == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    nx = lx.t[j + 1] if j + 1 < len(lx.t) else None
    return nx is not None and nx[0] in '@%' and j + 2 < len(lx.t) and lx.t[j + 2] == '('


def skip_attrs(lx):
    """skip parameter/return attributes; returns byval type if present"""
    byval = None
    sret = None
    while True:
        t = lx.peek()
        if t in ATTR:
            lx.next()
        elif t == 'align':
            lx.next()
            if lx.peek() == '(':
                lx.next(); lx.next(); lx.expect(')')
            else:
                lx.next()
        elif t in ('byval', 'sret', 'elementtype', 'byref', 'preallocated'):
            lx.next()
            lx.expect('(')
            ty = parse_type(lx)
            lx.expect(')')
            if t == 'byval':
                byval = ty
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'range', 'captures', 'initializes', 'allocsize'):
            lx.next()
            d = 0
            while True:
                x = lx.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        elif t == '#':
            lx.next()
            lx.next()
        else:
            return byval


def parse_val(lx, ty):
    """operand value of known type -> ('c',int) ('id',name) ('g',name) ('agg',[...]) ('str',bytes) ('undef',) ('zero',) ('gep',...) ('null',) ('fp',float)"""
    t = lx.next()
    if t[0] == '%':
        return ('id', t)
    if t[0] == '@':
        return ('g', t)
    if t in ('true', 'false'):
        return ('c', 1 if t == 'true' else 0)
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t.startswith('c"'):
        b = bytearray()
        s = t[2:-1]
        i = 0
        while i < len(s):
            if s[i] == '\\' and s[i + 1] == '\\':
                b.append(0x5c)
                i += 2
            elif s[i] == '\\':
                b.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                b += s[i].encode('latin1')
                i += 1
        return ('str', bytes(b))
    if t in ('[', '{', '<'):
        if t == '<' and lx.peek() == '{':
            lx.next()
            t = '<{'
        cl = {'[': ']', '{': '}', '<': '>', '<{': '}'}[t]
        el = []
        while not lx.accept(cl):
            ety = parse_type(lx)
            el.append((ety, parse_val(lx, ety)))
            lx.accept(',')
        if t == '<{':
            lx.expect('>')
        return ('agg', el)
    if t == 'getelementptr':
        while lx.peek() in ATTR:
            lx.next()
        lx.expect('(')
        sty = parse_type(lx)
        lx.expect(',')
        ops = []
        while True:
            while lx.peek() in ('inrange',):
                lx.next()
            oty = parse_type(lx)
            ops.append((oty, parse_val(lx, oty)))
            if not lx.accept(','):
                break
        lx.expect(')')
        return ('gep', sty, ops)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        lx.expect('(')
        f = parse_type(lx)
        v = parse_val(lx, f)
        lx.expect('to')
        to = parse_type(lx)
        lx.expect(')')
        return ('cast', t, f, v, to)
    if ty.k == 'fp':
        if t.startswith('0x'):
            return ('fp', _struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0] if not t[2] in 'KLMHR' else None)
        return ('fp', float(t))
    try:
        return ('c', int(t))
    except ValueError:
        raise FrontEndError('value ' + t + ' in ' + ' '.join(lx.t[max(0, lx.i - 6):lx.i + 6]))


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'line')

    def __init__(self, op, res, ty, a, flags=()):
        self.op, self.res, self.ty, self.a, self.flags = op, res, ty, a, flags


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'preds', 'succs')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.blocks = {}
        self.order = []
        self.ret = None
        self.file = None
        self.text = None


def _strip(s):
    # strip metadata and attribute-group references
    i = s.find(', !')
    if i >= 0 and '"' not in s[i:]:
        s = s[:i]
    s = re.sub(r' #\d+(?=$|\s|,)', '', s)
    return s


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}


def parse_ins(line):
    s = _strip(line.strip())
    lx = Lex(s)
    res = None
    if lx.peek()[0] == '%' and lx.peek(1) == '=':
        res = lx.next()
        lx.next()
    op = lx.next()
    while op in ('tail', 'musttail', 'notail'):
        op = lx.next()
    if op in BIN:
        fl = []
        while lx.peek() in ATTR or lx.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl.append(lx.next())
        ty = parse_type(lx)
        a = parse_val(lx, ty)
        lx.expect(',')
        b = parse_val(lx, ty)
        return Ins(op, res, ty, (a, b), tuple(fl))
    if op in CAST:
        while lx.peek() in ATTR:
            lx.next()
        f = parse_type(lx)
        v = parse_val(lx, f)
        lx.expect('to')
        to = parse_type(lx)
        return Ins(op, res, to, (f, v))
    if op == 'alloca':
        ty = parse_type(lx)
        cnt = (Ty('int', 32), ('c', 1))
        if lx.accept(','):
            if lx.peek() == 'align':
                pass
            else:
                cty = parse_type(lx)
                cnt = (cty, parse_val(lx, cty))
        return Ins(op, res, ty, cnt)
    if op == 'load':
        while lx.peek() in ATTR or lx.peek() == 'atomic':
            lx.next()
        ty = parse_type(lx)
        lx.expect(',')
        pt = parse_type(lx)
        return Ins(op, res, ty, parse_val(lx, pt))
    if op == 'store':
        at = False
        while lx.peek() in ATTR or lx.peek() == 'atomic':
            at |= lx.next() == 'atomic'
        ty = parse_type(lx)
        v = parse_val(lx, ty)
        lx.expect(',')
        pt = parse_type(lx)
        return Ins(op, None, ty, (v, parse_val(lx, pt), at))
    if op == 'getelementptr':
        while lx.peek() in ATTR:
            lx.next()
        sty = parse_type(lx)
        lx.expect(',')
        ops = []
        while True:
            oty = parse_type(lx)
            ops.append((oty, parse_val(lx, oty)))
            if not lx.accept(','):
                break
        return Ins('gep', res, sty, ops)
    if op in ('icmp', 'fcmp'):
        pred = lx.next()
        ty = parse_type(lx)
        a = parse_val(lx, ty)
        lx.expect(',')
        b = parse_val(lx, ty)
        return Ins(op, res, ty, (pred, a, b))
    if op == 'br':
        if lx.peek() == 'label':
            lx.next()
            return Ins('br', None, None, (lx.next(),))
        ty = parse_type(lx)
        c = parse_val(lx, ty)
        lx.expect(',')
        lx.expect('label')
        x = lx.next()
        lx.expect(',')
        lx.expect('label')
        y = lx.next()
        return Ins('cbr', None, None, (c, x, y))
    if op == 'ret':
        ty = parse_type(lx)
        if ty.k == 'void':
            return Ins('ret', None, ty, None)
        return Ins('ret', None, ty, parse_val(lx, ty))
    if op == 'unreachable':
        return Ins('unreachable', None, None, None)
    if op == 'phi':
        ty = parse_type(lx)
        inc = []
        while True:
            lx.expect('[')
            v = parse_val(lx, ty)
            lx.expect(',')
            b = lx.next()
            lx.expect(']')
            inc.append((v, b))
            if not lx.accept(','):
                break
        return Ins('phi', res, ty, inc)
    if op == 'select':
        cty = parse_type(lx)
        c = parse_val(lx, cty)
        lx.expect(',')
        ty = parse_type(lx)
        a = parse_val(lx, ty)
        lx.expect(',')
        ty = parse_type(lx)
        b = parse_val(lx, ty)
        return Ins('select', res, ty, (c, a, b))
    if op == 'call':
        skip_attrs(lx)
        ty = parse_type(lx)
        if ty.k == 'fn':
            ty = ty.el
        callee = lx.next()
        if callee == 'asm':
            raise FrontEndError('inline asm')
        lx.expect('(')
        args = []
        while not lx.accept(')'):
            aty = parse_type(lx)
            bv = skip_attrs(lx)
            if aty.k == 'metadata':
                # skip
                d = 0
                while lx.peek() not in (',', ')'):
                    lx.next()
                lx.accept(',')
                continue
            v = parse_val(lx, aty)
            args.append((aty, v, bv))
            lx.accept(',')
        return Ins('call', res, ty, (callee, args))
    if op == 'switch':
        ty = parse_type(lx)
        v = parse_val(lx, ty)
        lx.expect(',')
        lx.expect('label')
        d = lx.next()
        lx.expect('[')
        cases = []
        while not lx.accept(']'):
            cty = parse_type(lx)
            cv = parse_val(lx, cty)
            lx.expect(',')
            lx.expect('label')
            cases.append((cv, lx.next()))
        return Ins('switch', None, ty, (v, d, cases))
    if op == 'freeze':
        ty = parse_type(lx)
        return Ins('freeze', res, ty, parse_val(lx, ty))
    if op == 'extractvalue':
        ty = parse_type(lx)
        v = parse_val(lx, ty)
        idx = []
        while lx.accept(','):
            idx.append(int(lx.next()))
        return Ins(op, res, ty, (v, idx))
    if op == 'insertvalue':
        ty = parse_type(lx)
        v = parse_val(lx, ty)
        lx.expect(',')
        ety = parse_type(lx)
        e = parse_val(lx, ety)
        idx = []
        while lx.accept(','):
            idx.append(int(lx.next()))
        return Ins(op, res, ty, (v, ety, e, idx))
    if op == 'fneg':
        ty = parse_type(lx)
        return Ins(op, res, ty, parse_val(lx, ty))
    raise FrontEndError('instruction ' + op)


class LazyFunc:
    """function whose body is parsed at first use"""


def parse_module(text, mod, fname, only=None):
    """adds to mod. Internal (static) symbols that clash get file-qualified names."""
    pre0 = re.sub(r'\W', '_', fname)
    text = re.sub(r'%((?:struct|union)\.anon[.0-9]*)', lambda m: '%' + m.group(1) + '..' + pre0, text)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    # pass 1: find internal symbol names to rename on clash
    ren = {}
    pre = re.sub(r'\W', '_', os.path.basename(fname))
    sren = {}
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            ty = rest.strip()
            if ty != 'opaque':
                t = parse_type(Lex(ty))
                mod.structs.setdefault(nm, t)
                # struct names could clash across files with different layout: qualify
                if mod.structs[nm] is not t and not _same(mod.structs[nm], t):
                    raise FrontEndError('struct clash ' + nm)
            i += 1
        elif l.startswith('@'):
            m = re.match(r'(@[-\w$.]+|@"[^"]*") = (.*)$', l)
            nm, rest = m.group(1), m.group(2)
            internal = ' internal ' in ' ' + rest[:60] or ' private ' in ' ' + rest[:60]
            key = nm
            if internal:
                key = '@' + pre + '::' + nm[1:]
                ren[nm] = key
            rest = _strip(rest)
            isconst = re.search(r'\bconstant\b', rest[:120]) is not None
            ext = rest.startswith('external')
            lx = Lex(re.sub(r'^(?:(?:private|internal|common|external|dso_local|unnamed_addr|local_unnamed_addr|constant|global|hidden|weak|linkonce_odr|thread_local(?:\([a-z]+\))?)\s+)+', '', rest))
            ty = parse_type(lx)
            init = None
            if not ext:
                init = parse_val(lx, ty)
            old = mod.globals.get(key)
            if old is None or (old[1] is None):
                mod.globals[key] = (ty, init, isconst, fname)
            i += 1
        elif l.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            hdr = l
            m = re.search(r'(@[-\w$.]+|@"[^"]*")\(', hdr)
            nm = m.group(1)
            internal = re.match(r'define (?:dso_local )?internal ', hdr) is not None
            key = nm
            if internal:
                key = '@' + pre + '::' + nm[1:]
                ren[nm] = key
            f = Func(key)
            f.file = fname
            f.hdr = hdr
            f.text = lines[i + 1:j]
            f.ren = ren
            mod.funcs[key] = f
            i = j + 1
        elif l.startswith('declare '):
            m = re.search(r'(@[-\w$.]+|@"[^"]*")\(', l)
            mod.decls[m.group(1)] = l
            i += 1
        else:
            i += 1


def _same(a, b):
    if a.k != b.k or a.n != b.n or a.packed != b.packed:
        return False
    if (a.el is None) != (b.el is None):
        return False
    if a.el is not None and not _same(a.el, b.el):
        return False
    if (a.fields is None) != (b.fields is None):
        return False
    if a.fields is not None:
        return len(a.fields) == len(b.fields) and all(_same(x, y) for x, y in zip(a.fields, b.fields))
    return True


def find(mod, name):
    """key of a function; a file-local one is found by its plain name"""
    if name not in mod.funcs:
        c = [k for k in mod.funcs if k.endswith('::' + name[1:])]
        if len(c) == 1:
            return c[0]
    return name


def load_func(f):
    """parse the body of a Func"""
    if f.order:
        return f
    hdr = f.hdr
    k = hdr.index('(', hdr.index('@'))
    lx = Lex(_strip(hdr[k:].rstrip('{ ').strip()))
    lx.expect('(')
    cnt = 0
    while not lx.accept(')'):
        if lx.peek() == '...':
            lx.next()
            continue
        ty = parse_type(lx)
        bv = skip_attrs(lx)
        if lx.peek() and lx.peek()[0] == '%':
            nm = lx.next()
        else:
            nm = '%%%d' % cnt
        cnt += 1
        f.params.append((ty, nm, bv))
        lx.accept(',')
    # return type
    r = hdr[len('define '):hdr.index('@')]
    r = re.sub(r'\b(dso_local|internal|noundef|zeroext|signext|noalias|nonnull|hidden|linkonce_odr|weak)\b', '', r)
    f.ret = parse_type(Lex(r.strip()))
    cur = None
    buf = None
    lines = []
    for l in f.text:
        if buf is not None:
            buf += ' ' + l.strip()
            if l.strip() == ']':
                lines.append(buf)
                buf = None
            continue
        if re.match(r'\s+switch .*\[$', l):
            buf = l
            continue
        lines.append(l)
    for l in lines:
        if not l.strip() or l.lstrip().startswith(';'):
            continue
        m = re.match(r'^([-\w$.]+|"[^"]*"):', l)
        if m:
            cur = Block('%' + m.group(1))
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block('%entry0')
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        if 'llvm.dbg' in l:
            continue
        ins = parse_ins(l)
        if ins.op == 'phi':
            cur.phis.append(ins)
        elif ins.op in ('br', 'cbr', 'ret', 'unreachable', 'switch'):
            cur.term = ins
        else:
            cur.ins.append(ins)
    for b in f.blocks.values():
        t = b.term
        if t.op == 'br':
            b.succs = [t.a[0]]
        elif t.op == 'cbr':
            b.succs = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succs = [t.a[1]] + [x for _, x in t.a[2]]
        else:
            b.succs = []
        b.preds = []
    for b in f.blocks.values():
        for s in dict.fromkeys(b.succs):
            f.blocks[s].preds.append(b.name)
    _analyse(f)
    f.text = None
    return f


def _analyse(f):
    """dominators, post-dominators, natural loops"""
    entry = f.order[0]
    names = f.order
    idx = {b: i for i, b in enumerate(names)}
    # reverse post order
    seen = set()
    po = []

    def dfs(r):
        st = [(r, iter(f.blocks[r].succs))]
        seen.add(r)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                po.append(b)
                st.pop()
    dfs(entry)
    rpo = po[::-1]
    dom = {entry: {entry}}
    allb = set(rpo)
    for b in rpo[1:]:
        dom[b] = set(allb)
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in f.blocks[b].preds if p in dom]
            nd = set.intersection(*ps) | {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    f.dom = dom
    # post dominators with a virtual exit
    EX = None
    succ = {b: list(f.blocks[b].succs) or [EX] for b in rpo}
    pd = {EX: {EX}}
    full = allb | {EX}
    for b in rpo:
        pd[b] = set(full)
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            ss = [pd[s] for s in succ[b]]
            nd = set.intersection(*ss) | {b}
            if nd != pd[b]:
                pd[b] = nd
                ch = True
    ipd = {}
    for b in rpo:
        c = pd[b] - {b}
        best = None
        for x in c:
            # immediate: the one post-dominated by all others
            if x is EX:
                continue
            if all((y in pd[x]) for y in c):
                best = x
                break
        ipd[b] = best
    f.ipd = ipd
    # loops
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(f.blocks[x].preds)
    f.loops = loops


def load_repo(files, workdir, extra=(), defs=None):
    """compile the given repo-relative files (in parallel) into one Module"""
    os.makedirs(workdir, exist_ok=True)
    procs = []
    from concurrent.futures import ThreadPoolExecutor

    def one(f):
        out = os.path.join(workdir, f.replace('/', '_') + '.ll')
        compile_ir(os.path.join(REPO, f), out, extra)
        return f, out
    mod = Module()
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, files))
    for f, out in rs:
        with open(out) as fh:
            parse_module(fh.read(), mod, f)
    return mod


def lib_sources(exclude=()):
    import glob
    fs = []
    for pat in ('WBMatrix/src/*.c', 'src/*/*.c'):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            r = os.path.relpath(p, REPO)
            if r not in exclude:
                fs.append(r)
    return fs
