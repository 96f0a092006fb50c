"""Parser for the textual LLVM IR produced by llvm-dis (subset emitted by rustc)."""
import re, struct

# ---------------------------------------------------------------- types
# ('i',n) ('f',32|64) ('p',) ('v',n,t) ('a',n,t) ('s',(t..),packed) ('void',) ('md',) ('label',)
PTR = ('p',)
VOID = ('void',)
_size_cache = {}


def align_of(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        if n <= 8: return 1
        if n <= 16: return 2
        if n <= 32: return 4
        if n <= 64: return 8
        return 16
    if k == 'f': return t[1] // 8
    if k == 'p': return 8
    if k == 'a': return align_of(t[2])
    if k == 'v':
        return max(1, size_of(t))
    if k == 's':
        if t[2]: return 1
        return max([align_of(x) for x in t[1]] or [1])
    raise ValueError(t)


def size_of(t):
    r = _size_cache.get(t)
    if r is not None: return r
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        r = (b + a - 1) // a * a
    elif k == 'f': r = t[1] // 8
    elif k == 'p': r = 8
    elif k == 'a': r = t[1] * size_of(t[2])
    elif k == 'v':
        if t[2] == ('i', 1): r = (t[1] + 7) // 8
        else: r = t[1] * size_of(t[2])
    elif k == 's':
        o = 0
        for x in t[1]:
            if not t[2]:
                a = align_of(x)
                o = (o + a - 1) // a * a
            o += size_of(x)
        if not t[2]:
            a = align_of(t)
            o = (o + a - 1) // a * a
        r = o
    else:
        raise ValueError(t)
    _size_cache[t] = r
    return r


def struct_offsets(t):
    o = 0
    out = []
    for x in t[1]:
        if not t[2]:
            a = align_of(x)
            o = (o + a - 1) // a * a
        out.append(o)
        o += size_of(x)
    return out


TOK = re.compile(r'''
   (?P<ws>\s+|/\*.*?\*/)
 | (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<md>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>(?:f0x|0x)[KHLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?|[-+]?inf\b|[-+]?q?nan\b|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)
 | (?P<p>[(){}\[\]<>,=*:|!])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tok %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws': continue
        out.append((k, m.group()))
    return out


class Undef:
    __slots__ = ()
    def __repr__(self): return 'undef'


UNDEF = Undef()


class GlobalRef:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return '@' + self.name


class FConst:
    """float constant by bits"""
    __slots__ = ('bits', 'w')
    def __init__(self, bits, w): self.bits = bits; self.w = w


class Agg:
    __slots__ = ('elems',)
    def __init__(self, e): self.elems = e


class Bytes:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b


class ConstExpr:
    __slots__ = ('op', 'args')
    def __init__(self, op, args): self.op = op; self.args = args


class Local:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return '%' + self.name


def _unq(s):
    s = s[1:]
    if s.startswith('"'): return s[1:-1]
    return s


ATTR_WORDS = set('''noundef nonnull noalias nocapture readonly writeonly readnone zeroext signext inreg returned
 immarg nest nofree swiftself swifterror allocalign allocptr nocallback dead_on_unwind writable noext
 dead_on_return nooutline'''.split())
ATTR_PAREN = set('''align dereferenceable dereferenceable_or_null range captures sret byval memory nofpclass initializes
 elementtype preallocated inalloca byref alignstack allocsize'''.split())
CC = {'fastcc', 'coldcc', 'ccc', 'preserve_mostcc', 'preserve_allcc', 'tailcc', 'swiftcc'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SyntaxError('expected %r at %r' % (v, self.t[self.i:self.i + 8]))

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): return ('i', int(v[1:]))
            if v == 'float': return ('f', 32)
            if v == 'double': return ('f', 64)
            if v == 'half': return ('f', 16)
            if v in ('x86_fp80', 'fp128', 'bfloat'): return ('f', 128)
            if v == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
                return PTR
            if v == 'void': return VOID
            if v == 'metadata': return ('md',)
            if v == 'label': return ('label',)
            raise SyntaxError('type %r' % v)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                ts = self._tlist('}')
                self.exp('>')
                return ('s', tuple(ts), True)
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp('>')
            return ('v', n, t)
        if v == '[':
            n = int(self.next()[1])
            self.exp('x')
            t = self.type()
            self.exp(']')
            return ('a', n, t)
        if v == '{':
            return ('s', tuple(self._tlist('}')), False)
        if k == 'loc':
            return self.mod.named_types[_unq(v)]
        raise SyntaxError('type %r' % (v,))

    def _tlist(self, end):
        ts = []
        if self.acc(end): return ts
        while True:
            ts.append(self.type())
            if self.acc(end): return ts
            self.exp(',')

    def attrs(self):
        """skip parameter/return attributes; return sret type if seen"""
        while True:
            k, v = self.peek()
            if k == 'word' and v in ATTR_WORDS:
                self.next()
            elif k == 'word' and v in ATTR_PAREN:
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
                elif v == 'align':
                    self.next()
            elif k == 'str':
                self.next()
                if self.acc('='): self.next()
            elif k == 'attr':
                self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return Local(_unq(v))
        if k == 'glob': return GlobalRef(_unq(v))
        if k == 'num':
            if ty[0] == 'f':
                if v.lstrip('+-') in ('nan', 'qnan'): return FConst((0x7fc00000 if ty[1] == 32 else 0x7ff8000000000000) | (v[0] == '-') << ty[1] - 1, ty[1])
                if v in ('inf', '+inf'): return FConst(0x7f800000 if ty[1] == 32 else 0x7ff0000000000000, ty[1])
                if v == '-inf': return FConst(0xff800000 if ty[1] == 32 else 0xfff0000000000000, ty[1])
                d = float(v)
                if ty[1] == 32: return FConst(struct.unpack('<I', struct.pack('<f', d))[0], 32)
                return FConst(struct.unpack('<Q', struct.pack('<d', d))[0], 64)
            return int(v) & ((1 << ty[1]) - 1)
        if k == 'hex':
            if v.startswith('f0x'):
                return FConst(int(v[3:], 16), ty[1])
            bits = int(v[2:], 16)
            if ty[1] == 32:
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                return FConst(struct.unpack('<I', struct.pack('<f', d))[0], 32)
            return FConst(bits, 64)
        if k == 'word':
            if v == 'null': return 0
            if v == 'none': return 0
            if v == 'true': return 1
            if v == 'false': return 0
            if v in ('undef', 'poison'): return UNDEF
            if v == 'zeroinitializer': return zero_of(ty)
            if v in ('nan', 'snan', 'qnan', '+nan', '-nan'):
                if self.peek()[1] == '(':
                    while not self.acc(')'): self.next()
                return FConst(0x7fc00000 if ty[1] == 32 else 0x7ff8000000000000, ty[1])
            if v == 'pinf': return FConst(0x7f800000 if ty[1] == 32 else 0x7ff0000000000000, ty[1])
            if v == 'ninf': return FConst(0xff800000 if ty[1] == 32 else 0xfff0000000000000, ty[1])
            if v == 'splat':
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp(')')
                return Agg([x] * ty[1])
            if v in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'add', 'sub', 'xor', 'ptrtoaddr', 'mul', 'shl'):
                return self.cexpr(v)
            if v in ('blockaddress', 'dso_local_equivalent', 'asm'):
                return ConstExpr('unsupported', [v])
            raise SyntaxError('value %r' % v)
        if k == 'str' and v[0] == 'c':
            return Bytes(unescape(v[2:-1]))
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                e = self.vlist('}')
                self.exp('>')
                return Agg(e)
            return Agg(self.vlist('>'))
        if v == '{': return Agg(self.vlist('}'))
        if v == '[': return Agg(self.vlist(']'))
        raise SyntaxError('value %r %r' % (k, v))

    def vlist(self, end):
        out = []
        if self.acc(end): return out
        while True:
            t = self.type()
            out.append(self.value(t))
            if self.acc(end): return out
            self.exp(',')

    def cexpr(self, op):
        while self.peek()[0] == 'word' and self.peek()[1] in ('inbounds', 'nuw', 'nsw', 'nusw', 'inrange', 'exact'):
            self.next()
            if self.peek()[1] == '(' and self.t[self.i - 1][1] == 'inrange':
                while not self.acc(')'): self.next()
        self.exp('(')
        if op == 'getelementptr':
            t = self.type()
            self.exp(',')
            args = []
            while True:
                at = self.type()
                args.append((at, self.value(at)))
                if self.acc(')'): break
                self.exp(',')
            return ConstExpr('gep', [t, args])
        t = self.type()
        a = self.value(t)
        if self.acc('to'):
            t2 = self.type()
            self.exp(')')
            return ConstExpr(op, [t, a, t2])
        self.exp(',')
        t2 = self.type()
        b = self.value(t2)
        self.exp(')')
        return ConstExpr(op, [t, a, b])


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += c.encode('latin1')
            i += 1
    return bytes(out)


def zero_of(t):
    k = t[0]
    if k == 'i' or k == 'p': return 0
    if k == 'f': return FConst(0, t[1])
    if k in ('a', 'v'): return Agg([zero_of(t[2])] * t[1])
    if k == 's': return Agg([zero_of(x) for x in t[1]])
    raise ValueError(t)


class Func:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'lines', 'mod', 'parsed', 'header', 'varargs')


class Module:
    def __init__(self, text):
        self.named_types = {}
        self.globals = {}   # name -> raw line
        self.gcache = {}
        self.funcs = {}
        self.decls = {}
        self.alias = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            c = l[0]
            if c == 'd' and l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                f = Func()
                f.header = l
                f.lines = lines[i + 1:j]
                f.mod = self
                f.parsed = False
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                f.name = m.group(1).strip('"')
                self.funcs[f.name] = f
                i = j + 1
                continue
            if c == 'd' and l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif c == '@':
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = ', l)
                nm = m.group(1).strip('"')
                rest = l[m.end():]
                if re.match(r'(?:[a-z_]+ )*alias ', rest):
                    m2 = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*(?:,|$|!)', rest)
                    self.alias[nm] = m2.group(1).strip('"')
                else:
                    self.globals[nm] = rest
            elif c == '%' and ' = type ' in l:
                nm, r = l.split(' = type ', 1)
                self.named_types[_unq(nm.strip())] = P(tokenize(r), self).type()
            i += 1

    def global_init(self, name):
        """-> (type, value or None, is_const)"""
        r = self.gcache.get(name)
        if r is not None: return r
        raw = self.globals[name]
        p = P(tokenize(raw), self)
        const = False
        ext = False
        while True:
            k, v = p.peek()
            if v in ('constant', 'global'):
                const = v == 'constant'
                p.next()
                break
            if v in ('external', 'extern_weak'): ext = True
            p.next()
            if p.peek()[1] == '(':  # thread_local(...)
                while not p.acc(')'): p.next()
        t = p.type()
        v = None
        if not ext and p.peek()[0] is not None and p.peek()[1] != ',':
            v = p.value(t)
        r = (t, v, const)
        self.gcache[name] = r
        return r

    def get_func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.alias:
            return self.get_func(self.alias[name])
        if f is not None and not f.parsed:
            parse_func(f)
        return f


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'inbounds', 'nusw', 'volatile', 'atomic'} | FMF


def parse_func(f):
    mod = f.mod
    p = P(tokenize(f.header[:f.header.rindex('{')]), mod)
    p.exp('define')
    while True:
        k, v = p.peek()
        if k == 'word' and (v in ('internal', 'private', 'hidden', 'protected', 'dso_local', 'linkonce_odr', 'weak', 'weak_odr',
                                  'linkonce', 'external', 'available_externally', 'default', 'local_unnamed_addr') or v in CC):
            p.next()
        else:
            break
    p.attrs()
    f.ret = p.type()
    p.next()  # name
    p.exp('(')
    f.params = []
    f.varargs = False
    n = 0
    if not p.acc(')'):
        while True:
            if p.peek()[0] == 'dots':
                p.next()
                f.varargs = True
                p.exp(')')
                break
            t = p.type()
            p.attrs()
            if p.peek()[0] == 'loc':
                nm = _unq(p.next()[1])
            else:
                nm = str(n)
            n += 1
            f.params.append((t, nm))
            if p.acc(')'): break
            p.exp(',')
    # body
    blocks = {}
    cur = str(n) if True else None
    f.entry = cur
    first = True
    ins = []
    lines = f.lines
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s[0] == ';': continue
        if s.startswith('#dbg'): continue
        if not l.startswith(' '):
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            lab = m.group(1).strip('"')
            if not first or ins:
                blocks[cur] = ins
            elif first:
                f.entry = lab
            ins = []
            cur = lab
            first = False
            continue
        # multi-line: switch [ ... ] ; invoke ... to label ; landingpad clauses
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ]'
            i += 1
        elif 'invoke ' in s and i < len(lines) and lines[i].strip().startswith('to label'):
            s += ' ' + lines[i].strip()
            i += 1
        elif 'landingpad ' in s:
            while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i]):
                i += 1
            s = s.split(' = ')[0] + ' = landingpad_'
        ins.append(parse_inst(s, mod))
    blocks[cur] = ins
    f.blocks = blocks
    f.parsed = True
    f.lines = None


def parse_inst(s, mod):
    p = P(tokenize(s), mod)
    dest = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dest = _unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    fl = set()

    def flags():
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            fl.add(p.next()[1])

    if op in BINOPS or op in FBIN:
        flags()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return ('bin' if op in BINOPS else 'fbin', dest, op, t, a, b, fl)
    if op == 'fneg':
        flags()
        t = p.type()
        return ('fneg', dest, t, p.value(t))
    if op in ('icmp', 'fcmp'):
        flags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return (op, dest, pred, t, a, b)
    if op in CASTS:
        flags()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        return ('cast', dest, op, t, a, p.type(), fl)
    if op == 'select':
        flags()
        ct = p.type()
        c = p.value(ct)
        p.exp(',')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        return ('select', dest, ct, c, t, a, b)
    if op == 'phi':
        flags()
        t = p.type()
        inc = {}
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            lab = _unq(p.next()[1])
            p.exp(']')
            inc[lab] = v
            if not p.acc(','): break
            if p.peek()[0] == 'md': break
        return ('phi', dest, t, inc)
    if op == 'br':
        if p.acc('label'):
            return ('br', None, _unq(p.next()[1]))
        t = p.type()
        c = p.value(t)
        p.exp(',')
        p.exp('label')
        a = _unq(p.next()[1])
        p.exp(',')
        p.exp('label')
        b = _unq(p.next()[1])
        return ('cbr', None, c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = _unq(p.next()[1])
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type()
            cv = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((cv, _unq(p.next()[1])))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID: return ('ret', None, None, None)
        return ('ret', None, t, p.value(t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'load':
        at = p.peek()[1] == 'atomic'
        flags()
        t = p.type()
        p.exp(',')
        pt = p.type()
        return ('aload' if at else 'load', dest, t, p.value(pt))
    if op == 'store':
        at = p.peek()[1] == 'atomic'
        flags()
        t = p.type()
        v = p.value(t)
        p.exp(',')
        pt = p.type()
        return ('astore' if at else 'store', None, t, v, p.value(pt))
    if op == 'alloca':
        t = p.type()
        n = 1
        nt = None
        if p.acc(','):
            if p.peek()[1] != 'align':
                nt = p.type()
                n = p.value(nt)
        return ('alloca', dest, t, n)
    if op == 'getelementptr':
        flags()
        t = p.type()
        p.exp(',')
        bt = p.type()
        base = p.value(bt)
        idx = []
        while p.acc(','):
            if p.peek()[0] == 'md': break
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dest, t, bt, base, idx)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        ix = []
        while p.acc(','):
            if p.peek()[0] == 'md': break
            ix.append(int(p.next()[1]))
        return ('extractvalue', dest, v, ix)
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        ix = []
        while p.acc(','):
            if p.peek()[0] == 'md': break
            ix.append(int(p.next()[1]))
        return ('insertvalue', dest, t, v, e, ix)
    if op == 'extractelement':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        it = p.type()
        return ('extractelement', dest, v, p.value(it))
    if op == 'insertelement':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        p.exp(',')
        it = p.type()
        return ('insertelement', dest, t, v, e, p.value(it))
    if op == 'shufflevector':
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        p.exp(',')
        mt = p.type()
        m = p.value(mt)
        return ('shufflevector', dest, t, a, b, m)
    if op in ('call', 'invoke'):
        flags()
        while p.peek()[1] in CC or p.peek()[1] in FMF: p.next()
        p.attrs()
        rt = p.type()
        if p.peek()[1] == '(':   # function type
            d = 0
            while True:
                x = p.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        k, v = p.peek()
        if v == 'asm':
            return ('asm', dest, rt, s)
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                t = p.type()
                if t == ('md',):
                    d = 0
                    # skip metadata operand
                    while True:
                        x = p.peek()[1]
                        if d == 0 and x in (',', ')'): break
                        if x in '({[<': d += 1
                        if x in ')}]>': d -= 1
                        p.next()
                    args.append((t, UNDEF))
                else:
                    p.attrs()
                    args.append((t, p.value(t)))
                if p.acc(')'): break
                p.exp(',')
        if op == 'invoke':
            while p.peek()[1] != 'to': p.next()
            p.next()
            p.exp('label')
            return ('call', dest, rt, callee, args, _unq(p.next()[1]))
        return ('call', dest, rt, callee, args, None)
    if op == 'freeze':
        t = p.type()
        return ('freeze', dest, t, p.value(t))
    if op == 'atomicrmw':
        flags()
        aop = p.next()[1]
        pt = p.type()
        ptr = p.value(pt)
        p.exp(',')
        t = p.type()
        return ('atomicrmw', dest, aop, ptr, t, p.value(t))
    if op == 'cmpxchg':
        if p.acc('weak'): pass
        flags()
        p.acc('weak')
        flags()
        pt = p.type()
        ptr = p.value(pt)
        p.exp(',')
        t = p.type()
        c = p.value(t)
        p.exp(',')
        t2 = p.type()
        n = p.value(t2)
        return ('cmpxchg', dest, ptr, t, c, n)
    if op == 'fence': return ('nop', None)
    if op == 'landingpad_': return ('landingpad', dest)
    if op == 'resume': return ('resume', None)
    return ('unsupported', dest, s)
