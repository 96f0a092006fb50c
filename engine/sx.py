"""Symbolic executor for LLVM IR, exact-real floating-point domain."""
import sys, re, time, struct, math
from fractions import Fraction
import ll, solve
import terms as T
from terms import Node, Cond, Unsupported
from ll import Local, GlobalRef, FConst, Agg, Bytes, ConstExpr, UNDEF

sys.setrecursionlimit(100000)
NAN, PINF, NINF, NZERO = 'nan', 'inf', '-inf', '-0'


class Fork(Exception):
    def __init__(self, cond): self.cond = cond


class PathEnd(Exception):
    def __init__(self, kind, info=''): self.kind = kind; self.info = info


class Obj:
    __slots__ = ('size', 'base', 'cells', 'kind')

    def __init__(self, size, base=None, kind='heap'):
        self.size = size
        self.base = base          # bytes/bytearray or None (zeros)
        self.cells = {}           # off -> (size, value, tag)   tag 'f'|'i'
        self.kind = kind

    def clone(self):
        o = Obj(self.size, None if self.base is None else bytearray(self.base), self.kind)
        o.cells = dict(self.cells)
        return o


class Pieces:
    """integer assembled from consecutive little-endian parts: list of (bits, value, tag)"""
    __slots__ = ('parts',)

    def __init__(self, parts): self.parts = parts


class SBits:
    """bit pattern of a (symbolic) float value"""
    __slots__ = ('f', 'w')

    def __init__(self, f, w): self.f = f; self.w = w


class Frame:
    __slots__ = ('fn', 'block', 'idx', 'prev', 'regs', 'dest', 'cont', 'allocas', 'ins', 'rett')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.dest = self.dest
        f.cont = self.cont
        f.allocas = list(self.allocas)
        f.ins = self.ins
        f.rett = self.rett
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.own = set()
        self.frames = []
        self.pc = []
        self.facts = {}
        self.bnds = {}
        self.next = 1
        self.steps = 0
        self.reached = set()
        self.loops = {}
        self.panic_ok = False
        self.inputs = {}
        self.events = []
        self.user = {}
        self.thr = None            # threads (engine/threads.py), None while there is only one
        self.cur = 0
        self.granted = False
        self.must = None
        self.nsched = 0
        self.spin = None
        self.pauses = 0
        self.preempts = 0

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.facts = dict(self.facts)
        s.bnds = dict(self.bnds)
        s.next = self.next
        s.steps = self.steps
        s.reached = set(self.reached)
        s.panic_ok = self.panic_ok
        s.inputs = dict(self.inputs)
        s.events = list(self.events)
        s.user = dict(self.user)
        s.cur, s.granted, s.must, s.nsched, s.preempts, s.spin, s.pauses = self.cur, self.granted, self.must, self.nsched, self.preempts, self.spin, self.pauses
        if self.thr is not None:
            s.thr = [t.copy() for t in self.thr]
            s.frames = s.thr[s.cur].frames
        return s

    # ---- facts
    _LIN = {}

    @staticmethod
    def lin(c):
        """p op 0 as R compared with a constant: (key of R, positive factor?, constant)"""
        r = State._LIN.get(c.id)
        if r is None:
            r = ()
            p = c.p
            if len(p) <= 8 and (len(p) > 1 or () not in p):
                m0 = min(m for m in p if m)
                k = p[m0]
                r = (frozenset((m, Fraction(v) / k) for m, v in p.items() if m), k > 0, -Fraction(p.get((), 0)) / k)
            State._LIN[c.id] = r
        return r

    def by_bounds(self, c):
        """truth of p op 0 from the bounds known for this path"""
        l = self.lin(c)
        if not l: return None
        b = self.bnds.get(l[0])
        if b is None: return None
        lo, ls, hi, hs = b
        k = l[2]
        if c.op in ('=', '!='):
            if lo is not None and (lo > k or lo == k and ls) or hi is not None and (hi < k or hi == k and hs): return c.op == '!='
            return None
        st = c.op == '>'
        if not l[1]: lo, ls, hi, hs, k = (None if hi is None else -hi), hs, (None if lo is None else -lo), ls, -k
        # R > k or R >= k
        if lo is not None and (lo > k or lo == k and (ls or not st)): return True
        if hi is not None and (hi < k or hi == k and (hs or st)): return False
        return None

    def learn_bounds(self, c):
        l = self.lin(c)
        if not l: return
        lo, ls, hi, hs = self.bnds.get(l[0], (None, False, None, False))
        k = l[2]
        if (c.op == '=' or l[1]) and (lo is None or k > lo or k == lo and c.op == '>'): lo, ls = k, c.op == '>'
        if (c.op == '=' or not l[1]) and (hi is None or k < hi or k == hi and c.op == '>'): hi, hs = k, c.op == '>'
        self.bnds[l[0]] = (lo, ls, hi, hs)

    def known(self, c):
        if c is True or c is False: return c
        f = self.facts
        if c.id in f: return True
        n = T.c_not(c)
        if n is True or n is False: return not n
        if n.id in f: return False
        if c.op == 'and':
            ks = [self.known(a) for a in c.args]
            if all(k is True for k in ks): return True
            if any(k is False for k in ks): return False
        elif c.op == 'or':
            ks = [self.known(a) for a in c.args]
            if any(k is True for k in ks): return True
            if all(k is False for k in ks): return False
        elif c.op in ('>', '>=', '=', '!='): return self.by_bounds(c)
        return None

    def learn(self, c):
        if c is True: return
        if c is False: raise PathEnd('infeasible')
        if c.id in self.facts: return
        self.facts[c.id] = True
        if c.op in ('>', '>=', '='): self.learn_bounds(c)
        if c.op == 'and':
            for a in c.args: self.learn(a)
        elif c.op == '>':
            self.learn(T.cond_poly('>=', c.p))
            self.learn(T.cond_poly('!=', c.p))
        elif c.op == '=':
            self.learn(T.cond_poly('>=', c.p))
            self.learn(T.cond_poly('>=', T.pscale(c.p, -1)))
        elif c.op == '>=':
            # p>=0 and p!=0  =>  p>0
            ne = T.cond_poly('!=', c.p)
            if ne is not True and ne is not False and ne.id in self.facts:
                g = T.cond_poly('>', c.p)
                if g is not True and g is not False and g.id not in self.facts:
                    self.facts[g.id] = True
        elif c.op == '!=':
            for p in (c.p, T.pscale(c.p, -1)):
                ge = T.cond_poly('>=', p)
                if ge is True or (ge is not False and ge.id in self.facts):
                    g = T.cond_poly('>', p)
                    if g is not True and g is not False and g.id not in self.facts:
                        self.facts[g.id] = True
        elif c.op == 'or':
            live = [a for a in c.args if self.known(a) is not False]
            if len(live) == 1: self.learn(live[0])

    def add_pc(self, c):
        if c is True: return
        if c is False: raise PathEnd('infeasible')
        if self.known(c) is True: return
        self.pc.append(c)
        self.learn(c)
        if c.op == '=' and len(c.p) == 1:
            # a vanishing root of a sum of squares: every square vanishes
            (m, _), = c.p.items()
            if len(m) == 1:
                d = T.ATOMS[m[0][0]].data
                if type(d) is tuple and d[0] == 'squares':
                    for p in d[1]: self.add_pc(T.cond_poly('=', p))


PANIC_RE = re.compile(r'(9panicking\d+(?:panic|assert_failed|unreachable)|9panicking\d+begin_panic|rust_panic|panic_fmt|unwrap_failed|expect_failed|capacity_overflow|handle_alloc_error|17rust_begin_unwind|panic_cannot_unwind|panic_nounwind|slice_error_fail|_fail$|panic_access_error)')
ALLOC_RE = re.compile(r'(?:___rust_alloc|___rdl_alloc|___rg_alloc)$')
ALLOCZ_RE = re.compile(r'(?:___rust_alloc_zeroed|___rdl_alloc_zeroed)$')
DEALLOC_RE = re.compile(r'(?:___rust_dealloc|___rdl_dealloc)$')
REALLOC_RE = re.compile(r'(?:___rust_realloc|___rdl_realloc)$')
EPRINT_RE = re.compile(r'2io5stdio\d+_+e?print$')


def f32_bits_to_val(b):
    if b == 0x80000000: return NZERO
    e = (b >> 23) & 0xff
    if e == 0xff:
        if b & 0x7fffff: return NAN
        return NINF if b >> 31 else PINF
    return Fraction(struct.unpack('<f', struct.pack('<I', b))[0])


def f64_bits_to_val(b):
    if b == 1 << 63: return NZERO
    e = (b >> 52) & 0x7ff
    if e == 0x7ff:
        if b & ((1 << 52) - 1): return NAN
        return NINF if b >> 63 else PINF
    return Fraction(struct.unpack('<d', struct.pack('<Q', b))[0])


def bits_to_val(b, w): return f32_bits_to_val(b) if w == 32 else f64_bits_to_val(b)


def val_to_bits(v, w):
    if v == NAN: return 0x7fc00000 if w == 32 else 0x7ff8000000000000
    if v == PINF: return 0x7f800000 if w == 32 else 0x7ff0000000000000
    if v == NINF: return 0xff800000 if w == 32 else 0xfff0000000000000
    if v == NZERO: return 1 << (w - 1)
    d = float(v)
    if w == 64: return struct.unpack('<Q', struct.pack('<d', d))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        return 0x7f800000 if d > 0 else 0xff800000


def isspec(v): return type(v) is str


_ANYS = {}


def any_of(*k):
    """a float about which nothing is known (over-approximation), identified by how it was made"""
    k = tuple(('n', x.id) if isinstance(x, Node) else x for x in k)
    return _ANYS.setdefault(k, 'any%d' % len(_ANYS))


def isany(v): return type(v) is str and v.startswith('any')


TINY = Fraction(1, 1 << 140)


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.o = dict(fork_abs=False, fork_minmax=False, fork_select=True, feas_ms=300, prove_ms=20000,
                      max_steps=3000000, max_paths=20000, max_fork_depth=4000, div_nonzero=False, real_trig=True,
                      deadline=None, lazy_feas=False, junk_div=True, round_int=False)
        if opts: self.o.update(opts)
        self.gaddr = {}
        self.addrg = {}
        self.kc = {}
        self.funcs_used = set()
        self.fn_cache = {}
        self.gid = 1 << 20
        self.st = None
        self.intr = {}
        self.overrides = {}
        self.uid = 0
        self.deref_cache = {}
        self.input_atoms = {}     # input key -> atom
        self.path_count = 0

    # ---------------------------------------------------------------- globals / addresses
    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is None:
            while name in self.mod.alias: name = self.mod.alias[name]
            a = self.gaddr.get(name)
            if a is None:
                self.gid += 1
                a = self.gid << 32
                self.gaddr[name] = a
                self.addrg[self.gid] = name
        return a

    def load_global(self, st, oid):
        name = self.addrg.get(oid)
        if name is None or name not in self.mod.globals:
            raise Unsupported('bad pointer object %x %s' % (oid, name))
        t, v, const = self.mod.global_init(name)
        size = ll.size_of(t)
        o = Obj(size, bytearray(size), 'global')
        if v is not None: self.init_const(o, 0, t, v)
        st.mem[oid] = o
        st.own.add(oid)
        return o

    def init_const(self, o, off, t, v):
        if isinstance(v, Bytes):
            o.base[off:off + len(v.b)] = v.b
        elif isinstance(v, Agg):
            if t[0] == 's':
                for eo, et, ev in zip(ll.struct_offsets(t), t[1], v.elems): self.init_const(o, off + eo, et, ev)
            else:
                es = ll.size_of(t[2])
                for i, ev in enumerate(v.elems): self.init_const(o, off + i * es, t[2], ev)
        elif isinstance(v, FConst):
            o.base[off:off + v.w // 8] = v.bits.to_bytes(v.w // 8, 'little')
        elif v is UNDEF: pass
        else:
            if not isinstance(v, int): v = self.const(v, t)
            n = ll.size_of(t)
            o.base[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def const(self, v, t=None):
        if type(v) is int: return v
        if isinstance(v, FConst): return bits_to_val(v.bits, v.w)
        if isinstance(v, GlobalRef): return self.global_addr(v.name)
        if isinstance(v, Agg): return tuple(self.const(e) for e in v.elems)
        if v is UNDEF: return self.undef_of(t) if t else UNDEF
        if isinstance(v, Bytes): return tuple(v.b)
        if isinstance(v, ConstExpr):
            if v.op == 'gep':
                bt, args = v.args
                return self.gep_addr(bt, self.const(args[0][1]), [(x, self.const(y)) for x, y in args[1:]])
            if v.op in ('ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr'): return self.const(v.args[1])
            if v.op == 'sub': return (self.const(v.args[1]) - self.const(v.args[2])) & ((1 << v.args[0][1]) - 1)
            if v.op == 'add': return (self.const(v.args[1]) + self.const(v.args[2])) & ((1 << v.args[0][1]) - 1)
            if v.op == 'trunc': return self.const(v.args[1]) & ((1 << v.args[2][1]) - 1)
        raise Unsupported('const %r' % (v,))

    def undef_of(self, t):
        k = t[0]
        if k in ('i', 'p'): return 0
        if k == 'f': return Fraction(0)
        if k in ('a', 'v'): return tuple(self.undef_of(t[2]) for _ in range(t[1]))
        if k == 's': return tuple(self.undef_of(x) for x in t[1])
        return UNDEF

    def val(self, o, t=None):
        if type(o) is Local: return self.regs[o.name]
        if type(o) is int: return o
        r = self.kc.get(id(o))
        if r is None:
            r = self.const(o, t)
            if o is UNDEF: return r
            self.kc[id(o)] = r
        return r

    # ---------------------------------------------------------------- decisions
    def decide(self, c):
        if c is True or c is False: return c
        if type(c) is int: return bool(c)
        st = self.st
        k = st.known(c)
        if k is not None: return k
        if self.o['deadline'] and time.time() > self.o['deadline']:
            raise PathEnd('timeout')
        n = T.c_not(c)
        ms = self.o['feas_ms']
        if self.o['lazy_feas']:
            raise Fork(c)
        a = solve.feasible(st.pc, c, ms)
        if a == 'unsat':
            st.learn(n)
            return False
        b = solve.feasible(st.pc, n, ms)
        if b == 'unsat':
            st.learn(c)
            return True
        raise Fork(c)

    def known(self, c):
        return self.st.known(c)

    def fcond(self, op, x):
        """condition x op 0 for real value"""
        return T.cmp_zero(op, x, self.known)

    # ---------------------------------------------------------------- ints
    def unsigned(self, x, w):
        if type(x) is int: return x
        M = 1 << w
        if isinstance(x, Pieces): x = self.pieces_int(x)
        if isinstance(x, SBits): raise Unsupported('bits arithmetic')
        if type(x) is int: return x & (M - 1)
        while True:
            if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi < M: return x
            if not (x.lo is not None and x.lo >= 0):
                if not self.decide(self.fcond('>=', x)):
                    y = T.n_add(x, M)
                    if type(y) is int: return y & (M - 1)
                    if y.lo is not None and y.lo >= 0: return y
                    if self.decide(self.fcond('>=', y)): return y
                    raise Unsupported('wide int wrap')
            if not (x.hi is not None and x.hi < M):
                if not self.decide(self.fcond('>', T.n_sub(M, x))):
                    y = T.n_sub(x, M)
                    if type(y) is int: return y & (M - 1)
                    if self.decide(self.fcond('>', T.n_sub(M, y))): return y
                    # general wrap
                    return T.n_sub(x, T.n_mul(T.n_idiv(x, M), M))
            return x

    def signed(self, x, w):
        M = 1 << w
        H = M >> 1
        if type(x) is int:
            x &= M - 1
            return x - M if x >= H else x
        if isinstance(x, Pieces): x = self.pieces_int(x)
        if type(x) is int: return self.signed(x, w)
        if isinstance(x, SBits): raise Unsupported('bits arithmetic')
        if not (x.lo is not None and x.lo >= -H):
            if not self.decide(self.fcond('>=', T.n_add(x, H))):
                return T.n_add(x, M)
        if not (x.hi is not None and x.hi < H):
            if not self.decide(self.fcond('>', T.n_sub(H, x))):
                return T.n_sub(x, M)
        return x

    def pieces_int(self, p):
        """Pieces -> int or node"""
        if all(type(v) is int for _, v, _ in p.parts):
            r = 0
            s = 0
            for b, v, _ in p.parts:
                r |= (v & ((1 << b) - 1)) << s
                s += b
            return r
        r = 0
        s = 0
        for b, v, tag in p.parts:
            if tag == 'f':
                if isinstance(v, Node): raise Unsupported('int arithmetic on float pieces')
                v = val_to_bits(v, b)
            if isinstance(v, SBits): raise Unsupported('int arithmetic on float pieces')
            v = self.unsigned(v, b)
            r = T.n_add(r, T.n_mul(v, 1 << s))
            s += b
        return r

    def concretize(self, x, w=64):
        if type(x) is int: return x
        if isinstance(x, Pieces): x = self.pieces_int(x)
        if type(x) is int: return x
        if isinstance(x, Cond): return 1 if self.decide(x) else 0
        x = self.unsigned(x, w)
        if type(x) is int: return x
        cv = self._const_value(x)
        if cv is not None: return cv
        # candidate values via solver
        if x.lo is not None and x.hi is not None and x.hi - x.lo <= 1024:
            lo, hi = math.ceil(x.lo), math.floor(x.hi)
            if hi - lo <= 8:
                for v in range(lo, hi):
                    if self.decide(self.fcond('=', T.n_sub(x, v))): return v
                return hi
            while lo < hi:
                m = (lo + hi) // 2
                if self.decide(self.fcond('>=', T.n_sub(m, x))): hi = m
                else: lo = m + 1
            return lo
        at = T.node_atoms(x)
        r, m = solve.check(solve.slice_conds(self.st.pc, at), 5000, want=T.closure(at))
        if r != 'sat': raise Unsupported('concretize: ' + r)
        v = self.eval_node(x, m)
        if self.decide(self.fcond('=', T.n_sub(x, v))): return v
        return self.concretize(x, w)

    def _const_value(self, x):
        r = T.rf(x)
        if r.d: return None
        c = T.pconst(r.n)
        return int(c) if c is not None and Fraction(c).denominator == 1 else None

    def eval_node(self, x, m):
        if not isinstance(x, Node): return x
        r = T.rf(x)
        def ev(p):
            s = 0
            for mo, c in p.items():
                t = c
                for a, e in mo: t = t * m.get(a, 0) ** e
                s += t
            return s
        v = Fraction(ev(r.n))
        for f, e in r.d.items(): v /= Fraction(ev(T.FACTS[f])) ** e
        return int(v) if v.denominator == 1 else v

    def ibin(self, op, w, a, b, fl):
        M = (1 << w) - 1
        if type(a) is int and type(b) is int:
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (self.signed(a, w) >> min(b, w - 1)) & M
            if op == 'udiv':
                if b == 0: raise PathEnd('panic', 'udiv by zero')
                return a // b
            if op == 'urem':
                if b == 0: raise PathEnd('panic', 'urem by zero')
                return a % b
            sa, sb = self.signed(a, w), self.signed(b, w)
            if sb == 0: raise PathEnd('panic', 'sdiv by zero')
            qq = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): qq = -qq
            if op == 'sdiv': return qq & M
            return (sa - qq * sb) & M
        if w == 1:
            ca = a if isinstance(a, Cond) else bool(a) if type(a) is int else self.tobool(a)
            cb = b if isinstance(b, Cond) else bool(b) if type(b) is int else self.tobool(b)
            if op == 'and' or op == 'mul': r = T.c_and(ca, cb)
            elif op == 'or': r = T.c_or(ca, cb)
            elif op in ('xor', 'add', 'sub'): r = T.c_xor(ca, cb)
            else: raise Unsupported('i1 ' + op)
            return int(r) if isinstance(r, bool) else r
        if isinstance(a, UndefT) or isinstance(b, UndefT): return 0
        if isinstance(a, SBits) or isinstance(b, SBits):
            return self.bits_op(op, w, a, b)
        # piecewise
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            r = self.pieces_op(op, w, a, b)
            if r is not None: return r
            if isinstance(a, Pieces): a = self.pieces_int(a)
            if isinstance(b, Pieces): b = self.pieces_int(b)
            if type(a) is int and type(b) is int: return self.ibin(op, w, a, b, fl)
        if isinstance(a, Cond): a = T.n_ite(a, 1, 0)
        if isinstance(b, Cond): b = T.n_ite(b, 1, 0)
        if op == 'add': return self.rng(T.n_add(self.small(a, w), self.small(b, w)), w)
        if op == 'sub': return self.rng(T.n_sub(self.small(a, w), self.small(b, w)), w)
        if op == 'mul': return self.rng(T.n_mul(self.small(a, w), self.small(b, w)), w)
        if op == 'shl' and type(b) is int:
            return self.rng(T.n_mul(self.small(a, w), 1 << b), w)
        if op == 'lshr' and type(b) is int: return T.n_idiv(self.unsigned(a, w), 1 << b)
        if op == 'ashr' and type(b) is int: return T.n_idiv(self.signed(a, w), 1 << b)
        if op in ('udiv', 'urem'):
            a = self.unsigned(a, w)
            b = self.unsigned(b, w)
            if type(b) is not int: b = self.concretize(b, w)
            if b == 0: raise PathEnd('panic', 'division by zero')
            d = T.n_idiv(a, b)
            if op == 'udiv': return d
            return self.setrng(T.n_sub(a, T.n_mul(d, b)), 0, b - 1)
        if op in ('sdiv', 'srem'):
            a = self.signed(a, w)
            b = self.signed(b, w)
            if type(b) is not int:
                b = self.signed(self.concretize(b, w), w)
            if b == 0: raise PathEnd('panic', 'division by zero')
            if type(a) is int: return self.ibin(op, w, a & M, b & M, fl)
            if self.decide(self.fcond('>=', a)):
                d = T.n_idiv(a, abs(b))
            else:
                d = T.n_neg(T.n_idiv(T.n_neg(a), abs(b)))
            if b < 0: d = T.n_neg(d)
            if op == 'sdiv': return d
            return T.n_sub(a, T.n_mul(d, b))
        if op == 'xor':
            if b == M: return T.n_sub(-1, a)
            if a == M: return T.n_sub(-1, b)
        if op == 'and':
            if type(a) is int: a, b = b, a
            if type(b) is int:
                if b == 0: return 0
                if b == M: return a
                if (b & (b + 1)) == 0:
                    k = b + 1
                    if isinstance(a, Node) and a.lo is not None and a.lo >= 0 and a.hi is not None and a.hi < k: return a
                    d = T.n_idiv(self.small(a, w), k)
                    return self.setrng(T.n_sub(a, T.n_mul(d, k)), 0, b)
                inv = M ^ b
                if (inv & (inv + 1)) == 0:
                    k = inv + 1
                    a = self.unsigned(a, w)
                    return T.n_mul(T.n_idiv(a, k), k)
                low = b & -b
                top = b // low
                if (top & (top + 1)) == 0:
                    q = T.n_idiv(self.unsigned(a, w), low)
                    return T.n_mul(self.ibin('and', w, q, top, fl), low)
        if op == 'or':
            if 'disjoint' in fl: return T.n_add(a, b)
            if type(a) is int: a, b = b, a
            if type(b) is int and b == 0: return a
            # disjoint by ranges: low part < 2^k and other multiple of 2^k
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Node) and x.lo is not None and x.lo >= 0 and x.hi is not None:
                    k = int(x.hi).bit_length()
                    if type(y) is int and y % (1 << k) == 0: return T.n_add(x, y)
                    if isinstance(y, Node):
                        p = T.rf(y)
                        if not p.d and all(type(c) is int and c % (1 << k) == 0 for c in p.n.values()): return T.n_add(x, y)
        if op in ('shl', 'lshr', 'ashr'):
            return self.ibin(op, w, a, self.concretize(b, w), fl)
        if op in ('and', 'or', 'xor'):
            # small ranges: concretise
            for x in (a, b):
                if isinstance(x, Node) and x.lo is not None and x.hi is not None and x.hi - x.lo <= 16:
                    if x is a: return self.ibin(op, w, self.concretize(a, w), b, fl)
                    return self.ibin(op, w, a, self.concretize(b, w), fl)
        if op == 'or' and isinstance(a, Node) and isinstance(b, Node):
            # mostly asked whether it is zero
            if self.decide(self.fcond('=', a)): return b
            if self.decide(self.fcond('=', b)): return a
            k = ('or', a.id, b.id)
            at = self.opaque.get(k)
            if at is None: at = self.opaque[k] = T.Atom('or', 'fn', isint=True, lo=1, hi=M)
            return T.atom_node(at)
        raise Unsupported('int op %s on %s, %s' % (op, T.show(a) if isinstance(a, Node) else a, T.show(b) if isinstance(b, Node) else b))

    def small(self, x, w):
        """pick the representative of a concrete constant closest to zero"""
        if type(x) is int and x >= 1 << (w - 1): return x - (1 << w)
        return x

    def setrng(self, x, lo, hi):
        if isinstance(x, Node) and x.op != 'atom':
            if x.lo is None or x.lo < lo: x.lo = lo
            if x.hi is None or x.hi > hi: x.hi = hi
        return x

    def rng(self, x, w):
        if type(x) is int: return x & ((1 << w) - 1)
        if isinstance(x, Node):
            c = self._const_value(x) if (x.lo is not None and x.lo == x.hi) else None
            if c is not None: return c & ((1 << w) - 1)
            # keep representatives bounded
            if x.lo is not None and x.hi is not None and (x.lo < -(1 << (w + 1)) or x.hi > (1 << (w + 1))):
                return self.setrng(T.n_sub(x, T.n_mul(T.n_idiv(x, 1 << w), 1 << w)), 0, (1 << w) - 1)
        return x

    def bits_op(self, op, w, a, b):
        if isinstance(b, SBits): a, b = b, a
        if type(b) is int and isinstance(a, SBits):
            sb = self.signed(b, w)
            if op == 'add' and abs(sb) == 1: return SBits(self.mag_step(a.f, sb, w), w)
            if op == 'sub' and abs(sb) == 1: return SBits(self.mag_step(a.f, -sb, w), w)
            if op == 'and' and b == (1 << (w - 1)) - 1: return SBits(self.fabs(a.f), w)
            if op == 'xor' and b == 1 << (w - 1): return SBits(self.fneg(a.f), w)
            if op == 'and' and b == 1 << (w - 1):
                return 0 if self.decide(self.fcond('>=', a.f)) else 1 << (w - 1)
            if op == 'lshr' and b == w - 1:
                return 0 if self.decide(self.fcond('>=', a.f)) else 1
        if isinstance(a, SBits) and isinstance(b, SBits): pass
        raise Unsupported('float-bit op ' + op)

    def mag_step(self, f, d, w):
        """next float with larger (d=+1) / smaller (d=-1) magnitude"""
        if not isinstance(f, Node):
            b = val_to_bits(f, w)
            return bits_to_val((b + d) & ((1 << w) - 1), w)
        eps = Fraction(1, 1 << 23) if w == 32 else Fraction(1, 1 << 52)
        tiny = Fraction(1, 1 << 149) if w == 32 else Fraction(1, 1 << 1074)
        zf = T.zterm(f)
        import z3
        e = z3.RealVal(str(eps))
        tz = z3.RealVal(str(tiny))

        def ax(a):
            if d > 0:
                return [z3.If(zf >= 0, z3.And(a.z > zf, a.z <= zf + zf * e + tz), z3.And(a.z < zf, a.z >= zf + zf * e - tz))]
            return [z3.If(zf > 0, z3.And(a.z < zf, a.z >= 0, a.z >= zf - zf * e - tz), z3.And(a.z > zf, a.z <= 0, a.z <= zf - zf * e + tz))]
        return T.n_fn('magup' if d > 0 else 'magdown', f, zaxioms=ax)

    def pieces_op(self, op, w, a, b):
        if op in ('lshr', 'shl') and type(b) is int and isinstance(a, Pieces):
            if op == 'lshr':
                out = []
                sk = b
                for bb, v, tag in a.parts:
                    if sk >= bb:
                        sk -= bb
                        continue
                    if sk:
                        if type(v) is int:
                            out.append((bb - sk, v >> sk, 'i'))
                            sk = 0
                            continue
                        if tag == 'i' and isinstance(v, Node):
                            out.append((bb - sk, T.n_idiv(self.unsigned(v, bb), 1 << sk), 'i'))
                            sk = 0
                            continue
                        return None
                    out.append((bb, v, tag))
                out.append((b, 0, 'i'))
                return Pieces(out)
            out = [(b, 0, 'i')]
            room = w - b
            for bb, v, tag in a.parts:
                if room <= 0: break
                if bb > room:
                    if type(v) is int: v = v & ((1 << room) - 1)
                    else: return None
                    bb = room
                out.append((bb, v, tag))
                room -= bb
            return Pieces(out)
        if op in ('or', 'add', 'xor') or op == 'and':
            if op == 'and' and type(b) is int and isinstance(a, Pieces):
                out = []
                s = 0
                for bb, v, tag in a.parts:
                    m = (b >> s) & ((1 << bb) - 1)
                    s += bb
                    if m == 0: out.append((bb, 0, 'i'))
                    elif m == (1 << bb) - 1: out.append((bb, v, tag))
                    elif type(v) is int: out.append((bb, v & m, 'i'))
                    else: return None
                return Pieces(out)
            if op == 'and': return None
            pa, pb = self.as_pieces(a, w), self.as_pieces(b, w)
            if pa is None or pb is None: return None
            # common refinement; only when in each slot one side is zero
            cuts = sorted(set(self._cuts(pa)) | set(self._cuts(pb)))
            xa, xb = self._split(pa, cuts), self._split(pb, cuts)
            if xa is None or xb is None: return None
            out = []
            for (bb, va, ta), (_, vb, tb) in zip(xa, xb):
                if type(va) is int and va == 0: out.append((bb, vb, tb))
                elif type(vb) is int and vb == 0: out.append((bb, va, ta))
                elif type(va) is int and type(vb) is int and op == 'or': out.append((bb, va | vb, 'i'))
                else: return None
            return Pieces(out)
        return None

    def as_pieces(self, a, w):
        if isinstance(a, Pieces): return a.parts
        if type(a) is int: return [(w, a, 'i')]
        if isinstance(a, SBits): return [(w, a, 'i')]
        if isinstance(a, Node):
            if a.lo is not None and a.lo >= 0 and a.hi is not None:
                k = int(a.hi).bit_length()
                k = (k + 7) // 8 * 8
                if k < w: return [(k, a, 'i'), (w - k, 0, 'i')]
            return [(w, a, 'i')]
        return None

    def _cuts(self, parts):
        s = 0
        out = []
        for b, _, _ in parts:
            s += b
            out.append(s)
        return out

    def _split(self, parts, cuts):
        out = []
        s = 0
        ci = 0
        for b, v, tag in parts:
            end = s + b
            start = s
            while ci < len(cuts) and cuts[ci] <= end:
                c = cuts[ci]
                n = c - s
                if c == end and s == start: out.append((n, v, tag))
                elif type(v) is int: out.append((n, (v >> (s - start)) & ((1 << n) - 1), 'i'))
                else: return None
                s = c
                ci += 1
            s = end
        return out

    def tobool(self, x):
        """i1 value -> Cond/bool"""
        if isinstance(x, Cond): return x
        if type(x) is int: return bool(x & 1)
        if isinstance(x, Node):
            c = self.ite_bool(x)
            if c is not None: return c
            x = self.unsigned(x, 8) if not (x.lo is not None and x.lo >= 0) else x
            if x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1:
                return self.fcond('>=', T.n_sub(x, 1))
            return self.fcond('=', T.n_sub(T.n_sub(x, T.n_mul(T.n_idiv(x, 2), 2)), 1))
        if isinstance(x, Pieces): return self.tobool(self.pieces_int(x))
        if isinstance(x, UndefT): return False
        raise Unsupported('tobool %r' % (x,))

    def ite_bool(self, x):
        if x.op == 'atom':
            a = x.args[0]
            if a.kind == 'ite':
                c, p, q_ = a.data
                if p == 1 and q_ == 0 and not isinstance(p, Node) and not isinstance(q_, Node): return c
                if p == 0 and q_ == 1 and not isinstance(p, Node) and not isinstance(q_, Node): return T.c_not(c)
        return None

    def icmp(self, pred, t, a, b):
        w = t[1] if t[0] == 'i' else 64
        if type(a) is int and type(b) is int:
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's': a, b = self.signed(a, w), self.signed(b, w)
            p = pred[1:]
            return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
        if isinstance(a, UndefT) or isinstance(b, UndefT): return 0
        if w == 1:
            ca, cb = self.tobool(a), self.tobool(b)
            if pred in ('eq', 'ne'):
                r = T.c_xor(ca, cb)
                if pred == 'eq': r = T.c_not(r)
            elif pred == 'ult': r = T.c_and(T.c_not(ca), cb)
            elif pred == 'ugt': r = T.c_and(ca, T.c_not(cb))
            elif pred == 'ule': r = T.c_or(T.c_not(ca), cb)
            elif pred == 'uge': r = T.c_or(ca, T.c_not(cb))
            else: raise Unsupported('i1 icmp ' + pred)
            return int(r) if isinstance(r, bool) else r
        if isinstance(a, Cond): a = T.n_ite(a, 1, 0)
        if isinstance(b, Cond): b = T.n_ite(b, 1, 0)
        if isinstance(a, SBits) or isinstance(b, SBits):
            return self.bits_cmp(pred, w, a, b)
        if isinstance(a, Pieces) or isinstance(b, Pieces):
            r = self.pieces_cmp(pred, w, a, b)
            if r is not None: return r
            if isinstance(a, Pieces): a = self.pieces_int(a)
            if isinstance(b, Pieces): b = self.pieces_int(b)
            return self.icmp(pred, t, a, b)
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if type(y) is int and isinstance(x, Node):
                    c = self.ite_bool(x)
                    if c is not None:
                        r = c if y == 1 else T.c_not(c) if y == 0 else False
                        if pred == 'ne': r = T.c_not(r)
                        return int(r) if isinstance(r, bool) else r
            # equality modulo 2^w: normalise both the same way
            same = all(not isinstance(x, Node) or (x.lo is not None and x.hi is not None and x.lo >= 0 and x.hi < (1 << w)) for x in (a, b))
            if same: pass
            elif all(isinstance(x, Node) and x.lo is not None and x.hi is not None and x.lo >= -(1 << (w - 1)) and x.hi < (1 << (w - 1)) or type(x) is int for x in (a, b)):
                a, b = self.signed(a, w) if type(a) is int else a, self.signed(b, w) if type(b) is int else b
            else:
                a, b = self.unsigned(a, w), self.unsigned(b, w)
            d = T.n_sub(a, b)
            r = self.fcond('=', d)
            if pred == 'ne': r = T.c_not(r)
        else:
            if pred[0] == 's': a, b = self.signed(a, w), self.signed(b, w)
            else: a, b = self.unsigned(a, w), self.unsigned(b, w)
            p = pred[1:]
            if p == 'lt': r = self.fcond('>', T.n_sub(b, a))
            elif p == 'le': r = self.fcond('>=', T.n_sub(b, a))
            elif p == 'gt': r = self.fcond('>', T.n_sub(a, b))
            else: r = self.fcond('>=', T.n_sub(a, b))
        return int(r) if isinstance(r, bool) else r

    def bits_cmp(self, pred, w, a, b):
        if isinstance(a, SBits) and isinstance(b, SBits) and pred in ('eq', 'ne'):
            r = self.fcmp('oeq', a.f, b.f)
            if pred == 'ne': r = self.bnot(r)
            return r
        if isinstance(a, SBits) and type(b) is int:
            sb = self.signed(b, w)
            if pred == 'sgt' and sb == -1: return self.fcmp('oge', a.f, Fraction(0))
            if pred == 'slt' and sb == 0: return self.fcmp('olt', a.f, Fraction(0))
            if pred in ('eq', 'ne'):
                bv = bits_to_val(b, w)
                if bv == NAN: r = 0
                else: r = self.fcmp('oeq', a.f, bv)
                return self.bnot(r) if pred == 'ne' else r
            # |bits| magnitude comparisons of nonnegative floats are monotone
            bv = bits_to_val(b, w)
            if b < 1 << (w - 1) and self.decide(self.tobool(self.fcmp('oge', a.f, Fraction(0)))):
                if bv == NAN: return 1 if pred in ('ult', 'ule', 'slt', 'sle') else 0
                m = {'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}[pred[1:]]
                return self.fcmp(m, a.f, bv)
        raise Unsupported('float-bit compare ' + pred)

    def pieces_cmp(self, pred, w, a, b):
        if pred not in ('eq', 'ne'): return None
        pa, pb = self.as_pieces(a, w), self.as_pieces(b, w)
        if pa is None or pb is None: return None
        cuts = sorted(set(self._cuts(pa)) | set(self._cuts(pb)))
        xa, xb = self._split(pa, cuts), self._split(pb, cuts)
        if xa is None or xb is None: return None
        r = True
        for (bb, va, ta), (_, vb, tb) in zip(xa, xb):
            if ta == 'f': va = SBits(va, bb) if isinstance(va, Node) else val_to_bits(va, bb)
            if tb == 'f': vb = SBits(vb, bb) if isinstance(vb, Node) else val_to_bits(vb, bb)
            c = self.icmp('eq', ('i', bb), va, vb)
            r = T.c_and(r, self.tobool(c))
        if pred == 'ne': r = T.c_not(r)
        return int(r) if isinstance(r, bool) else r

    def bnot(self, r):
        if type(r) is int: return 1 - r
        r = T.c_not(r)
        return int(r) if isinstance(r, bool) else r

    # ---------------------------------------------------------------- floats
    def fsign(self, x):
        """-1/0/1 of a float value, deciding (forking) as needed"""
        if isspec(x): return {PINF: 1, NINF: -1, NZERO: 0}[x]
        if not isinstance(x, Node): return (x > 0) - (x < 0)
        if self.decide(self.fcond('>', x)): return 1
        if self.decide(self.fcond('=', x)): return 0
        return -1

    def fneg(self, x):
        if isany(x): return any_of('neg', x)
        if isspec(x): return {NAN: NAN, PINF: NINF, NINF: PINF, NZERO: Fraction(0)}[x]
        if not isinstance(x, Node): return NZERO if x == 0 else -x
        return T.n_neg(x)

    def num(self, x): return 0 if x == NZERO else x

    def fbin(self, op, a, b):
        if not isspec(a) and not isspec(b):
            if op == 'fadd': return self.fx(T.n_add(a, b))
            if op == 'fsub': return self.fx(T.n_sub(a, b))
            if op == 'fmul':
                r = T.n_mul(a, b)
                if not isinstance(r, Node) and r == 0 and not isinstance(a, Node) and not isinstance(b, Node) and (a < 0 or b < 0): return NZERO
                return self.fx(r)
            if op == 'fdiv': return self.fdiv(a, b)
            raise Unsupported(op)
        if a == NAN or b == NAN: return NAN
        if isany(a) or isany(b): return any_of(op, a, b)
        if op == 'fsub':
            op = 'fadd'
            b = self.fneg(b)
        if op == 'fadd':
            if not isspec(a) and not isspec(b): return self.fx(T.n_add(a, b))
            if a == NZERO: return b
            if b == NZERO: return a
            ai, bi = a in (PINF, NINF), b in (PINF, NINF)
            if ai and bi: return a if a == b else NAN
            return a if ai else b
        if op == 'fmul':
            if a == NZERO or b == NZERO:
                x = b if a == NZERO else a
                if x in (PINF, NINF): return NAN
                if x == NZERO: return Fraction(0)
                if not isinstance(x, Node): return NZERO if x >= 0 else Fraction(0)
                return Fraction(0)
            s = self.fsign(a) * self.fsign(b)
            if s == 0: return NAN
            return PINF if s > 0 else NINF
        if op == 'fdiv':
            ai, bi = a in (PINF, NINF), b in (PINF, NINF)
            if ai and bi: return NAN
            if bi: return Fraction(0)
            if ai:
                if b == NZERO: return self.fneg(a)
                s = self.fsign(b)
                if s == 0: return a if not isinstance(b, Node) else (a if self.decide(T.c_bool('zs%d' % b.id)) else self.fneg(a))
                return a if s > 0 else self.fneg(a)
            return self.fdiv(a, b)
        raise Unsupported(op)

    def fx(self, r):
        if type(r) is int: return Fraction(r)
        return r

    def fdiv(self, a, b):
        if a == NZERO: a = Fraction(0)
        neg0 = b == NZERO
        if neg0: b = Fraction(0)
        if not isinstance(b, Node):
            if b == 0:
                s = self.fsign(a)
                if s == 0: return NAN
                return PINF if (s > 0) != neg0 else NINF
            return self.fx(T.n_div(a, b))
        c = self.fcond('=', b)
        if c is not False:
            if self.o['div_nonzero'] and self.st.known(c) is None:
                self.assume_(T.c_not(c))
            elif self.decide(c):
                if isinstance(a, Node) and self.o['junk_div']:
                    ks = [self.known(k) for k in (self.fcond('>', a), self.fcond('>', T.n_neg(a))) if isinstance(k, Cond)]
                    if len(ks) == 2 and True not in ks:
                        # is the numerator zero as well?
                        if solve.feasible(self.st.pc, self.fcond('!=', a), 200) == 'unsat': return NAN
                        return any_of('div0', a, b)
                s = self.fsign(a)
                if s == 0: return NAN
                neg = self.decide(T.c_bool('zs%d' % b.id))
                return PINF if (s > 0) != neg else NINF
        return self.fx(self.conj_div(a, b))

    def conj_div(self, a, b):
        """a/b with b = A + B*s, s a square root: when a divides A^2 - B^2 s^2 the quotient is (A - B*s)/((A^2-B^2s^2)/a)"""
        if not isinstance(a, Node): return T.n_div(a, b)
        rb = T.rf(b)
        roots = [i for i in T.patoms(rb.n) if T.ATOMS[i].kind == 'sqrt' and T.ATOMS[i].rule is not None]
        if len(roots) != 1 or len(rb.n) > 60: return T.n_div(a, b)
        s = roots[0]
        A, B = {}, {}
        for m, c in rb.n.items():
            d = dict(m)
            e = d.pop(s, 0)
            if e > 1: return T.n_div(a, b)
            (B if e else A)[tuple(sorted(d.items()))] = c
        try:
            E = T.padd(T.pmul(A, A), T.pmul(T.pmul(B, B), T.ATOMS[s].rule), -1)
            ra = T.rf(a)
            if not E or not ra.n: return T.n_div(a, b)
            Q = T.pdivexact(E, ra.n)
        except T.TooBig: return T.n_div(a, b)
        if Q is None: return T.n_div(a, b)
        nz = T.cond_poly('!=', Q)
        if not (nz is True or (isinstance(nz, Cond) and self.st.known(nz) is True)):
            for p in (Q, T.pscale(Q, -1)):
                c, common, rest = T.split_content(p)
                if common is None and rest is not None and self.st.known(T.cond_poly('!=', rest)) is True: break
            else: return T.n_div(a, b)
        conj = T.padd(A, T.pmul(B, {((s, 1),): 1}), -1)
        r = T.n_div(T.poly_node(conj), T.poly_node(Q))
        if rb.d: r = T.n_mul(r, T.poly_node(T.den_poly(rb.d)))
        if ra.d: r = T.n_div(r, T.poly_node(T.den_poly(ra.d)))
        return r

    def assume_(self, c):
        self.st.add_pc(c)

    def fcmp(self, pred, a, b):
        if pred == 'true': return 1
        if pred == 'false': return 0
        if a == NAN or b == NAN: return int(pred[0] == 'u')
        if isany(a) or isany(b):
            return T.c_bool('%s%s%s' % (pred, a.id if isinstance(a, Node) else a, b.id if isinstance(b, Node) else b))
        if pred == 'ord': return 1
        if pred == 'uno': return 0
        p = pred[1:]
        a, b = self.num(a), self.num(b)
        # LLVM folds (x as f32) > 0 into x > 2^-150: over the reals that is a comparison with 0
        if type(b) is Fraction and 0 < abs(b) < TINY and isinstance(a, Node): b = Fraction(0)
        if type(a) is Fraction and 0 < abs(a) < TINY and isinstance(b, Node): a = Fraction(0)
        if isspec(a) or isspec(b):
            ka = {PINF: 1, NINF: -1}.get(a, 0) if isspec(a) else 0
            kb = {PINF: 1, NINF: -1}.get(b, 0) if isspec(b) else 0
            return int({'eq': ka == kb, 'ne': ka != kb, 'lt': ka < kb, 'le': ka <= kb, 'gt': ka > kb, 'ge': ka >= kb}[p])
        if p == 'lt': r = self.fcond('>', T.n_sub(b, a))
        elif p == 'le': r = self.fcond('>=', T.n_sub(b, a))
        elif p == 'gt': r = self.fcond('>', T.n_sub(a, b))
        elif p == 'ge': r = self.fcond('>=', T.n_sub(a, b))
        elif p == 'eq': r = self.fcond('=', T.n_sub(a, b))
        else: r = self.fcond('!=', T.n_sub(a, b))
        return int(r) if isinstance(r, bool) else r

    def fabs(self, x):
        if isany(x): return any_of('abs', x)
        if isspec(x): return {NAN: NAN, PINF: PINF, NINF: PINF, NZERO: Fraction(0)}[x]
        if not isinstance(x, Node): return abs(x)
        c = self.fcond('>=', x)
        if c is True: return x
        if c is False: return T.n_neg(x)
        k = self.st.known(c)
        if k is True: return x
        if k is False: return T.n_neg(x)
        if self.o['fork_abs']:
            return x if self.decide(c) else T.n_neg(x)
        return self.fx(T.n_absval(x))

    def fminmax(self, mx, a, b):
        if isany(a) or isany(b): return any_of('minmax', mx, a, b)
        if a == NAN: return b
        if b == NAN: return a
        if isspec(a) or isspec(b):
            c = self.fcmp('oge', a, b)
            if c == 1: return a if mx else b
            if c == 0: return b if mx else a
        if isspec(a): a = Fraction(0)
        if isspec(b): b = Fraction(0)
        c = self.fcond('>=', T.n_sub(a, b))
        k = self.st.known(c) if isinstance(c, Cond) else c
        if k is True: return a if mx else b
        if k is False: return b if mx else a
        if self.o['fork_minmax']:
            return (a if mx else b) if self.decide(c) else (b if mx else a)
        r = T.n_ite(c, a, b) if mx else T.n_ite(c, b, a)
        return self.minmax_axioms(r, mx, a, b)

    def minmax_axioms(self, r, mx, a, b):
        if isinstance(r, Node) and r.op == 'atom':
            at = r.args[0]
            la, lb, ha, hb = T.lo_of(a), T.lo_of(b), T.hi_of(a), T.hi_of(b)
            if mx:
                l = max([v for v in (la, lb) if v is not None], default=None)
                if l is not None and (at.lo is None or at.lo < l):
                    at.lo = l
                    r.lo = l
                    at.nonneg = l >= 0
            else:
                h = min([v for v in (ha, hb) if v is not None], default=None)
                if h is not None and (at.hi is None or at.hi > h):
                    at.hi = h
                    r.hi = h
        return r

    def fsqrt(self, x):
        if isany(x): return any_of('sqrt', x)
        if isspec(x): return {NAN: NAN, PINF: PINF, NINF: NAN, NZERO: NZERO}[x]
        if not isinstance(x, Node):
            if x < 0: return NAN
            return self.fx(T.n_sqrt(x))
        c = self.fcond('>=', x)
        if c is not True and not self.decide(c): return NAN
        r = T.n_sqrt(x)
        if self.o['fork_abs'] and isinstance(r, Node):
            # sqrt of a square: decide the sign
            rr = T.rf(r)
            if len(rr.n) == 1:
                (m, k), = rr.n.items()
                if len(m) == 1 and m[0][1] == 1 and T.ATOMS[m[0][0]].kind == 'abs':
                    y = T.ATOMS[m[0][0]].data
                    if not self.decide(self.fcond('>=', y)): y = T.n_neg(y)
                    r = T.n_mul(y, k)
                    if rr.d: r = T.n_div(r, T.poly_node(T.den_poly(rr.d)))
                    return self.fx(r)
        # positivity transfer: x > 0 known -> sqrt > 0
        if isinstance(r, Node):
            g = self.fcond('>', x)
            if g is True or (isinstance(g, Cond) and self.st.known(g) is True):
                rg = T.cmp_zero('>', r, None)
                if isinstance(rg, Cond): self.st.learn(rg)
            ys = self.sum_squares(x)
            rr = T.rf(r)
            if ys and len(rr.n) == 1:
                (m, _), = rr.n.items()
                if len(m) == 1 and T.ATOMS[m[0][0]].data is None: T.ATOMS[m[0][0]].data = ('squares', [T.rf(y).n for y in ys])
            for y in ys:
                for z in (T.n_sub(r, y), T.n_add(r, y)):
                    g = T.cmp_zero('>=', z, self.known)
                    if isinstance(g, Cond): self.st.learn(g)
        return self.fx(r)

    def sum_squares(self, x):
        """x = y1*y1 + y2*y2 + ..: the y's"""
        out = []
        todo = [x]
        while todo:
            n = todo.pop()
            if not isinstance(n, Node):
                if n < 0: return []
            elif n.op == 'add': todo += n.args
            elif n.op == 'mul' and n.args[0] is n.args[1]: out.append(n.args[0])
            else: return []
            if len(out) > 4: return []
        return out

    def ftoi(self, x, w, signed, sat):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        M = (1 << w) - 1
        if isspec(x):
            if x == NZERO: return 0
            if not sat: return 0
            return {NAN: 0, PINF: hi, NINF: lo}[x] & M
        if not isinstance(x, Node):
            v = math.floor(x) if x >= 0 else -math.floor(-x)
            if sat: v = max(lo, min(hi, v))
            return v & M
        if sat:
            if not (x.hi is not None and x.hi < hi + 1):
                if self.decide(self.fcond('>=', T.n_sub(x, hi + 1))): return hi & M
            if not (x.lo is not None and x.lo > lo - 1):
                if self.decide(self.fcond('>=', T.n_sub(lo - 1, x))): return lo & M
        if x.lo is not None and x.lo >= 0 or x.isint or self.decide(self.fcond('>=', x)):
            return T.n_floor(x)
        r = T.n_neg(T.n_floor(T.n_neg(x)))
        return r & M if type(r) is int else r

    def itof(self, x, w, signed):
        if type(x) is int:
            x = self.signed(x, w) if signed else x
            return self.round_int(x) if self.o['round_int'] else Fraction(x)
        if isinstance(x, Cond): x = T.n_ite(x, 1, 0)
        r = self.signed(x, w) if signed else self.unsigned(x, w)
        if self.o['round_int']: return self.round_int(r)
        return Fraction(r) if type(r) is int else r

    def round_int(self, x):
        """x rounded to 24 bits: exactly for numbers, any value at most half a unit of the largest binade away for terms"""
        if not isinstance(x, Node):
            e = max(abs(int(x)).bit_length() - 24, 0)
            q, r = divmod(int(x), 1 << e)
            if 2 * r > 1 << e or (2 * r == 1 << e and q % 2): q += 1
            return Fraction(q << e)
        lo, hi = T.lo_of(x), T.hi_of(x)
        if lo is None or hi is None: return x
        m = int(max(abs(lo), abs(hi)))
        if m <= 1 << 24: return x
        d = 1 << (m.bit_length() - 25)
        r = T.n_fn('round24', (x,), lo=max(lo - d, 0) if lo >= 0 else lo - d, hi=hi + d)
        for c in (self.fcond('>=', T.n_sub(r, T.n_sub(x, d))), self.fcond('>=', T.n_sub(T.n_add(x, d), r))):
            if c is not True: self.assume_(c)
        return r

    # ---------------------------------------------------------------- memory
    def obj(self, addr):
        oid = addr >> 32
        o = self.st.mem.get(oid)
        if o is None:
            if oid >= 1 << 20: o = self.load_global(self.st, oid)
            else: raise Unsupported('dangling or null pointer %x' % addr)
        return o

    def wobj(self, addr):
        oid = addr >> 32
        o = self.obj(addr)
        if oid not in self.st.own:
            o = o.clone()
            self.st.mem[oid] = o
            self.st.own.add(oid)
        return o

    def alloc(self, size, kind='heap'):
        st = self.st
        oid = st.next
        st.next += 1
        o = Obj(size, None, kind)
        st.mem[oid] = o
        st.own.add(oid)
        return oid << 32

    def _overlap(self, o, off, n):
        cells = o.cells
        if not cells: return []
        c = cells.get(off)
        if c is not None and c[0] == n: return [off]
        if len(cells) < 24:
            return sorted(k for k, v in cells.items() if k < off + n and k + v[0] > off)
        out = []
        for k in range(off - 15, off + n):
            v = cells.get(k)
            if v is not None and k + v[0] > off: out.append(k)
        return out

    def load_bytes_int(self, o, off, n):
        if o.base is None: return 0
        return int.from_bytes(o.base[off:off + n], 'little')

    def load(self, addr, t):
        k = t[0]
        if k == 's':
            return tuple(self.load(addr + x, et) for x, et in zip(ll.struct_offsets(t), t[1]))
        if k == 'a' or (k == 'v' and t[2] != ('i', 1)):
            es = ll.size_of(t[2])
            return tuple(self.load(addr + i * es, t[2]) for i in range(t[1]))
        if type(addr) is not int: addr = self.concretize(addr)
        o = self.obj(addr)
        off = addr & 0xffffffff
        n = ll.size_of(t)
        if off + n > o.size:
            raise PathEnd('ub', 'load out of bounds off=%d n=%d size=%d' % (off, n, o.size))
        ov = self._overlap(o, off, n)
        if not ov:
            v = self.load_bytes_int(o, off, n)
            if k == 'f': return bits_to_val(v, t[1])
            if k == 'i': return v & ((1 << t[1]) - 1)
            return v
        if len(ov) == 1 and ov[0] == off and o.cells[off][0] == n:
            _, v, tag = o.cells[off]
            return self.cell_as(v, tag, t)
        p = self.gather(o, off, n)
        return self.cell_as(p, 'i', t)

    def cell_as(self, v, tag, t):
        k = t[0]
        if k == 'f':
            if tag == 'f': return v
            return self.bits_to_float(v, t[1])
        w = t[1] if k == 'i' else 64
        if tag == 'f':
            n = t[1] if k == 'i' else 64
            if isinstance(v, Node): v = SBits(v, n)
            else: v = Pieces([(n, v, 'f')])
        if isinstance(v, Pieces):
            if all(type(x) is int for _, x, _ in v.parts): v = self.pieces_int(v)
            elif k == 'i' and w == 1: v = self.trunc(v, 8, 1)
        if k == 'i' and w == 1:
            if isinstance(v, Node): return self.tobool_v(v)
            if type(v) is int: return v & 1
        if k == 'i' and w < 8 * ll.size_of(t) and type(v) is int: v &= (1 << w) - 1
        return v

    def tobool_v(self, v):
        r = self.tobool(v)
        return int(r) if isinstance(r, bool) else r

    def bits_to_float(self, v, w):
        if type(v) is int: return bits_to_val(v & ((1 << w) - 1), w)
        if isinstance(v, SBits): return v.f
        if isinstance(v, Pieces):
            parts = [x for x in v.parts]
            if len(parts) >= 1 and parts[0][0] == w:
                b, x, tag = parts[0]
                if tag == 'f': return x
                return self.bits_to_float(x, w)
            if all(tag == 'i' and type(x) is int for _, x, tag in parts):
                return bits_to_val(self.pieces_int(v) & ((1 << w) - 1), w)
        if isinstance(v, UndefT): return Fraction(0)
        raise Unsupported('bits->float %r' % (v,))

    def gather(self, o, off, n):
        parts = []
        p = off
        end = off + n
        while p < end:
            # cell covering p?
            c = o.cells.get(p)
            start = p
            if c is None:
                for k in range(p - 15, p):
                    x = o.cells.get(k)
                    if x is not None and k + x[0] > p:
                        c = x
                        start = k
                        break
            if c is None:
                e = p + 1
                while e < end and e not in o.cells: e += 1
                parts.append(((e - p) * 8, self.load_bytes_int(o, p, e - p), 'i'))
                p = e
                continue
            cs, v, tag = c
            if start == p and start + cs <= end:
                if isinstance(v, Pieces): parts += v.parts
                else: parts.append((cs * 8, v, tag))
                p = start + cs
            else:
                # partial overlap with a cell
                take = min(end, start + cs) - p
                sub = self.cell_sub(v, tag, cs, p - start, take)
                parts.append((take * 8, sub[0], sub[1]))
                p += take
        return Pieces(parts)

    def cell_sub(self, v, tag, cs, o, n):
        if isinstance(v, Pieces):
            r = self.pieces_op('lshr', cs * 8, v, o * 8)
            if r is not None:
                r = self.trunc(r, cs * 8, n * 8)
                return (r, 'i')
        if tag == 'f' and not isinstance(v, Node):
            return ((val_to_bits(v, cs * 8) >> (8 * o)) & ((1 << (8 * n)) - 1), 'i')
        if tag == 'i' and isinstance(v, Node):
            x = T.n_idiv(self.unsigned(v, cs * 8), 1 << (8 * o)) if o else v
            return (self.trunc(x, cs * 8, n * 8), 'i')
        raise Unsupported('partial load of symbolic cell')

    def store(self, addr, t, v):
        k = t[0]
        if type(addr) is not int: addr = self.concretize(addr)
        if k == 's':
            for x, et, ev in zip(ll.struct_offsets(t), t[1], v): self.store(addr + x, et, ev)
            return
        if k == 'a' or (k == 'v' and t[2] != ('i', 1)):
            es = ll.size_of(t[2])
            for i, ev in enumerate(v): self.store(addr + i * es, t[2], ev)
            return
        o = self.wobj(addr)
        off = addr & 0xffffffff
        n = ll.size_of(t)
        if off + n > o.size:
            raise PathEnd('ub', 'store out of bounds off=%d n=%d size=%d' % (off, n, o.size))
        if k == 'i' and t[1] == 1 and isinstance(v, Cond): v = T.n_ite(v, 1, 0)
        if k == 'f': cell = (n, v, 'f')
        elif type(v) is int: cell = None
        elif isinstance(v, UndefT): cell = None; v = 0
        elif isinstance(v, SBits): cell = (n, v.f, 'f')
        elif isinstance(v, Pieces):
            self.clear(o, off, n)
            p = off
            for b, x, tag in v.parts:
                if b % 8: raise Unsupported('store of sub-byte piece')
                nb = b // 8
                if tag == 'f': o.cells[p] = (nb, x, 'f')
                elif isinstance(x, SBits): o.cells[p] = (nb, x.f, 'f')
                elif type(x) is int: self.putint(o, p, nb, x)
                else: o.cells[p] = (nb, x, 'i')
                p += nb
            return
        else: cell = (n, v, 'i')
        self.clear(o, off, n)
        if cell is None: self.putint(o, off, n, v)
        else: o.cells[off] = cell

    def putint(self, o, off, n, v):
        if o.base is None: o.base = bytearray(o.size)
        elif type(o.base) is bytes: o.base = bytearray(o.base)
        o.base[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def clear(self, o, off, n):
        for k in self._overlap(o, off, n):
            cs, v, tag = o.cells[k]
            if k >= off and k + cs <= off + n:
                del o.cells[k]
            else:
                # split the partially overwritten cell
                del o.cells[k]
                if k < off:
                    a = self.cell_sub(v, tag, cs, 0, off - k)
                    if type(a[0]) is int: self.putint(o, k, off - k, a[0])
                    else: o.cells[k] = (off - k, a[0], a[1])
                if k + cs > off + n:
                    m = k + cs - (off + n)
                    a = self.cell_sub(v, tag, cs, off + n - k, m)
                    if type(a[0]) is int: self.putint(o, off + n, m, a[0])
                    else: o.cells[off + n] = (m, a[0], a[1])

    def memcpy(self, dst, src, n):
        if n == 0: return
        so = self.obj(src)
        soff = src & 0xffffffff
        if soff + n > so.size: raise PathEnd('ub', 'memcpy source out of bounds')
        cells = []
        edge = []
        if so.cells:
            if len(so.cells) < n + 16:
                ks = [k for k, v in so.cells.items() if k < soff + n and k + v[0] > soff]
            else:
                ks = self._overlap(so, soff, n)
            for k in ks:
                cs, v, tag = so.cells[k]
                if k >= soff and k + cs <= soff + n: cells.append((k - soff, so.cells[k]))
                else:
                    a0 = max(k, soff)
                    a1 = min(k + cs, soff + n)
                    sub = self.cell_sub(v, tag, cs, a0 - k, a1 - a0)
                    edge.append((a0 - soff, a1 - a0, sub))
        base = bytes(so.base[soff:soff + n]) if so.base is not None else None
        do = self.wobj(dst)
        doff = dst & 0xffffffff
        if doff + n > do.size: raise PathEnd('ub', 'memcpy dest out of bounds')
        if do.cells:
            if n > 64:
                for k in [k for k, v in do.cells.items() if k < doff + n and k + v[0] > doff]:
                    v = do.cells.get(k)
                    if v is None: continue
                    if k >= doff and k + v[0] <= doff + n: del do.cells[k]
                    else: self.clear(do, max(k, doff), min(k + v[0], doff + n) - max(k, doff))
            else: self.clear(do, doff, n)
        if base is None:
            if do.base is not None: do.base[doff:doff + n] = bytes(n)
        else:
            if do.base is None: do.base = bytearray(do.size)
            do.base[doff:doff + n] = base
        for k, c in cells: do.cells[doff + k] = c
        for k, m, sub in edge:
            if type(sub[0]) is int: self.putint(do, doff + k, m, sub[0])
            else: do.cells[doff + k] = (m, sub[0], sub[1])

    def memset(self, dst, b, n):
        if n == 0: return
        o = self.wobj(dst)
        off = dst & 0xffffffff
        if off + n > o.size: raise PathEnd('ub', 'memset out of bounds')
        for k in [k for k, v in o.cells.items() if k < off + n and k + v[0] > off]:
            v = o.cells.get(k)
            if k >= off and k + v[0] <= off + n: del o.cells[k]
            else: self.clear(o, max(k, off), min(k + v[0], off + n) - max(k, off))
        if type(b) is not int:
            for i in range(n): o.cells[off + i] = (1, b, 'i')
            return
        if o.base is None: o.base = bytearray(o.size)
        o.base[off:off + n] = bytes([b & 255]) * n

    def read_cbytes(self, addr, n):
        """concrete bytes or raises"""
        out = bytearray()
        for i in range(n):
            v = self.load(addr + i, ('i', 8))
            out.append(self.concretize(v, 8))
        return bytes(out)

    def gep_addr(self, t, base, idx):
        addr = base
        cur = t
        first = True
        for it, i in idx:
            if first:
                es = ll.size_of(cur)
                first = False
                addr = self.addoff(addr, i, es, it)
                continue
            if cur[0] == 's':
                addr = addr + ll.struct_offsets(cur)[i]
                cur = cur[1][i]
            else:
                es = ll.size_of(cur[2])
                addr = self.addoff(addr, i, es, it)
                cur = cur[2]
        return addr & 0xffffffffffffffff if type(addr) is int else addr

    def addoff(self, addr, i, es, it):
        if type(i) is int:
            return addr + self.signed(i, it[1]) * es
        if es == 0: return addr
        i = self.concretize(i, it[1])
        return addr + self.signed(i, it[1]) * es

    # ---------------------------------------------------------------- casts
    def trunc(self, v, w1, w2):
        if type(v) is int: return v & ((1 << w2) - 1)
        if isinstance(v, UndefT): return 0
        if isinstance(v, Cond): return v if w2 == 1 else v
        if isinstance(v, Pieces):
            out = []
            room = w2
            for b, x, tag in v.parts:
                if room <= 0: break
                if b <= room: out.append((b, x, tag))
                elif type(x) is int: out.append((room, x & ((1 << room) - 1), 'i'))
                elif tag == 'i' and isinstance(x, Node): out.append((room, self.trunc(x, b, room), 'i'))
                elif tag == 'f' and not isinstance(x, Node): out.append((room, val_to_bits(x, b) & ((1 << room) - 1), 'i'))
                else: raise Unsupported('trunc of float piece')
                room -= b
            if len(out) == 1:
                b, x, tag = out[0]
                if tag == 'f': return SBits(x, b) if isinstance(x, Node) else Pieces(out)
                if w2 == 1 and isinstance(x, Node): return self.tobool_v(x)
                return x
            if all(type(x) is int for _, x, _ in out): return self.pieces_int(Pieces(out))
            return Pieces(out)
        if isinstance(v, SBits): raise Unsupported('trunc of float bits')
        if w2 == 1: return self.tobool_v(v)
        M = 1 << w2
        if v.lo is not None and v.hi is not None and v.lo >= -(M >> 1) and v.hi < M: return v
        return self.setrng(T.n_sub(v, T.n_mul(T.n_idiv(v, M), M)), 0, M - 1)

    def zext(self, v, w1, w2):
        if type(v) is int: return v
        if isinstance(v, Cond): return T.n_ite(v, 1, 0)
        if isinstance(v, UndefT): return 0
        if isinstance(v, Pieces): return Pieces(v.parts + [(w2 - w1, 0, 'i')])
        if isinstance(v, SBits): return Pieces([(w1, v.f, 'f'), (w2 - w1, 0, 'i')])
        return self.unsigned(v, w1)

    def sext(self, v, w1, w2):
        if type(v) is int: return self.signed(v, w1) & ((1 << w2) - 1)
        if isinstance(v, Cond): return T.n_ite(v, -1, 0)
        return self.signed(v, w1)

    def cast(self, op, t1, v, t2):
        if t1[0] == 'v':
            return tuple(self.cast(op, t1[2], x, t2[2]) for x in v) if t2[0] == 'v' else self.vec_to_scalar(t1, v, t2)
        if op == 'trunc': return self.trunc(v, t1[1], t2[1])
        if op == 'zext': return self.zext(v, t1[1], t2[1])
        if op == 'sext': return self.sext(v, t1[1], t2[1])
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            return v
        if op == 'bitcast':
            if t2[0] == 'v': return self.scalar_to_vec(t1, v, t2)
            if t1[0] == t2[0]: return v
            if t1[0] == 'f' and t2[0] == 'i':
                if isinstance(v, Node): return SBits(v, t1[1])
                b = val_to_bits(v, t1[1])
                if not isspec(v) and bits_to_val(b, t1[1]) != v and not (b == 0 and v == 0): return SBits(v, t1[1])
                return b
            if t1[0] == 'i' and t2[0] == 'f': return self.bits_to_float(v, t2[1])
            return v
        if op in ('fpext', 'fptrunc'):
            return v
        if op == 'fptoui': return self.ftoi(v, t2[1], False, False)
        if op == 'fptosi': return self.ftoi(v, t2[1], True, False)
        if op == 'uitofp': return self.itof(v, t1[1], False)
        if op == 'sitofp': return self.itof(v, t1[1], True)
        raise Unsupported('cast ' + op)

    def vec_to_scalar(self, t1, v, t2):
        w = ll.size_of(t1[2]) * 8 if t1[2] != ('i', 1) else 1
        if t1[2] == ('i', 1):
            if all(type(x) is int for x in v): return sum((x & 1) << i for i, x in enumerate(v))
            raise Unsupported('mask bitcast')
        p = Pieces([(w, x, 'f' if t1[2][0] == 'f' else 'i') for x in v])
        return self.cell_as(p, 'i', t2)

    def scalar_to_vec(self, t1, v, t2):
        w = t2[2][1]
        if type(v) is int:
            xs = [(v >> (w * i)) & ((1 << w) - 1) for i in range(t2[1])]
            return tuple(bits_to_val(x, w) for x in xs) if t2[2][0] == 'f' else tuple(xs)
        if isinstance(v, Pieces):
            out = []
            for i in range(t2[1]):
                r = self.pieces_op('lshr', t1[1], v, w * i) if i else v
                r = self.trunc(r, t1[1], w)
                out.append(self.bits_to_float(r, w) if t2[2][0] == 'f' else r)
            return tuple(out)
        raise Unsupported('scalar->vec')

    def select(self, c, t, a, b):
        if isinstance(c, Node): c = self.tobool_v(c)
        if type(c) is int: return a if c & 1 else b
        k = self.st.known(c)
        if k is True: return a
        if k is False: return b
        if t == ('i', 1):
            r = T.c_ite(c, self.tobool(a), self.tobool(b))
            return int(r) if isinstance(r, bool) else r
        if type(a) is type(b) and not isinstance(a, (Pieces, SBits, tuple)) and a == b: return a
        if t[0] == 'f' and not self.o['fork_select'] and not isspec(a) and not isspec(b):
            return self.fx(T.n_ite(c, a, b))
        if t[0] == 'i' and not self.o['fork_select'] and isinstance(a, (int, Node)) and isinstance(b, (int, Node)):
            w = t[1]
            return T.n_ite(c, self.small(a, w), self.small(b, w))
        return a if self.decide(c) else b


class UndefT:
    pass


UndefT = ll.Undef
