"""Instruction interpreter and path exploration on top of sx.Engine."""
import re, time, math
from fractions import Fraction
import ll, solve
import terms as T
import sx
from sx import (isany, any_of, Engine, State, Frame, Fork, PathEnd, Pieces, SBits, NAN, PINF, NINF, NZERO, isspec, UndefT,
                PANIC_RE, ALLOC_RE, ALLOCZ_RE, DEALLOC_RE, REALLOC_RE, EPRINT_RE)
from terms import Node, Cond, Unsupported
from ll import Local, GlobalRef, FConst, Agg, UNDEF
from threads import Threads

NOP = object()
LLF = re.compile(r'^llvm\.([a-z0-9.]+?)(?:\.(?:v\d+)?(?:f16|f32|f64|i\d+|p0)(?:\.(?:v\d+)?(?:f32|f64|i\d+|p0))*)?$')


def one(c):
    return int(c) if isinstance(c, bool) else c


class Exec(Threads, Engine):
    def __init__(self, mod, opts=None):
        Engine.__init__(self, mod, opts)
        self.results = []          # obligations
        self.ends = {}
        self.reach = {}
        self.params = {}
        self.params_f = {}
        self.nsteps = 0
        self.callcache = {}
        self.rc_cache = {}
        self.racy_cache = {}
        self.max_depth = 0
        self.truncated = None
        self.inputs = {}           # id -> dict(kind, atoms)
        self.opaque = {}
        self.conc_left = self.o.get('conc_total', 25)
        import random
        self.rnd = random.Random(int(__import__('os').environ.get('VERIF_SEED', '1') or 1))
        self.dispatch = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('x_')}

    # ---------------------------------------------------------------- exploration
    def run(self, fname):
        f = self.mod.get_func(fname)
        if f is None: raise Unsupported('no function ' + fname)
        st = State()
        self.enter(st, f, [], None, None)
        work = [st]
        npaths = 0
        while work:
            st = work.pop()
            self.st = st
            if self.o['deadline'] and time.time() > self.o['deadline']:
                self.truncated = 'deadline'
                break
            if npaths >= self.o['max_paths']:
                self.truncated = 'max_paths'
                break
            try:
                self.step_path(st)
            except Fork as fk:
                c = fk.cond
                other = st.fork()
                ok = []
                for s, cc in ((other, T.c_not(c)), (st, c)):
                    try:
                        s.add_pc(cc)
                        work.append(s)
                    except PathEnd:
                        pass
                self.max_depth = max(self.max_depth, len(st.pc))
                continue
            except PathEnd as e:
                npaths += 1
                self.ends[e.kind] = self.ends.get(e.kind, 0) + 1
                if e.kind == 'timeout':
                    self.truncated = 'deadline'
                elif e.kind == 'panic':
                    if not st.panic_ok: self.path_violation(st, 'panic', e.info)
                elif e.kind == 'ub':
                    self.path_violation(st, 'ub', e.info)
                elif e.kind == 'unsupported' or e.kind == 'limit':
                    self.results.append(dict(kind=e.kind, status='undecided', id=-1, info=e.info, where=self.where(st)))
            except (Unsupported, T.TooBig) as e:
                npaths += 1
                self.ends['unsupported'] = self.ends.get('unsupported', 0) + 1
                self.results.append(dict(kind='unsupported', status='undecided', id=-1, info=str(e) or 'TooBig', where=self.where(st)))
        self.path_count = npaths
        if work or self.truncated:
            self.results.append(dict(kind='truncated', status='undecided', id=-1, info=str(self.truncated), where=''))

    def where(self, st):
        out = []
        for f in st.frames[-4:]:
            out.append(short(f.fn.name))
        return ' > '.join(out)

    def enter(self, st, f, args, dest, cont):
        fr = Frame()
        fr.fn = f
        fr.block = f.entry
        fr.ins = f.blocks[f.entry]
        fr.idx = 0
        fr.prev = None
        fr.regs = {}
        fr.dest = dest
        fr.cont = cont
        fr.allocas = []
        fr.rett = f.ret
        for (t, n), a in zip(f.params, args): fr.regs[n] = a
        st.frames.append(fr)
        self.funcs_used.add(f.name)
        if len(st.frames) > 400: raise PathEnd('limit', 'call depth')

    def step_path(self, st):
        disp = self.dispatch
        maxs = self.o['max_steps']
        while True:
            if st.must is not None: self.next_thread()
            frames = st.frames
            fr = frames[-1]
            self.regs = fr.regs
            self.fr = fr
            while True:
                ins = fr.ins[fr.idx]
                st.steps += 1
                self.nsteps += 1
                if st.steps > maxs: raise PathEnd('limit', 'steps')
                if disp[ins[0]](ins):
                    break
                fr.idx += 1
            if (st.steps & 1023) == 0 and self.o['deadline'] and time.time() > self.o['deadline']:
                raise PathEnd('timeout')
            if not st.frames:
                if st.cur == 0: raise PathEnd('done')
                st.thr[st.cur].done = True
                st.must = 'end'

    # each x_ returns truthy when the frame/block changed
    def goto(self, lab):
        fr = self.fr
        prev = fr.block
        blk = fr.fn.blocks[lab]
        i = 0
        if blk[0][0] == 'phi':
            vals = []
            while blk[i][0] == 'phi':
                _, d, t, inc = blk[i]
                v = inc[prev]
                vals.append((d, self.val(v, t)))
                i += 1
            for d, v in vals: fr.regs[d] = v
        fr.prev = prev
        fr.block = lab
        fr.ins = blk
        fr.idx = i
        return True

    def x_phi(self, i): raise Unsupported('phi')

    def x_bin(self, i):
        _, d, op, t, a, b, fl = i
        a = self.val(a, t)
        b = self.val(b, t)
        if t[0] == 'v':
            w = t[2][1]
            self.regs[d] = tuple(self.ibin(op, w, x, y, fl) for x, y in zip(a, b))
        else: self.regs[d] = self.ibin(op, t[1], a, b, fl)

    def x_fbin(self, i):
        _, d, op, t, a, b, fl = i
        a = self.val(a, t)
        b = self.val(b, t)
        if t[0] == 'v': self.regs[d] = tuple(self.fbin(op, x, y) for x, y in zip(a, b))
        else: self.regs[d] = self.fbin(op, a, b)

    def x_fneg(self, i):
        a = self.val(i[3], i[2])
        self.regs[i[1]] = tuple(self.fneg(x) for x in a) if i[2][0] == 'v' else self.fneg(a)

    def x_icmp(self, i):
        _, d, pred, t, a, b = i
        a = self.val(a, t)
        b = self.val(b, t)
        if t[0] == 'v': self.regs[d] = tuple(self.icmp(pred, t[2], x, y) for x, y in zip(a, b))
        else: self.regs[d] = self.icmp(pred, t, a, b)

    def x_fcmp(self, i):
        _, d, pred, t, a, b = i
        a = self.val(a, t)
        b = self.val(b, t)
        if t[0] == 'v': self.regs[d] = tuple(self.fcmp(pred, x, y) for x, y in zip(a, b))
        else: self.regs[d] = self.fcmp(pred, a, b)

    def x_cast(self, i):
        _, d, op, t1, a, t2, fl = i
        self.regs[d] = self.cast(op, t1, self.val(a, t1), t2)

    def x_select(self, i):
        _, d, ct, c, t, a, b = i
        c = self.val(c, ct)
        a = self.val(a, t)
        b = self.val(b, t)
        if ct[0] == 'v': self.regs[d] = tuple(self.select(k, t[2], x, y) for k, x, y in zip(c, a, b))
        else: self.regs[d] = self.select(c, t, a, b)

    def x_br(self, i): return self.goto(i[2])

    def x_cbr(self, i):
        c = self.val(i[2])
        if type(c) is not int:
            if isinstance(c, UndefT): c = 0
            else: c = self.decide(self.tobool(c))
        return self.goto(i[3] if c else i[4])

    def x_switch(self, i):
        _, _, t, v, d, cases = i
        v = self.val(v, t)
        if type(v) is not int:
            w = t[1]
            if isinstance(v, Cond): v = T.n_ite(v, 1, 0)
            if isinstance(v, UndefT): v = 0
            else:
                for cv, lab in cases:
                    r = self.icmp('eq', t, v, cv)
                    if type(r) is not int: r = self.decide(r)
                    if r: return self.goto(lab)
                return self.goto(d)
        for cv, lab in cases:
            if cv == v: return self.goto(lab)
        return self.goto(d)

    def x_ret(self, i):
        st = self.st
        v = None
        if i[2] is not None: v = self.val(i[3], i[2])
        fr = st.frames.pop()
        for a in fr.allocas: st.mem.pop(a, None)
        if not st.frames: return True
        cal = st.frames[-1]
        if fr.dest is not None: cal.regs[fr.dest] = v
        self.fr = cal
        self.regs = cal.regs
        if fr.cont is not None: self.goto(fr.cont)
        else: cal.idx += 1
        return True

    def x_unreachable(self, i): raise PathEnd('ub', 'unreachable reached')
    def x_resume(self, i): raise PathEnd('ub', 'resume')
    def x_landingpad(self, i): raise PathEnd('ub', 'landingpad')
    def x_nop(self, i): return None
    def x_unsupported(self, i): raise Unsupported('instruction ' + i[2][:80])

    def x_asm(self, i):
        if '""' in i[3] or 'asm sideeffect ""' in i[3]: return None
        raise Unsupported('inline asm')

    def x_load(self, i):
        if self.st.thr is not None and self.racy(self.val(i[3])) and self.visible(): return True
        self.regs[i[1]] = self.load(self.val(i[3]), i[2])

    def x_store(self, i):
        if self.st.thr is not None and self.racy(self.val(i[4])) and self.visible(): return True
        self.store(self.val(i[4]), i[2], self.val(i[3], i[2]))

    def x_alloca(self, i):
        n = self.val(i[3])
        a = self.alloc(ll.size_of(i[2]) * n, 'stack')
        self.fr.allocas.append(a >> 32)
        self.regs[i[1]] = a

    def x_gep(self, i):
        _, d, t, bt, base, idx = i
        b = self.val(base)
        self.regs[d] = self.gep_addr(t, b, [(x, self.val(y)) for x, y in idx])

    def x_extractvalue(self, i):
        v = self.val(i[2])
        for k in i[3]: v = v[k]
        self.regs[i[1]] = v

    def x_insertvalue(self, i):
        _, d, t, v, e, ix = i
        v = self.val(v, t)
        if isinstance(v, UndefT): v = self.undef_of(t)
        self.regs[d] = self.insv(v, ix, self.val(e))

    def insv(self, v, ix, e):
        v = list(v)
        v[ix[0]] = e if len(ix) == 1 else self.insv(v[ix[0]], ix[1:], e)
        return tuple(v)

    def x_extractelement(self, i):
        v = self.val(i[2])
        self.regs[i[1]] = v[self.concretize(self.val(i[3]))]

    def x_insertelement(self, i):
        _, d, t, v, e, ix = i
        v = self.val(v, t)
        if isinstance(v, UndefT): v = self.undef_of(t)
        v = list(v)
        v[self.concretize(self.val(ix))] = self.val(e, t[2])
        self.regs[d] = tuple(v)

    def x_shufflevector(self, i):
        _, d, t, a, b, m = i
        a = self.val(a, t)
        b = self.val(b, t)
        if isinstance(a, UndefT): a = self.undef_of(t)
        if isinstance(b, UndefT): b = self.undef_of(t)
        ab = tuple(a) + tuple(b)
        if isinstance(m, Agg): ms = [0 if e is UNDEF else e for e in m.elems]
        elif m is UNDEF: ms = [0] * len(a)
        else: ms = self.val(m)
        self.regs[d] = tuple(ab[k] for k in ms)

    def x_freeze(self, i):
        v = self.val(i[3], i[2])
        self.regs[i[1]] = self.undef_of(i[2]) if isinstance(v, UndefT) else v

    def x_aload(self, i):
        p = self.val(i[3])
        if self.shared(p) and self.visible((id(i), p)): return True
        self.regs[i[1]] = self.load(p, i[2])

    def x_astore(self, i):
        p = self.val(i[4])
        if self.shared(p) and self.visible(): return True
        self.store(p, i[2], self.val(i[3], i[2]))

    def x_atomicrmw(self, i):
        _, d, aop, ptr, t, v = i
        p = self.val(ptr)
        if self.st.thr is not None and self.shared(p) and not self.count_only(i) and self.visible(): return True
        v = self.val(v, t)
        old = self.load(p, t)
        w = t[1] if t[0] == 'i' else 64
        if aop == 'xchg': new = v
        elif aop in ('add', 'sub', 'and', 'or', 'xor'): new = self.ibin(aop, w, old, v, ())
        elif aop in ('max', 'umax', 'min', 'umin'):
            pr = {'max': 'sgt', 'umax': 'ugt', 'min': 'slt', 'umin': 'ult'}[aop]
            new = self.select(self.icmp(pr, t, old, v), t, old, v)
        else: raise Unsupported('atomicrmw ' + aop)
        self.store(p, t, new)
        self.regs[d] = old

    def x_cmpxchg(self, i):
        _, d, ptr, t, c, n = i
        p = self.val(ptr)
        if self.shared(p) and self.visible(): return True
        c = self.val(c, t)
        n = self.val(n, t)
        old = self.load(p, t)
        r = self.icmp('eq', t, old, c)
        if type(r) is not int: r = int(self.decide(r))
        if r: self.store(p, t, n)
        self.regs[d] = (old, r)

    # ---------------------------------------------------------------- calls
    def resolve(self, name):
        h = self.callcache.get(name)
        if h is not None: return h
        nm = name
        while nm in self.mod.alias and nm not in self.mod.funcs: nm = self.mod.alias[nm]
        h = None
        if nm in self.overrides: h = self.overrides[nm]
        elif nm.startswith('sx_'):
            h = getattr(self, nm, None)
            if h is None: raise Unsupported('intrinsic ' + nm)
        elif nm.startswith('llvm.'):
            h = self.llvm(nm)
        elif ALLOCZ_RE.search(nm): h = lambda a: self.alloc(self.concretize(a[0][1]))
        elif ALLOC_RE.search(nm): h = lambda a: self.alloc(self.concretize(a[0][1]))
        elif DEALLOC_RE.search(nm): h = lambda a: self.do_free(a[0][1])
        elif REALLOC_RE.search(nm): h = lambda a: self.do_realloc(a[0][1], self.concretize(a[1][1]), self.concretize(a[3][1]))
        elif 'no_alloc_shim' in nm: h = lambda a: None
        elif EPRINT_RE.search(nm): h = lambda a: None
        elif PANIC_RE.search(nm): h = lambda a: self.do_panic(nm, a)
        elif nm in LIBC: h = getattr(self, 'c_' + LIBC[nm][0])
        elif nm in MATH: h = self.mathfn(nm)
        else:
            f = self.mod.get_func(nm)
            if f is None:
                def h(a): raise Unsupported('external function ' + nm)
            else: h = f
        if isinstance(h, ll.Func): pass
        self.callcache[name] = h
        return h

    def do_panic(self, nm, a):
        raise PathEnd('panic', short(nm))

    def do_free(self, p):
        self.st.mem.pop(p >> 32, None)
        self.st.own.discard(p >> 32)

    def do_realloc(self, p, old, new):
        q = self.alloc(new)
        if old: self.memcpy(q, p, min(old, new))
        self.do_free(p)
        return q

    def c_malloc(self, a): return self.alloc(self.concretize(a[0][1]))
    def c_calloc(self, a): return self.alloc(self.concretize(a[0][1]) * self.concretize(a[1][1]))
    def c_free(self, a): return self.do_free(a[0][1])

    def c_realloc(self, a):
        p = a[0][1]
        n = self.concretize(a[1][1])
        if p == 0: return self.alloc(n)
        return self.do_realloc(p, self.obj(p).size, n)

    def c_memalign(self, a):
        p = self.alloc(self.concretize(a[2][1]))
        self.store(a[0][1], ('p',), p)
        return 0

    def c_memcpy(self, a):
        n = self.concretize(a[2][1])
        self.memcpy(a[0][1], a[1][1], n)
        return a[0][1]

    def c_memset(self, a):
        self.memset(a[0][1], a[1][1] if type(a[1][1]) is not int else a[1][1] & 255, self.concretize(a[2][1]))
        return a[0][1]

    def c_memcmp(self, a):
        n = self.concretize(a[2][1])
        if n == 0: return 0
        # pairwise on natural cells
        for i in range(n):
            x = self.load(a[0][1] + i, ('i', 8))
            y = self.load(a[1][1] + i, ('i', 8))
            r = self.icmp('eq', ('i', 8), x, y)
            if type(r) is not int: r = self.decide(r)
            if not r:
                r = self.icmp('ult', ('i', 8), x, y)
                if type(r) is not int: r = self.decide(r)
                return 0xffffffff if r else 1
        return 0

    def c_bcmp(self, a):
        n = self.concretize(a[2][1])
        if n == 0: return 0
        x = self.load(a[0][1], ('i', 8 * n))
        y = self.load(a[1][1], ('i', 8 * n))
        r = self.icmp('ne', ('i', 8 * n), x, y)
        return r if type(r) is int else T.n_ite(r, 1, 0)

    def c_strlen(self, a):
        p = a[0][1]
        n = 0
        while self.concretize(self.load(p + n, ('i', 8)), 8) != 0: n += 1
        return n

    def x_call(self, i):
        _, d, rt, callee, args, normal = i
        st = self.st
        if type(callee) is GlobalRef: name = callee.name
        else:
            a = self.val(callee)
            if type(a) is not int: a = self.concretize(a)
            name = self.addrg.get(a >> 32)
            if name is None: raise Unsupported('indirect call to %x' % a)
        h = self.resolve(name)
        if isinstance(h, ll.Func):
            av = [self.val(v, t) for t, v in args]
            self.enter(st, h, av, d, normal)
            return True
        av = [(t, self.val(v, t)) for t, v in args]
        self.rett = rt
        r = h(av)
        if d is not None: self.regs[d] = r
        if normal is not None: return self.goto(normal)
        if st.must is not None:
            self.fr.idx += 1
            return True
        return None

    # ---------------------------------------------------------------- LLVM intrinsics
    def llvm(self, nm):
        b = nm[5:]
        for k, f in (('lifetime.', None), ('dbg.', None), ('experimental.noalias', None), ('invariant.', None), ('prefetch', None),
                     ('donothing', None), ('fake.use', None)):
            if b.startswith(k): return lambda a: None
        if b.startswith('assume'): return lambda a: None
        if b.startswith('memcpy') or b.startswith('memmove'): return lambda a: (self.memcpy(a[0][1], a[1][1], self.concretize(a[2][1])), None)[1]
        if b.startswith('memset'): return lambda a: (self.memset(a[0][1], a[1][1], self.concretize(a[2][1])), None)[1]
        if b.startswith('trap') or b.startswith('ubsantrap'):
            def h(a): raise PathEnd('panic', 'trap')
            return h
        if b.startswith('threadlocal.address'): return lambda a: self.tls_addr(a[0][1])
        if b.startswith('x86.sse2.pause'): return self.pause
        if b.startswith('ptrmask') or b.startswith('launder') or b.startswith('strip'):
            return lambda a: a[0][1]
        if b.startswith('is.constant'): return lambda a: 0
        if b.startswith('expect'): return lambda a: a[0][1]
        if b.startswith('objectsize'): return lambda a: (1 << 64) - 1
        base = b.split('.v')[0] if re.search(r'\.v\d', b) else b
        base = re.sub(r'(\.(f16|f32|f64|i\d+|p0))+$', '', base)
        f = getattr(self, 'i_' + base.replace('.', '_'), None)
        if f is None:
            def h(a): raise Unsupported('intrinsic ' + nm)
            return h
        ov = 'with.overflow' in b

        def call(a):
            if a and a[0][0][0] == 'v':
                t = a[0][0]
                if ov: raise Unsupported('vector overflow')
                if base.startswith('vector.reduce'): return f(a)
                n = t[1]
                out = []
                for k in range(n):
                    out.append(f([(x[0][2], x[1][k]) if x[0][0] == 'v' else x for x in a]))
                return tuple(out)
            return f(a)
        return call

    def ov(self, op, a, signed):
        w = a[0][0][1]
        x, y = a[0][1], a[1][1]
        M = 1 << w
        if type(x) is int and type(y) is int:
            if signed: x, y = self.signed(x, w), self.signed(y, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
            return (r & (M - 1), int(not lo <= r <= hi))
        f = self.signed if signed else self.unsigned
        x = T.n_ite(x, 1, 0) if isinstance(x, Cond) else x
        y = T.n_ite(y, 1, 0) if isinstance(y, Cond) else y
        x, y = f(x, w), f(y, w)
        r = {'add': T.n_add, 'sub': T.n_sub, 'mul': T.n_mul}[op](x, y)
        lo, hi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        if type(r) is int: return (r & (M - 1), int(not lo <= r <= hi))
        c = T.c_or(T.c_not(self.fcond('>=', T.n_sub(r, lo))), T.c_not(self.fcond('>=', T.n_sub(hi, r))))
        if isinstance(c, Cond):
            # in range => keep r as the representative
            if self.decide(c): return (self.wrap(r, w), 1)
            return (r, 0)
        return (r if not c else self.wrap(r, w), int(c))

    def wrap(self, r, w):
        return T.n_sub(r, T.n_mul(T.n_idiv(r, 1 << w), 1 << w))

    def i_sadd_with_overflow(self, a): return self.ov('add', a, True)
    def i_ssub_with_overflow(self, a): return self.ov('sub', a, True)
    def i_smul_with_overflow(self, a): return self.ov('mul', a, True)
    def i_uadd_with_overflow(self, a): return self.ov('add', a, False)
    def i_usub_with_overflow(self, a): return self.ov('sub', a, False)
    def i_umul_with_overflow(self, a): return self.ov('mul', a, False)

    def satop(self, op, a, signed):
        w = a[0][0][1]
        r, o = self.ov(op, a, signed)
        if not o: return r
        if signed:
            x = self.signed(a[0][1], w)
            neg = self.decide(T.c_not(self.fcond('>=', x)))
            return 1 << (w - 1) if neg else (1 << (w - 1)) - 1
        return 0 if op == 'sub' else (1 << w) - 1

    def i_sadd_sat(self, a): return self.satop('add', a, True)
    def i_ssub_sat(self, a): return self.satop('sub', a, True)
    def i_uadd_sat(self, a): return self.satop('add', a, False)
    def i_usub_sat(self, a): return self.satop('sub', a, False)

    def iminmax(self, pred, a):
        t, x = a[0]
        y = a[1][1]
        c = self.icmp(pred, t, x, y)
        if type(c) is int: return x if c else y
        if self.st.known(c) is None and not self.o.get('fork_iminmax', True):
            w = t[1]
            f = self.signed if pred[0] == 's' else self.unsigned
            x, y = f(x, w), f(y, w)
            r = T.n_ite(c, x, y)
            return self.minmax_axioms(r, 'gt' in pred, x, y)
        return x if self.decide(c) else y

    def i_umin(self, a): return self.iminmax('ult', a)
    def i_umax(self, a): return self.iminmax('ugt', a)
    def i_smin(self, a): return self.iminmax('slt', a)
    def i_smax(self, a): return self.iminmax('sgt', a)

    def i_abs(self, a):
        w = a[0][0][1]
        x = self.signed(a[0][1], w)
        if type(x) is int: return abs(x) & ((1 << w) - 1)
        return x if self.decide(self.fcond('>=', x)) else T.n_neg(x)

    def i_ucmp(self, a): return self.cmp3(a, 'u')
    def i_scmp(self, a): return self.cmp3(a, 's')

    def cmp3(self, a, k):
        t, x = a[0]
        y = a[1][1]
        for p, v in ((k + 'lt', -1), (k + 'gt', 1)):
            c = self.icmp(p, t, x, y)
            if type(c) is not int: c = self.decide(c)
            if c: return v & ((1 << self.rett[1]) - 1)
        return 0

    def i_ctlz(self, a):
        w = a[0][0][1]
        x = self.concretize(a[0][1], w)
        return w - x.bit_length()

    def i_cttz(self, a):
        w = a[0][0][1]
        x = a[0][1]
        if type(x) is not int:
            # symbolic: fork bit by bit
            x = self.unsigned(x, w)
            for k in range(w):
                q = T.n_idiv(x, 1 << (k + 1))
                bit = T.n_sub(T.n_idiv(x, 1 << k), T.n_mul(q, 2))
                if type(bit) is int: b = bit
                else: b = self.decide(self.fcond('=', T.n_sub(bit, 1)))
                if b: return k
            return w
        return w if x == 0 else (x & -x).bit_length() - 1

    def i_ctpop(self, a): return bin(self.concretize(a[0][1], a[0][0][1])).count('1')

    def i_bswap(self, a):
        w = a[0][0][1]
        return int.from_bytes(self.concretize(a[0][1], w).to_bytes(w // 8, 'little'), 'big')

    def i_bitreverse(self, a):
        w = a[0][0][1]
        return int(bin(self.concretize(a[0][1], w))[2:].zfill(w)[::-1], 2)

    def i_fshl(self, a):
        w = a[0][0][1]
        x, y, s = (self.concretize(v[1], w) for v in a)
        s %= w
        return ((((x << w) | y) << s) >> w) & ((1 << w) - 1)

    def i_fshr(self, a):
        w = a[0][0][1]
        x, y, s = (self.concretize(v[1], w) for v in a)
        s %= w
        return (((x << w) | y) >> s) & ((1 << w) - 1)

    # floats
    def i_fabs(self, a): return self.fabs(a[0][1])
    def i_sqrt(self, a): return self.fsqrt(a[0][1])
    def i_maxnum(self, a): return self.fminmax(True, a[0][1], a[1][1])
    def i_minnum(self, a): return self.fminmax(False, a[0][1], a[1][1])
    i_maximumnum = i_maxnum
    i_minimumnum = i_minnum
    def i_fma(self, a): return self.fbin('fadd', self.fbin('fmul', a[0][1], a[1][1]), a[2][1])
    i_fmuladd = i_fma
    def i_canonicalize(self, a): return a[0][1]

    def i_maximum(self, a): return NAN if NAN in (a[0][1], a[1][1]) else self.fminmax(True, a[0][1], a[1][1])
    def i_minimum(self, a): return NAN if NAN in (a[0][1], a[1][1]) else self.fminmax(False, a[0][1], a[1][1])

    def i_floor(self, a):
        x = a[0][1]
        if isspec(x): return x
        r = T.n_floor(x)
        return Fraction(r) if type(r) is int else r

    def i_ceil(self, a):
        x = a[0][1]
        if isspec(x): return x
        r = T.n_neg(T.n_floor(T.n_neg(x)))
        return Fraction(r) if type(r) is int else r

    def i_trunc(self, a):
        x = a[0][1]
        if isspec(x): return x
        if not isinstance(x, Node): return Fraction(math.trunc(x))
        return self.i_floor(a) if self.decide(self.fcond('>=', x)) else self.i_ceil(a)

    def i_round(self, a):
        x = a[0][1]
        if isspec(x): return x
        if isinstance(x, Node):
            pos = self.decide(self.fcond('>=', x))
        else: pos = x >= 0
        if pos: r = T.n_floor(T.n_add(x, Fraction(1, 2)))
        else: r = T.n_neg(T.n_floor(T.n_add(T.n_neg(x), Fraction(1, 2))))
        return Fraction(r) if type(r) is int else r

    def i_rint(self, a): raise Unsupported('rint')

    def i_copysign(self, a):
        x, y = a[0][1], a[1][1]
        x = self.fabs(x)
        if y == NAN: return x
        if y in (NINF, NZERO): return self.fneg(x)
        if y == PINF: return x
        if not isinstance(y, Node): return x if y >= 0 else self.fneg(x)
        c = self.fcond('>=', y)
        if isinstance(c, Cond) and self.st.known(c) is None and not isspec(x) and not self.o['fork_select']:
            return self.fx(T.n_ite(c, x, T.n_neg(x)))
        return x if self.decide(c) else self.fneg(x)

    def i_powi(self, a):
        n = self.signed(self.concretize(a[1][1], a[1][0][1]), a[1][0][1])
        x = a[0][1]
        r = Fraction(1)
        for _ in range(abs(n)): r = self.fbin('fmul', r, x)
        if n < 0: r = self.fbin('fdiv', Fraction(1), r)
        return r

    def i_is_fpclass(self, a):
        x, m = a[0][1], a[1][1]
        if x == NAN: return int(bool(m & 3))
        if x == PINF: return int(bool(m & 512))
        if x == NINF: return int(bool(m & 4))
        if x == NZERO: return int(bool(m & 32))
        # bits: 8 neg normal, 16 neg subnormal, 32 -0, 64 +0, 128 pos subnormal, 256 pos normal
        if not isinstance(x, Node):
            if x == 0: return int(bool(m & 64))
            return int(bool(m & (256 if x > 0 else 8)))
        neg = (m & 8) != 0
        zero = (m & 96) != 0
        pos = (m & 256) != 0
        if neg == zero == pos: return int(neg)
        r = False
        if neg: r = T.c_or(r, T.c_not(self.fcond('>=', x)))
        if zero: r = T.c_or(r, self.fcond('=', x))
        if pos: r = T.c_or(r, self.fcond('>', x))
        return one(r)

    def i_fptoui_sat(self, a): return self.ftoi(a[0][1], self.rw(), False, True)
    def i_fptosi_sat(self, a): return self.ftoi(a[0][1], self.rw(), True, True)

    def rw(self):
        t = self.rett
        return t[2][1] if t[0] == 'v' else t[1]

    def i_vector_reduce_add(self, a):
        t, v = a[0]
        r = v[0]
        for x in v[1:]: r = self.ibin('add', t[2][1], r, x, ())
        return r

    def i_vector_reduce_or(self, a): return self._red('or', a)
    def i_vector_reduce_and(self, a): return self._red('and', a)

    def _red(self, op, a):
        t, v = a[0]
        r = v[0]
        for x in v[1:]: r = self.ibin(op, t[2][1], r, x, ())
        return r

    # transcendental functions
    def mathfn(self, nm):
        base, n = MATH[nm]
        f = getattr(self, 'm_' + base)
        return lambda a: f(*[v for _, v in a[:n]])

    def i_sin(self, a): return self.m_sin(a[0][1])
    def i_cos(self, a): return self.m_cos(a[0][1])
    def i_tan(self, a): return self.m_tan(a[0][1])
    def i_exp(self, a): return self.m_exp(a[0][1])
    def i_log(self, a): return self.m_log(a[0][1])
    def i_pow(self, a): return self.m_pow(a[0][1], a[1][1])
    def i_atan(self, a): return self.m_atan(a[0][1])
    def i_acos(self, a): return self.m_acos(a[0][1])
    def i_asin(self, a): return self.m_asin(a[0][1])
    def i_atan2(self, a): return self.m_atan2(a[0][1], a[1][1])
    def i_exp2(self, a): return self.m_opaque('exp2', a[0][1])
    def i_log2(self, a): return self.m_opaque('log2', a[0][1])

    def m_opaque(self, nm, *xs):
        if any(isany(x) for x in xs): return any_of(nm, *xs)
        if all(not isinstance(x, Node) and not isspec(x) for x in xs):
            f = getattr(math, nm)
            try: return Fraction(f(*[float(x) for x in xs]))
            except (ValueError, OverflowError): return NAN
        if any(isspec(x) for x in xs): raise Unsupported(nm + ' of special')
        return T.n_fn(nm, tuple(xs))

    def sincos(self, x):
        """(sin node, cos node) sharing one argument; sin^2 = 1 - cos^2"""
        r = T.rf(x)
        if len(r.n) <= 2 and not r.d:
            # atan(t) + k pi: algebraic (constants within 1e-6 of a multiple of pi are taken for it)
            cst = r.n.get((), 0)
            ms = [(m, k) for m, k in r.n.items() if m != ()]
            turns = round(float(cst) / math.pi)
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1 and ms[0][1] in (1, -1) and abs(float(cst) - turns * math.pi) < 1e-6 * max(1, abs(turns)):
                at = T.ATOMS[ms[0][0][0][0]]
                if at.kind == 'fn' and at.data and at.data[0] == 'atan':
                    t = at.data[1][0]
                    c = self.fdiv(Fraction(1), self.fsqrt(T.n_add(1, T.n_mul(t, t))))
                    s = T.n_mul(t, c)
                    if ms[0][1] == -1: s = T.n_neg(s)
                    if turns % 2: s, c = T.n_neg(s), T.n_neg(c)
                    return s, c
                d = at.data if at.kind == 'fn' and at.data else None
                if d and d[0] in ('atan2', 'acos') and ms[0][1] == 1:
                    if d[0] == 'acos':
                        c = d[1][0]
                        s = self.fsqrt(T.n_sub(1, T.n_mul(c, c)))
                    else:
                        y, x = d[1]
                        h = self.fsqrt(T.n_add(T.n_mul(x, x), T.n_mul(y, y)))
                        if self.decide(self.fcond('=', h)): return Fraction(0), Fraction(1)
                        s, c = self.fdiv(y, h), self.fdiv(x, h)
                    if turns % 2: s, c = T.n_neg(s), T.n_neg(c)
                    return s, c
        (clo, chi), (slo, shi) = trig_range(x, math.pi / 2), trig_range(x, 0)
        c = T.n_fn('cos', x, lo=clo, hi=chi)
        s = T.n_fn('sin', x, lo=slo, hi=shi)
        sa = s.args[0]
        ca = c.args[0]
        if sa.rule is None and ca.rule is None:
            sa.rule = {(): 1, ((ca.id, 2),): -1}
            sa.deps = frozenset(sa.deps | {ca.id})
            sa.zdef = lambda: [sa.z * sa.z + ca.z * ca.z == 1]
            T.UNITS.append((sa.id, ca.id))
        return s, c

    def m_sin(self, x):
        if isany(x): return any_of('m_sin', x)
        if isspec(x):
            return Fraction(0) if x == NZERO else NAN
        if not isinstance(x, Node): return Fraction(math.sin(float(x))) if x else Fraction(0)
        return self.sincos(x)[0]

    def m_cos(self, x):
        if isany(x): return any_of('m_cos', x)
        if isspec(x):
            return Fraction(1) if x == NZERO else NAN
        if not isinstance(x, Node): return Fraction(math.cos(float(x)))
        return self.sincos(x)[1]

    def m_tan(self, x):
        if isany(x): return any_of('m_tan', x)
        if isspec(x): return NZERO if x == NZERO else NAN
        if not isinstance(x, Node): return Fraction(math.tan(float(x)))
        s, c = self.sincos(x)
        return self.fdiv(s, c)

    def m_exp(self, x):
        if isany(x): return any_of('m_exp', x)
        if isspec(x): return {NAN: NAN, PINF: PINF, NINF: Fraction(0), NZERO: Fraction(1)}[x]
        if not isinstance(x, Node): return Fraction(math.exp(float(x)))
        z = T.zterm(x)
        exps = self.__dict__.setdefault('exps', [])
        others = list(exps)

        def ax(a):
            import z3
            r = [a.z > 0, z3.Implies(z <= 0, a.z <= 1), z3.Implies(z >= 0, a.z >= 1), a.z >= 1 + z]
            for y, b in others: r += [z3.Implies(z <= y, a.z <= b), z3.Implies(z >= y, a.z >= b)]
            return r
        n = T.n_fn('exp', x, lo=0, zaxioms=ax)
        at = n.args[0]
        at.nonneg = True
        if not any(b is at.z for _, b in exps): exps.append((z, at.z))
        return n

    def m_log(self, x):
        if isany(x): return any_of('m_log', x)
        if isspec(x): return {NAN: NAN, PINF: PINF, NINF: NAN, NZERO: NINF}[x]
        if not isinstance(x, Node):
            if x == 0: return NINF
            if x < 0: return NAN
            return Fraction(math.log(float(x)))
        if not self.decide(self.fcond('>', x)):
            return NINF if self.decide(self.fcond('=', x)) else NAN
        z = T.zterm(x)

        def ax(a):
            import z3
            return [z3.Implies(z < 1, a.z < 0), z3.Implies(z > 1, a.z > 0), z3.Implies(z == 1, a.z == 0)]
        hi = None
        if x.hi is not None and x.hi <= 1: hi = 0
        return T.n_fn('log', x, hi=hi, zaxioms=ax)

    def m_pow(self, x, y):
        if isany(x) or isany(y): return any_of('m_pow', x, y)
        if isinstance(y, Node) or isspec(y) or y <= 0: return self.m_opaque('pow', x, y)
        if isspec(x): return {NAN: NAN, PINF: PINF, NZERO: Fraction(0)}.get(x) if x != NINF else self.m_opaque('pow', x, y)
        if not isinstance(x, Node):
            if x < 0: return NAN if y.denominator != 1 else x ** int(y)
            return Fraction(float(x) ** float(y)).limit_denominator(10**12)
        if not self.decide(self.fcond('>=', x)): return NAN if y.denominator != 1 else self.m_opaque('pow', x, y)
        zx = T.zterm(x)
        pows = self.__dict__.setdefault('pows', [])
        others = [(z, a) for e, z, a in pows if e == y]
        e = float(y)

        def ax(a):
            import z3
            r = [a.z >= 0, z3.Implies(zx <= 0, a.z == 0)]
            # exact sandwich at a few points (x^e is increasing), rounded outwards
            for c in (0.0031308, 0.001, 0.01, 0.0625, 0.25, 0.5, 0.75, 1., 2.):
                v = c ** e
                lo, hi = Fraction(v) * (1 - Fraction(1, 10**9)), Fraction(v) * (1 + Fraction(1, 10**9))
                if c == 1.: lo = hi = Fraction(1)
                zc = z3.RealVal(str(Fraction(c)))
                r += [z3.Implies(zx >= zc, a.z >= z3.RealVal(str(lo))), z3.Implies(zx <= zc, a.z <= z3.RealVal(str(hi)))]
            if e < 1: r += [z3.Implies(zx <= 1, a.z >= zx), z3.Implies(zx >= 1, a.z <= zx)]
            for z, b in others: r += [z3.Implies(zx <= z, a.z <= b), z3.Implies(zx >= z, a.z >= b)]
            return r
        n = T.n_fn('pow', (x, y), lo=0, hi=1 if x.hi is not None and x.hi <= 1 else None, zaxioms=ax)
        at = n.args[0]
        at.nonneg = True
        if not any(b is at.z for _, _, b in pows): pows.append((y, zx, at.z))
        return n

    def m_atan2(self, y, x):
        y, x = self.num(y), self.num(x)
        if isany(x) or isany(y): return any_of('atan2', y, x)
        if NAN in (x, y): return NAN
        if not isinstance(x, Node) and not isinstance(y, Node) and not isspec(x) and not isspec(y):
            return Fraction(math.atan2(float(y), float(x)))
        if isspec(x) or isspec(y): raise Unsupported('atan2 of inf')
        PI = Fraction(math.pi)
        if self.o.get('opaque_atan', True) and not (T.node_atoms(y) | T.node_atoms(x)) <= {a for r in self.inputs.values() for a in r['atoms']}:
            # arguments that are themselves computed: only the range is kept
            k = (y.id if isinstance(y, Node) else y, x.id if isinstance(x, Node) else x)
            a = self.opaque.get(k)
            if a is None:
                a = T.Atom('atan2o', 'fn', lo=-PI, hi=PI)
                a.data = ('atan2', (y, x))
                self.opaque[k] = a
            return T.atom_node(a)
        zy, zx = T.zterm(y), T.zterm(x)
        yn = T.poly_node(T.rf(y).n) if False else y

        def ax(a):
            import z3
            pi = z3.RealVal(str(PI))
            return [z3.Implies(zy > 0, z3.And(a.z > 0, a.z <= pi)), z3.Implies(zy < 0, z3.And(a.z < 0, a.z >= -pi)),
                    z3.Implies(z3.And(zy == 0, zx >= 0), a.z == 0), z3.Implies(z3.And(zy == 0, zx < 0), a.z == pi)]
        return T.n_fn('atan2', (y, x), lo=-PI, hi=PI, zaxioms=ax)

    def m_atan(self, x):
        if isany(x): return any_of('m_atan', x)
        if isspec(x): raise Unsupported('atan special')
        if not isinstance(x, Node): return Fraction(math.atan(float(x)))
        h = Fraction(math.pi) / 2
        return T.n_fn('atan', x, lo=-h, hi=h)

    def m_acos(self, x):
        if isany(x): return any_of('m_acos', x)
        if isspec(x): return Fraction(math.pi) / 2 if x == NZERO else NAN
        if not isinstance(x, Node): return Fraction(math.acos(float(x))) if -1 <= x <= 1 else NAN
        for y in (T.n_sub(1, x), T.n_add(1, x)):
            if not self.decide(self.fcond('>=', y)): return NAN
        n = T.n_fn('acos', x, lo=0, hi=Fraction(math.pi))
        n.args[0].nonneg = True
        return n

    def m_asin(self, x):
        if isany(x): return any_of('m_asin', x)
        if isspec(x): return x if x == NZERO else NAN
        if not isinstance(x, Node): return Fraction(math.asin(float(x))) if -1 <= x <= 1 else NAN
        for y in (T.n_sub(1, x), T.n_add(1, x)):
            if not self.decide(self.fcond('>=', y)): return NAN
        h = Fraction(math.pi) / 2
        return T.n_fn('asin', x, lo=-h, hi=h)

    def m_sqrt(self, x): return self.fsqrt(x)
    def m_floor(self, x): return self.i_floor([(None, x)])
    def m_ceil(self, x): return self.i_ceil([(None, x)])
    def m_round(self, x): return self.i_round([(None, x)])
    def m_fmax(self, x, y): return self.fminmax(True, x, y)
    def m_fmin(self, x, y): return self.fminmax(False, x, y)

    # ---------------------------------------------------------------- one file, as the kernel keeps it
    # user['file'] = (size, bytes written so far by absolute position, writes outside them?), user['fds'] = {fd: (position, append)}
    def sx_file_old(self, a):
        n = a[0][1]
        self.st.user['file'] = (n if isinstance(n, Node) else n & 0xffffffff, {})
        self.st.user['fds'] = {}

    def c_open(self, a):
        flags = self.concretize(a[1][1], 32)
        if 'file' not in self.st.user: raise Unsupported('open without a file model')
        size, data = self.st.user['file']
        if flags & 0o200: raise Unsupported('open exclusively')
        if flags & 0o1000: size, data = 0, {}
        fds = dict(self.st.user['fds'])
        fd = 100 + len(fds)
        fds[fd] = (0, bool(flags & 0o2000))
        self.st.user['file'] = (size, data)
        self.st.user['fds'] = fds
        return fd

    def c_write(self, a):
        fd, p, n = self.concretize(a[0][1], 32), a[1][1], self.concretize(a[2][1])
        if fd in (1, 2): return n
        size, data = self.st.user['file']
        pos, app = self.st.user['fds'][fd]
        if app: pos = size
        if isinstance(pos, Node): raise Unsupported('append at unknown position')
        bs = [self.load(p + k, ('i', 8)) for k in range(n)]
        end = pos + n
        grow = end > size if not isinstance(size, Node) else self.decide(self.fcond('>', T.n_sub(end, size)))
        data = dict(data)
        for k in range(n): data[pos + k] = bs[k]
        self.st.user['file'] = (end if grow else size, data)
        fds = dict(self.st.user['fds'])
        fds[fd] = (end, app)
        self.st.user['fds'] = fds
        return n

    def c_writev(self, a):
        raise Unsupported('writev')

    def c_close(self, a): return 0

    def c_syscall(self, a):
        n = self.concretize(a[0][1])
        if n == 202: return self.c_futex(a)
        if n != 318: raise Unsupported('syscall %d' % n)
        # getrandom: one fixed seed
        k = self.concretize(a[2][1])
        for j in range(k): self.store(a[1][1] + j, ('i', 8), (j * 37 + 11) & 255)
        return k
    def c_fsync(self, a): return 0

    def c_ftruncate(self, a):
        n = self.concretize(a[1][1])
        size, data = self.st.user['file']
        self.st.user['file'] = (n, {k: v for k, v in data.items() if k < n})
        return 0

    def c_lseek(self, a):
        fd, off, wh = self.concretize(a[0][1], 32), self.concretize(a[1][1]), self.concretize(a[2][1], 32)
        if wh: raise Unsupported('lseek')
        fds = dict(self.st.user['fds'])
        fds[fd] = (off, fds[fd][1])
        self.st.user['fds'] = fds
        return off

    def c_unlink(self, a):
        self.st.user['file'] = (0, {})
        return 0

    def sx_file_len(self, a): return self.st.user['file'][0]

    def sx_file_byte(self, a):
        i = self.concretize(a[0][1], 32)
        size, data = self.st.user['file']
        if i not in data: return 0
        return data[i]

    # ---------------------------------------------------------------- sx intrinsics
    def input(self, iid, kind, lo, hi, isint=False):
        iid = self.concretize(iid, 32)
        key = (iid, kind)
        rec = self.inputs.get(key)
        if rec is None:
            a = T.Atom('in%d' % iid, 'input', isint=isint, lo=lo, hi=hi)
            rec = dict(id=iid, kind=kind, atoms=[a.id], lo=lo, hi=hi)
            self.inputs[key] = rec
        else:
            a = T.ATOMS[rec['atoms'][0]]
            if a.lo != lo or a.hi != hi:
                raise Unsupported('input %d redeclared with other bounds' % iid)
        if lo is not None and lo == hi: 
            return lo if isint else Fraction(lo)
        return T.atom_node(a)

    def sx_f32(self, a):
        return self.input(a[0][1], 'f', a[1][1], a[2][1])

    def sx_i32(self, a):
        return self.input(a[0][1], 'i', self.signed(a[1][1], 32), self.signed(a[2][1], 32), True)

    def sx_u32(self, a):
        return self.input(a[0][1], 'i', a[1][1], a[2][1], True)

    def sx_i64(self, a):
        return self.input(a[0][1], 'i', self.signed(a[1][1], 64), self.signed(a[2][1], 64), True)

    def sx_bool(self, a):
        n = self.input(a[0][1], 'i', 0, 1, True)
        return self.fcond('>=', T.n_sub(n, 1))

    def sx_pick(self, a):
        n = self.concretize(a[1][1])
        if n == 1:
            self.input(a[0][1], 'i', 0, 0, True)
            return 0
        x = self.input(a[0][1], 'i', 0, n - 1, True)
        return self.concretize(x, 32)

    def sx_unit3(self, a):
        iid = self.concretize(a[0][1], 32)
        p = a[1][1]
        key = (iid, 'u')
        rec = self.inputs.get(key)
        if rec is None:
            at = [T.Atom('u%d%s' % (iid, c), 'input', lo=-1, hi=1) for c in 'xyz']
            x, y, z = at
            z.rule = {(): 1, ((x.id, 2),): -1, ((y.id, 2),): -1}
            z.deps = frozenset([x.id, y.id])
            z.zdef = lambda: [x.z * x.z + y.z * y.z + z.z * z.z == 1]
            for q in (x, y): q.deps = frozenset([z.id])
            T.UNITS.append((x.id, y.id, z.id))
            rec = dict(id=iid, kind='u', atoms=[q.id for q in at], lo=-1, hi=1)
            self.inputs[key] = rec
        for k, i in enumerate(rec['atoms']):
            self.store(p + 4 * k, ('f', 32), T.atom_node(T.ATOMS[i]))

    def sx_bound(self, a):
        x, lo, hi = a[0][1], a[1][1], a[2][1]
        if isspec(x): raise Unsupported('bound of special')
        for c in (self.fcond('>=', T.n_sub(x, lo)), self.fcond('>=', T.n_sub(hi, x))):
            if c is False: raise PathEnd('infeasible')
            if c is not True: self.st.add_pc(c)
        return T.n_bound(x, lo, hi)

    def sx_param(self, a):
        return self.params.get(self.concretize(a[0][1], 32), 0) & ((1 << 64) - 1)

    def sx_param_f(self, a):
        return Fraction(self.params_f.get(self.concretize(a[0][1], 32), 0))

    def sx_symbolic(self, a): return 1

    def sx_panic_ok(self, a):
        self.st.panic_ok = bool(a[0][1] & 1)

    def sx_reach(self, a):
        i = self.concretize(a[0][1], 32)
        if i not in self.reach and i not in self.st.reached:
            # need a witness: the path condition must be satisfiable
            self.reach[i] = list(self.st.pc)
        self.st.reached.add(i)

    def sx_note(self, a):
        return None

    def cbool(self, c):
        if isinstance(c, Node) or isinstance(c, Pieces): c = self.tobool(c)
        if type(c) is int: return bool(c & 1)
        return c

    def sx_assume(self, a):
        c = self.cbool(a[0][1])
        if c is True: return
        if c is False: raise PathEnd('infeasible')
        k = self.st.known(c)
        if k is True: return
        if k is False: raise PathEnd('infeasible')
        if solve.feasible(self.st.pc, c, self.o['feas_ms']) == 'unsat': raise PathEnd('infeasible')
        self.st.add_pc(c)

    def sx_assert(self, a):
        c = self.cbool(a[0][1])
        self.obligation(c, self.concretize(a[1][1], 32), 'assert')

    def obligation(self, c, oid, kind, goal_ce=None):
        """c: condition to hold. goal_ce: stronger negation to look for in a counterexample (margins)"""
        t0 = time.time()
        if c is True or (isinstance(c, Cond) and self.st.known(c) is True):
            self.results.append(dict(kind=kind, status='proved', id=oid, how='syntactic', t=0))
            return True
        if c is False:
            r, _ = solve.check(self.st.pc, self.o['prove_ms'])
            status = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'undecided'}[r]
        else:
            r = solve.prove(self.st.pc, c, self.o['prove_ms'])
            status = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'undecided'}[r]
        rec = dict(kind=kind, status=status, id=oid, how='solver', t=time.time() - t0, where=self.where(self.st))
        if status != 'proved':
            rec['models'] = self.models(self.st.pc, T.c_not(c) if goal_ce is None else goal_ce, T.c_not(c))
        self.results.append(rec)
        if c is False:
            raise PathEnd('asserted')
        self.st.add_pc(c)
        return status == 'proved'

    def path_violation(self, st, kind, info):
        r, _ = solve.check(st.pc, self.o['prove_ms'])
        status = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'undecided'}[r]
        rec = dict(kind=kind, status=status, id=-2, how='path', t=0, info=info, where=self.where(st))
        if status != 'proved': rec['models'] = self.models(st.pc, None, None)
        self.results.append(rec)

    def sx_close(self, a):
        x, y, tol, oid = a[0][1], a[1][1], a[2][1], self.concretize(a[3][1], 32)
        x, y = self.num(x), self.num(y)
        x = Fraction(0) if x == 0 and not isinstance(x, Node) else x
        y = Fraction(0) if y == 0 and not isinstance(y, Node) else y
        if isany(x) or isany(y): return self.obligation(False, oid, 'close')
        if isspec(x) or isspec(y):
            return self.obligation(x != NAN and x == y, oid, 'close')
        d = T.n_sub(x, y)
        z = self.fcond('=', d)
        if z is True or (isinstance(z, Cond) and self.st.known(z) is True):
            self.results.append(dict(kind='close', status='proved', id=oid, how='normal form', t=0))
            return
        t0 = time.time()
        if z is not False:
            r = solve.prove(self.st.pc, z, self.o['prove_ms'] // 2)
            if r == 'unsat':
                self.st.learn(z)
                self.results.append(dict(kind='close', status='proved', id=oid, how='solver eq', t=time.time() - t0))
                return
        # |d| <= tol*max(1,|y|): enough |d|<=tol or |d| <= tol*|y|
        ay = T.n_absval(y)
        m = T.n_mul(tol, ay)
        c = T.c_and(T.c_or(self.fcond('>=', T.n_sub(tol, d)), self.fcond('>=', T.n_sub(m, d))),
                    T.c_or(self.fcond('>=', T.n_add(tol, d)), self.fcond('>=', T.n_add(m, d))))
        self.obligation(c, oid, 'close')

    def sx_deriv(self, a):
        x = a[0][1]
        iid = self.concretize(a[1][1], 32)
        rec = self.inputs[(iid, 'f')]
        if isspec(x): raise Unsupported('derivative of special')
        return self.fx(deriv(x, rec['atoms'][0], {}))

    # ---------------------------------------------------------------- models
    def input_atoms_list(self):
        out = []
        for r in self.inputs.values(): out += r['atoms']
        return out

    def models(self, pc, goal, weak):
        """candidate input assignments"""
        conds = list(pc) + ([goal] if goal is not None and goal is not True else [])
        want = self.input_atoms_list()
        out = []
        if goal is False: return out
        ms = self.o.get('model_ms', 3000)
        base = None
        for seed in (0, 7):
            r, m = solve.check(conds, ms, want=want, seed=seed)
            if r == 'sat':
                out.append(m)
                base = m
        # interior models: strengthen strict path conditions away from their boundary
        for eps in (Fraction(1, 16), Fraction(1, 256)):
            cs = []
            for c in conds:
                if isinstance(c, Cond) and c.op in ('>', '>=') and not all(T.ATOMS[x].isint for x in c.atoms):
                    k = T.cond_poly('>=', T.padd(c.p, {(): -eps}))
                    cs.append(k)
                else: cs.append(c)
            r, m = solve.check(cs, ms, want=want) if not any(c is False for c in cs) else ('unsat', None)
            if r == 'sat':
                out.append(m)
                base = m
                break
        if (base is None or any(T.ATOMS[a].kind == 'fn' for a in T.closure(set().union(*[c.atoms for c in conds if isinstance(c, Cond)])))):
            left = min(self.o.get('conc_s', 5), self.conc_left, self.o.get('deadline', time.time() + 99) - time.time())
            if left > 0.2:
                t0 = time.time()
                for i in range(2):
                    m = solve.concretise(conds, want, left / 2, self.rnd, base)
                    if m is not None: out.insert(0, m)
                self.conc_left -= time.time() - t0
        if base is None: return [self.model_inputs(m) for m in out]
        # snap inputs to short dyadics one by one (bounded effort)
        fixed = []
        t_end = time.time() + self.o.get('snap_s', 4)
        import z3
        for i in want:
            at = T.ATOMS[i]
            if at.isint or time.time() > t_end: continue
            v = base[i]
            for den in (1, 4, 16, 64, 1024):
                sv = Fraction(round(v * den), den)
                if at.lo is not None and sv < at.lo or at.hi is not None and sv > at.hi: continue
                ex = [at.z == z3.RealVal(str(sv))]
                r, m = solve.check(conds, 400, want=want, extra=fixed + ex)
                if r == 'sat':
                    fixed += ex
                    base = m
                    break
        if fixed: out.append(base)
        return [self.model_inputs(m) for m in out]

    def model_inputs(self, m):
        out = {}
        for r in self.inputs.values():
            out['%s%d' % (r['kind'], r['id'])] = [str(m.get(i, 0)) for i in r['atoms']]
        return out


def trig_range(x, shift):
    """range of sin(x + shift)"""
    lo, hi = x.lo, x.hi
    r = T.rf(x)
    if not r.d:
        l, h = T.p_interval(r.n)
        if l != -T.INF and (lo is None or l > lo): lo = l
        if h != T.INF and (hi is None or h < hi): hi = h
    if lo is None or hi is None or hi - lo >= 6: return -1, 1
    a, b = float(lo) + shift, float(hi) + shift
    lo, hi = min(math.sin(a), math.sin(b)), max(math.sin(a), math.sin(b))
    k = math.ceil((a - math.pi / 2) / (2 * math.pi))
    if math.pi / 2 + 2 * math.pi * k <= b: hi = 1
    k = math.ceil((a + math.pi / 2) / (2 * math.pi))
    if -math.pi / 2 + 2 * math.pi * k <= b: lo = -1
    return max(Fraction(-1), Fraction(lo) - Fraction(1, 10**6)), min(Fraction(1), Fraction(hi) + Fraction(1, 10**6))


def deriv(x, atom, memo):
    """d x / d atom"""
    if not isinstance(x, Node): return 0
    if x.id in memo: return memo[x.id]
    op = x.op
    if op == 'atom':
        r = datom(x.args[0], atom, memo)
    else:
        if x.op == 'bnd': return deriv(x.args[0], atom, memo)
        u, v = x.args
        du, dv = deriv(u, atom, memo), deriv(v, atom, memo)
        if op == 'add': r = T.n_add(du, dv)
        elif op == 'mul': r = T.n_add(T.n_mul(du, v), T.n_mul(u, dv))
        else: r = T.n_sub(T.n_div(du, v), T.n_div(T.n_mul(u, dv), T.n_mul(v, v)))
    memo[x.id] = r
    return r


def datom(a, atom, memo):
    if a.id == atom: return 1
    if atom not in T.closure([a.id]): return 0
    if a.kind == 'sqrt' and a.rule is not None:
        p = T.poly_node(a.rule)
        return T.n_div(deriv(p, atom, memo), T.n_mul(2, T.atom_node(a)))
    if a.kind == 'sqrt' and getattr(a, 'inner', None) is not None:
        return T.n_div(deriv(a.inner, atom, memo), T.n_mul(2, T.atom_node(a)))
    if a.kind == 'ite':
        c, p, q = a.data
        return T.n_ite(c, deriv(p, atom, memo), deriv(q, atom, memo))
    if a.kind == 'fn':
        nm, xs = a.data
        d = deriv(xs[0], atom, memo)
        if nm == 'sin': return T.n_mul(d, T.n_fn('cos', xs[0]))
        if nm == 'cos': return T.n_neg(T.n_mul(d, T.n_fn('sin', xs[0])))
        if nm == 'exp': return T.n_mul(d, T.atom_node(a))
        if nm == 'log': return T.n_div(d, xs[0])
        if nm == 'atan': return T.n_div(d, T.n_add(1, T.n_mul(xs[0], xs[0])))
    if a.kind == 'floor': return 0
    raise Unsupported('derivative of ' + a.kind + ' ' + a.name)


def short(n):
    """readable form of a mangled name"""
    m = re.findall(r'(\d+)([A-Za-z_][A-Za-z0-9_]*)', n)
    if n.startswith('_RN') or n.startswith('_R'):
        out = []
        i = 0
        s = n
        while i < len(s):
            if s[i].isdigit():
                j = i
                while j < len(s) and s[j].isdigit(): j += 1
                k = int(s[i:j])
                if s[j:j + 1] == '_': j += 1
                w = s[j:j + k]
                if k and len(w) == k and re.match(r'^[A-Za-z_]\w*$', w):
                    out.append(w)
                    i = j + k
                    continue
                i = j
            else: i += 1
        return '::'.join(out[-3:]) if out else n
    if n.startswith('_ZN'):
        out = []
        i = 3
        while i < len(n) and n[i].isdigit():
            j = i
            while n[j].isdigit(): j += 1
            k = int(n[i:j])
            out.append(n[j:j + k])
            i = j + k
        return '::'.join(out[-4:-1] or out)
    return n


LIBC = {'open64': ('open',), 'open': ('open',), 'write': ('write',), 'writev': ('writev',), 'close': ('close',), 'fsync': ('fsync',), 'fcntl': ('close',), 'fdatasync': ('fsync',),
        'ftruncate64': ('ftruncate',), 'ftruncate': ('ftruncate',), 'lseek64': ('lseek',), 'lseek': ('lseek',), 'unlink': ('unlink',), 'syscall': ('syscall',),
        'pthread_create': ('pthread_create',), 'pthread_join': ('pthread_join',), 'pthread_self': ('pthread_self',), 'gettid': ('gettid',), 'sysconf': ('sysconf',), 'getauxval': ('getauxval',),
        'pthread_attr_init': ('zero',), 'pthread_attr_setstacksize': ('zero',), 'pthread_attr_destroy': ('zero',), 'pthread_setname_np': ('zero',), 'dlsym': ('zero',), 'getenv': ('zero',),
        '__cxa_thread_atexit_impl': ('zero',), 'pthread_key_create': ('key_create',), 'pthread_setspecific': ('zero',), 'pthread_key_delete': ('zero',), 'pthread_detach': ('zero',), 'sched_yield': ('pause',), '__errno_location': ('errno',),
        'malloc': ('malloc',), 'calloc': ('calloc',), 'free': ('free',), 'realloc': ('realloc',), 'posix_memalign': ('memalign',),
        'memcpy': ('memcpy',), 'memmove': ('memcpy',), 'memset': ('memset',), 'memcmp': ('memcmp',), 'bcmp': ('bcmp',), 'strlen': ('strlen',)}
MATH = {}
for _n, _k in (('sin', 1), ('cos', 1), ('tan', 1), ('exp', 1), ('log', 1), ('pow', 2), ('atan', 1), ('acos', 1), ('asin', 1),
               ('atan2', 2), ('sqrt', 1), ('floor', 1), ('ceil', 1), ('round', 1), ('fmax', 2), ('fmin', 2)):
    MATH[_n] = (_n, _k)
    MATH[_n + 'f'] = (_n, _k)
