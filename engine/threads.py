"""Threads of the program under test: pthread_create/join, futexes, thread-local storage, and a scheduler whose choices
are symbolic inputs. A choice is made before every operation that other threads can observe: atomic operations on shared
memory, apart from reference counts (whose result is only compared with a constant, so that their order is not observable).
Between two such operations safe Rust code shares no mutable memory. The number of preemptions (switches away from a
thread that could go on) is bounded by the option `preempt`; switches at blocking operations are free."""
import ll
from sx import PathEnd, Obj
from terms import Unsupported


class Thread:
    __slots__ = ('frames', 'wait', 'done', 'tls')

    def __init__(self, frames):
        self.frames = frames
        self.wait = None
        self.done = False
        self.tls = {}

    def copy(self):
        t = Thread([f.copy() for f in self.frames])
        t.wait = self.wait
        t.done = self.done
        t.tls = dict(self.tls)
        return t


class Threads:
    # ---------------------------------------------------------------- scheduling
    def runnable(self, k):
        t = self.st.thr[k]
        if t.done: return False
        return t.wait is None or t.wait[0] == 'join' and self.st.thr[t.wait[1]].done

    def choose(self, n):
        """a symbolic scheduling choice (0..n-1)"""
        st = self.st
        if n == 1: return 0
        x = self.input(900000 + 16 * st.nsched + n, 's', 0, n - 1, True)
        v = self.concretize(x, 32)
        st.nsched += 1
        return v

    def switch(self, k):
        st = self.st
        st.thr[k].wait = None
        st.cur = k
        st.frames = st.thr[k].frames
        st.granted = True
        st.spin = None
        st.pauses = 0

    def visible(self, load=None):
        """scheduling point before an observable operation; True if another thread goes first. A load that follows itself
        at the same address, with nothing observable between (a wait loop), is no further scheduling point."""
        st = self.st
        if st.thr is None: return False
        again = load is not None and st.spin == load
        st.spin = load
        if st.granted:
            st.granted = False
            return False
        if again: return False
        if st.preempts >= self.o.get('preempt', 2): return False
        ks = [k for k in range(len(st.thr)) if k != st.cur and self.runnable(k)]
        c = self.choose(1 + len(ks))
        if c == 0: return False
        st.preempts += 1
        self.switch(ks[c - 1])
        return True

    def next_thread(self):
        """the current thread cannot go on (blocked, ended) or gives way"""
        st = self.st
        ks = [k for k in range(len(st.thr)) if self.runnable(k)]
        if not ks: raise PathEnd('panic', 'deadlock')
        if st.must == 'yield': ks = ([k for k in ks if k > st.cur] + ks)[:1]
        c = self.choose(len(ks))
        st.must = None
        self.switch(ks[c])

    # ---------------------------------------------------------------- atomics
    def shared(self, p):
        """may other threads notice an operation on this address?"""
        if self.st.thr is None: return False
        n = self.addrg.get(p >> 32) if type(p) is int else None
        return not (n and ('3std' in n or '4core' in n or '5alloc' in n))

    def racy(self, p):
        """plain access to a mutable static of the crate"""
        n = self.addrg.get(p >> 32) if type(p) is int else None
        if n is None: return False
        r = self.racy_cache.get(n)
        if r is None:
            r = self.racy_cache[n] = n in self.mod.globals and not ('3std' in n or '4core' in n or '5alloc' in n) \
                and 'thread_local' not in self.mod.globals[n] and not self.mod.global_init(n)[2]
        return r

    def count_only(self, i):
        """atomicrmw whose result is only compared with constants: a reference count"""
        fn = self.fr.fn
        c = self.rc_cache.get(id(i))
        if c is None:
            c = (i[2] in ('add', 'sub') and type(i[5]) is int and i[5] in (1, (1 << 64) - 1) and uses_compare(fn, i[1]), i)
            self.rc_cache[id(i)] = c
        return c[0]

    # ---------------------------------------------------------------- thread-local storage
    def tls_addr(self, a):
        st = self.st
        if st.thr is None or st.cur == 0: return a
        oid = a >> 32
        t = st.thr[st.cur].tls
        if oid not in t:
            ty, v, const = self.mod.global_init(self.addrg[oid])
            size = ll.size_of(ty)
            n = self.alloc(size, 'global')
            o = Obj(size, bytearray(size), 'global')
            if v is not None: self.init_const(o, 0, ty, v)
            st.mem[n >> 32] = o
            st.own.add(n >> 32)
            t[oid] = n
        return t[oid] + (a & 0xffffffff)

    # ---------------------------------------------------------------- pthread
    def c_zero(self, a): return 0
    def c_getauxval(self, a): return 0
    def c_sysconf(self, a): return 4096
    def c_gettid(self, a): return 1000 + self.st.cur
    def c_pthread_self(self, a): return 1 + self.st.cur

    def c_errno(self, a):
        if 'errno' not in self.st.user:
            p = self.alloc(8, 'global')
            self.store(p, ('i', 64), 0)
            self.st.user['errno'] = p
        return self.st.user['errno']

    def c_key_create(self, a):
        self.st.user['keys'] = k = self.st.user.get('keys', 0) + 1
        self.store(a[0][1], ('i', 32), k)
        return 0

    def c_pause(self, a):
        if self.st.thr is not None: self.st.must = 'yield'
        return 0

    def c_pthread_create(self, a):
        st = self.st
        if st.thr is None:
            st.thr = [Thread(st.frames)]
            st.cur = 0
        fp, arg = self.concretize(a[2][1]), a[3][1]
        f = self.resolve(self.addrg[fp >> 32])
        if not isinstance(f, ll.Func): raise Unsupported('thread function')
        t = Thread([])
        keep = st.frames
        st.frames = t.frames
        self.enter(st, f, [arg], None, None)
        st.frames = keep
        st.thr.append(t)
        self.store(a[0][1], ('i', 64), len(st.thr))
        return 0

    def c_pthread_join(self, a):
        st = self.st
        k = self.concretize(a[0][1]) - 1
        if not st.thr[k].done:
            st.thr[st.cur].wait = ('join', k)
            st.must = 'block'
        return 0

    def c_futex(self, a):
        st = self.st
        addr, op = self.concretize(a[1][1]), self.concretize(a[2][1], 32) & 127
        if op in (0, 9):
            v = self.load(addr, ('i', 32))
            if v != a[3][1] & 0xffffffff:
                self.store(self.c_errno([]), ('i', 32), 11)
                return (1 << 64) - 1
            if st.thr is None: raise PathEnd('panic', 'deadlock')
            st.thr[st.cur].wait = ('futex', addr)
            st.must = 'block'
            return 0
        if op in (1, 10):
            n = self.concretize(a[3][1], 32)
            w = 0
            for t in st.thr or []:
                if t.wait == ('futex', addr) and w < n:
                    t.wait = None
                    w += 1
            return w
        raise Unsupported('futex operation %d' % op)

    def pause(self, a):
        """a wait loop goes on for a while before it gives way to the next thread; blocking is the rule after it, in std"""
        st = self.st
        if st.thr is None: return
        st.pauses += 1
        if st.pauses % 200 == 0: st.must = 'yield'


def uses_compare(fn, reg):
    """is the register used by comparisons with constants only?"""
    n = 0
    for b in fn.blocks.values():
        for j in b:
            if j[0] == 'icmp':
                ops = j[3:]
            else:
                if mentions(j[2:], reg) or j[0] == 'phi' and mentions(j, reg): return False
                continue
            if mentions(ops, reg):
                n += 1
                if not any(type(x) is int for x in ops): return False
    return True


def mentions(x, reg):
    if isinstance(x, ll.Local): return x.name == reg
    if isinstance(x, (tuple, list)): return any(mentions(y, reg) for y in x)
    return False
