"""Exact-real / mathematical-integer term layer: rational-function normal forms over atoms, canonical conditions,
and their translation to z3."""
import math, struct
from fractions import Fraction
import z3

INF = float('inf')


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


LIMIT = [1500]

# ------------------------------------------------------------------ atoms
ATOMS = []


class Atom:
    __slots__ = ('id', 'name', 'kind', 'isint', 'lo', 'hi', 'rule', 'zdef', 'deps', 'z', 'data', 'node', 'nonneg', 'lit', 'ev', 'inner')

    def __init__(self, name, kind, isint=False, lo=None, hi=None):
        self.id = len(ATOMS)
        ATOMS.append(self)
        self.name = name
        self.kind = kind
        self.isint = isint
        self.lo = lo
        self.hi = hi
        self.rule = None      # Poly equal to atom^2
        self.zdef = None      # callable -> list of z3 exprs
        self.deps = ()        # atoms referred to by the definition
        self.data = None
        self.nonneg = lo is not None and lo >= 0
        self.z = z3.Int(name + '!%d' % self.id) if isint else z3.Real(name + '!%d' % self.id)
        self.node = None
        self.inner = None
        self.ev = None        # float evaluation: (kind, argument)

    def __repr__(self): return self.name


# ------------------------------------------------------------------ polynomials: dict mono->coef
def q(x):
    if type(x) is Fraction and x.denominator == 1:
        return x.numerator
    return x


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = q(v)
    return r


def pscale(a, k):
    if k == 1: return a
    return {m: q(c * k) for m, c in a.items()}


def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * LIMIT[0]:
        raise TooBig()
    r = {}
    red = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0: r.pop(m, None)
            else: r[m] = v
    r = preduce(r)
    if len(r) > LIMIT[0]: raise TooBig()
    return {m: q(c) for m, c in r.items()}


def preduce(p):
    while True:
        hit = None
        for m in p:
            for a, e in m:
                if e >= 2 and ATOMS[a].rule is not None:
                    hit = True
                    break
            if hit: break
        if not hit: return p
        out = {}
        for m, c in p.items():
            rm = None
            for a, e in m:
                if e >= 2 and ATOMS[a].rule is not None:
                    rm = (a, e)
                    break
            if rm is None:
                v = out.get(m, 0) + c
                if v == 0: out.pop(m, None)
                else: out[m] = v
                continue
            a, e = rm
            rest = [(x, y) for x, y in m if x != a]
            if e % 2: rest.append((a, 1))
            rest = tuple(sorted(rest))
            pw = {(): 1}
            for _ in range(e // 2):
                nw = {}
                for m1, c1 in pw.items():
                    for m2, c2 in ATOMS[a].rule.items():
                        mm = mmul(m1, m2)
                        v = nw.get(mm, 0) + c1 * c2
                        if v == 0: nw.pop(mm, None)
                        else: nw[mm] = v
                pw = nw
            for m2, c2 in pw.items():
                mm = mmul(rest, m2)
                v = out.get(mm, 0) + c * c2
                if v == 0: out.pop(mm, None)
                else: out[mm] = v
            if len(out) > 4 * LIMIT[0]: raise TooBig()
        p = out


PONE = {(): 1}


def pconst(p):
    """constant value or None"""
    if not p: return 0
    if len(p) == 1:
        c = p.get(())
        return c
    return None


def pkey(p):
    return tuple(sorted(p.items()))


def pdeg(p):
    return max((sum(e for _, e in m) for m in p), default=0)


def patoms(p):
    s = set()
    for m in p:
        for a, _ in m: s.add(a)
    return s


def pprimitive(p):
    """p = k * prim, k>0 rational, prim integer coprime coefs"""
    l = 1
    for c in p.values():
        if type(c) is Fraction:
            l = l * c.denominator // math.gcd(l, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c * l))
    if g == 0: return 1, p
    k = Fraction(g, l)
    return q(k), {m: int(c * l) // g for m, c in p.items()}


def pdivexact(a, b, maxsteps=400):
    """exact quotient a/b in the free polynomial ring or None"""
    if len(b) == 1:
        (mb, cb), = b.items()
        db = dict(mb)
        out = {}
        for m, c in a.items():
            d = dict(m)
            for x, e in db.items():
                if d.get(x, 0) < e: return None
                d[x] -= e
                if d[x] == 0: del d[x]
            out[tuple(sorted(d.items()))] = q(Fraction(c) / cb)
        return out

    def order(m):
        return (sum(e for _, e in m), [(-x, e) for x, e in m])
    lb = max(b, key=order)
    cb = b[lb]
    # quick degree filter
    da = patoms(a)
    if not patoms(b) <= da: return None
    r = dict(a)
    quo = {}
    steps = 0
    lbd = dict(lb)
    while r:
        steps += 1
        if steps > maxsteps: return None
        lm = max(r, key=order)
        d = dict(lm)
        for x, e in lbd.items():
            if d.get(x, 0) < e: return None
            d[x] -= e
            if d[x] == 0: del d[x]
        m = tuple(sorted(d.items()))
        c = q(Fraction(r[lm]) / cb)
        quo[m] = quo.get(m, 0) + c
        for m2, c2 in b.items():
            mm = mmul(m, m2)
            v = r.get(mm, 0) - c * c2
            if v == 0: r.pop(mm, None)
            else: r[mm] = q(v)
    return quo


# interned denominators factors
FACT = {}
FACTS = []


def fact_id(p):
    k = pkey(p)
    i = FACT.get(k)
    if i is None:
        i = len(FACTS)
        FACT[k] = i
        FACTS.append(p)
    return i


def split_content(p):
    """p = c * prod(atom^e) * rest; rest primitive with positive leading coefficient or None when constant 1"""
    k, prim = pprimitive(p)
    common = None
    for m in prim:
        d = dict(m)
        if common is None: common = d
        else:
            for a in list(common):
                e = d.get(a, 0)
                if e < common[a]:
                    if e == 0: del common[a]
                    else: common[a] = e
        if not common: break
    rest = prim
    if common:
        rest = {}
        for m, c in prim.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
                if d[a] == 0: del d[a]
            rest[tuple(sorted(d.items()))] = c
    lead = max(rest) if rest else None
    if rest[lead] < 0:
        rest = {m: -c for m, c in rest.items()}
        k = -k
    if len(rest) == 1 and () in rest:
        k = q(k * rest[()])
        rest = None
    return k, common, rest


class RF:
    """num / prod(FACTS[i]^e)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d): self.n = n; self.d = d


def den_mul(d1, d2):
    if not d1: return d2
    if not d2: return d1
    r = dict(d1)
    for f, e in d2.items(): r[f] = r.get(f, 0) + e
    return r


def den_poly(d):
    p = PONE
    for f, e in d.items():
        for _ in range(e): p = pmul(p, FACTS[f])
    return p


def cancel(n, d):
    if not d: return n, d
    if not n: return n, {}
    d = dict(d)
    for f in list(d):
        while f in d:
            fp = FACTS[f]
            if len(fp) > 60 or len(n) > 400: break
            r = pdivexact(n, fp)
            if r is None: break
            n = r
            d[f] -= 1
            if d[f] == 0: del d[f]
    return n, d


def rf_add(a, b, k=1):
    if a.d == b.d:
        n = padd(a.n, b.n, k)
        n, d = cancel(n, a.d)
        return RF(n, d)
    l = dict(a.d)
    for f, e in b.d.items():
        if l.get(f, 0) < e: l[f] = e
    pa = a.n
    pb = b.n
    for f, e in l.items():
        for _ in range(e - a.d.get(f, 0)): pa = pmul(pa, FACTS[f])
        for _ in range(e - b.d.get(f, 0)): pb = pmul(pb, FACTS[f])
    n, d = cancel(padd(pa, pb, k), l)
    return RF(n, d)


def rf_mul(a, b):
    n = pmul(a.n, b.n)
    n, d = cancel(n, den_mul(a.d, b.d))
    return RF(n, d)


def add_fact(d, p, e, k):
    """multiply the factored denominator d, with constant k[0], by p^e"""
    c, common, rest = split_content(p)
    k[0] = k[0] * c ** e
    for a, x in (common or {}).items():
        f = fact_id({((a, 1),): 1})
        d[f] = d.get(f, 0) + x * e
    if rest is None: return
    if len(rest) <= 60:
        at = patoms(rest)
        for f, fp in enumerate(FACTS):
            if len(fp) < 2 or len(fp) > 12 or len(fp) > len(rest) or len(rest) < 2: continue
            if fp is rest or not patoms(fp) <= at: continue
            if fp == rest: break
            while True:
                r = pdivexact(rest, fp, 60)
                if r is None: break
                d[f] = d.get(f, 0) + e
                rest = r
                if len(rest) < 2: break
            if len(rest) < 2:
                c = pconst(rest)
                if c is not None:
                    k[0] = k[0] * c ** e
                    return
                return add_fact(d, rest, e, k)
        s = poly_square_root(rest)
        if s is not None: return add_fact(d, s, 2 * e, k)
    if rest[max(rest)] < 0 and False: pass
    f = fact_id(rest)
    d[f] = d.get(f, 0) + e


def rf_inv(b):
    k, common, rest = split_content(b.n)
    d = {}
    k = [k]
    if common:
        for a, e in common.items():
            at = ATOMS[a]
            if e >= 2 and at.rule is not None and len(at.rule) > 1:
                add_fact(d, at.rule, e // 2, k)
                e = e % 2
            if e:
                f = fact_id({((a, 1),): 1})
                d[f] = d.get(f, 0) + e
    if rest is not None: add_fact(d, rest, 1, k)
    n = pscale(den_poly(b.d), q(Fraction(1) / k[0]))
    n, d = cancel(n, d)
    return RF(n, d)


def rf_key(r):
    return (pkey(r.n), tuple(sorted(r.d.items())))


# ------------------------------------------------------------------ nodes
NODES = {}
NODELIST = []


class Node:
    __slots__ = ('op', 'args', 'id', '_rf', 'lo', 'hi', 'isint')

    def __repr__(self):
        return show(self)


def show(n, depth=6):
    if not isinstance(n, Node): return str(n)
    if n.op == 'atom': return n.args[0].name
    if n.op == 'bnd': return show(n.args[0], depth)
    if depth == 0: return '#%d' % n.id
    o = {'add': '+', 'mul': '*', 'div': '/', 'sub': '-'}[n.op]
    return '(' + o.join(show(a, depth - 1) for a in n.args) + ')'


def _mk(op, args, lo, hi, isint):
    k = (op,) + tuple(a.id if isinstance(a, (Node,)) else ('c', a) for a in args)
    n = NODES.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(NODELIST)
        n._rf = None
        n.lo = lo
        n.hi = hi
        n.isint = isint
        NODES[k] = n
        NODELIST.append(n)
    return n


def atom_node(a):
    if a.node is None:
        k = ('atom', a.id)
        n = Node()
        n.op = 'atom'
        n.args = (a,)
        n.id = len(NODELIST)
        n._rf = RF({((a.id, 1),): 1}, {})
        n.lo = a.lo
        n.hi = a.hi
        n.isint = a.isint
        NODELIST.append(n)
        a.node = n
    return a.node


def lo_of(x): return x.lo if isinstance(x, Node) else x
def hi_of(x): return x.hi if isinstance(x, Node) else x
def is_int(x): return x.isint if isinstance(x, Node) else (type(x) is int or x.denominator == 1)


def n_add(a, b):
    na = isinstance(a, Node)
    nb = isinstance(b, Node)
    if not na and not nb: return a + b
    if not na and a == 0: return b
    if not nb and b == 0: return a
    if na and nb:
        # (x + y) - x = y
        for u, v in ((a, b), (b, a)):
            if u.op == 'add':
                for x, y in (u.args, u.args[::-1]):
                    if is_neg(v, x): return y
            if is_neg(v, u): return 0
    if na and nb and a.id > b.id: a, b = b, a
    elif nb and not na: a, b = b, a
    la, lb, ha, hb = lo_of(a), lo_of(b), hi_of(a), hi_of(b)
    lo = None if la is None or lb is None else la + lb
    hi = None if ha is None or hb is None else ha + hb
    r = _mk('add', (a, b), lo, hi, is_int(a) and is_int(b))
    return tighten(r) if BNDTAB else r


def is_neg(v, x):
    """v is -x"""
    if not isinstance(x, Node): return False
    for p, q_ in ((v, x), (x, v)):
        if p.op == 'mul' and not isinstance(p.args[0], Node) and p.args[0] == -1 and p.args[1] is q_: return True
    return False


def n_bound(x, lo, hi):
    """x, known to lie in [lo, hi]"""
    if not isinstance(x, Node): return x
    if x.lo is not None and x.lo >= lo and x.hi is not None and x.hi <= hi: return x
    k = ('bnd', x.id, lo, hi)
    n = NODES.get(k)
    if n is None:
        n = Node()
        n.op = 'bnd'
        n.args = (x,)
        n.id = len(NODELIST)
        n._rf = rf(x)
        n.lo = lo if x.lo is None else max(lo, x.lo)
        n.hi = hi if x.hi is None else min(hi, x.hi)
        n.isint = x.isint
        NODES[k] = n
        NODELIST.append(n)
        try:
            kk = rf_key(n._rf)
            o = BNDTAB.get(kk)
            if o is None or (n.lo >= o.lo and n.hi <= o.hi): BNDTAB[kk] = n
        except TooBig: pass
    return n


BNDTAB = {}


def tighten(x):
    """an equal node with a known interval, if there is one"""
    if not BNDTAB or not isinstance(x, Node) or x.op in ('bnd', 'atom'): return x
    try: r = rf(x)
    except TooBig: return x
    n = BNDTAB.get(rf_key(r))
    if n is None:
        if r.d or len(r.n) > 2: return x
        l, h = p_interval(r.n)
        if l == -INF or h == INF or x.lo is not None and x.hi is not None and h - l >= x.hi - x.lo: return x
        return n_bound(x, l, h)
    if x.lo is not None and x.hi is not None and n.hi - n.lo >= x.hi - x.lo: return x
    return n


def n_neg(a):
    return n_mul(a, -1) if isinstance(a, Node) else -a


def n_sub(a, b):
    if a is b: return 0
    return n_add(a, n_neg(b))


def n_mul(a, b):
    na = isinstance(a, Node)
    nb = isinstance(b, Node)
    if not na and not nb: return a * b
    if na and nb and a.id > b.id: a, b = b, a
    elif na and not nb: a, b = b, a
    if not isinstance(a, Node):
        if a == 0: return 0
        if a == 1: return b
        if b.op == 'mul' and not isinstance(b.args[0], Node):
            return n_mul(a * b.args[0], b.args[1])
    la, lb, ha, hb = lo_of(a), lo_of(b), hi_of(a), hi_of(b)
    lo = hi = None
    if a is b:
        if la is not None and ha is not None:
            hi = max(la * la, ha * ha)
            lo = 0 if la <= 0 <= ha else min(la * la, ha * ha)
        else:
            lo = 0
    elif None not in (la, lb, ha, hb):
        c = (la * lb, la * hb, ha * lb, ha * hb)
        lo = min(c)
        hi = max(c)
    elif la is not None and lb is not None and la >= 0 and lb >= 0:
        lo = la * lb
    elif not isinstance(a, Node):
        if a > 0:
            lo = None if lb is None else a * lb
            hi = None if hb is None else a * hb
        else:
            lo = None if hb is None else a * hb
            hi = None if lb is None else a * lb
    return _mk('mul', (a, b), lo, hi, is_int(a) and is_int(b))


def n_div(a, b):
    """b known nonzero"""
    na = isinstance(a, Node)
    nb = isinstance(b, Node)
    if not nb:
        return n_mul(a, Fraction(1) / b)
    if not na and a == 0: return 0
    if a is b: return 1
    la, lb, ha, hb = lo_of(a), lo_of(b), hi_of(a), hi_of(b)
    lo = hi = None
    if lb is not None and lb > 0 or hb is not None and hb < 0 and lb is not None:
        if None not in (la, ha, hb):
            c = (Fraction(la) / lb, Fraction(la) / hb, Fraction(ha) / lb, Fraction(ha) / hb)
            lo, hi = min(c), max(c)
        elif la is not None and la >= 0 and lb > 0:
            lo = 0
    if lo is None and la is not None and la >= 0 and lb is not None and lb >= 0: lo = 0
    return _mk('div', (a, b), lo, hi, False)


def rf(x):
    if not isinstance(x, Node):
        return RF({(): q(x)} if x != 0 else {}, {})
    if x._rf is not None: return x._rf
    # iterative post-order
    stack = [x]
    while stack:
        n = stack[-1]
        if n._rf is not None:
            stack.pop()
            continue
        todo = [a for a in n.args if isinstance(a, Node) and a._rf is None]
        if todo:
            stack.extend(todo)
            continue
        try:
            a, b = n.args
            if n.op == 'add': r = rf_add(rf(a), rf(b))
            elif n.op == 'mul': r = rf_mul(rf(a), rf(b))
            else: r = rf_mul(rf(a), rf_inv(rf(b)))
            if len(r.n) > LIMIT[0]: raise TooBig()
        except TooBig:
            r = _purify(n)
        n._rf = r
        stack.pop()
    return x._rf


def _purify(n):
    a, b = n.args
    at = Atom('p', 'def', isint=n.isint, lo=n.lo, hi=n.hi)
    at.deps = node_atoms(a) | node_atoms(b)
    at.ev = ('bin', n.op, a, b)

    def zd():
        za, zb = zterm(a), zterm(b)
        if n.op == 'add': return [at.z == za + zb]
        if n.op == 'mul': return [at.z == za * zb]
        return [at.z * zb == za]
    at.zdef = zd
    return RF({((at.id, 1),): 1}, {})


def node_atoms(x):
    if not isinstance(x, Node): return set()
    r = rf(x)
    s = patoms(r.n)
    for f in r.d: s |= patoms(FACTS[f])
    return s


# ------------------------------------------------------------------ z3 translation
def zpoly(p, forcereal=False):
    if not p: return z3.RealVal(0)
    allint = not forcereal and all(ATOMS[a].isint for a in patoms(p)) and all(type(c) is int for c in p.values())
    if allint:
        one = lambda c: z3.IntVal(c)
        at = lambda a: ATOMS[a].z
    else:
        one = lambda c: z3.RealVal(str(c))
        at = lambda a: z3.ToReal(ATOMS[a].z) if ATOMS[a].isint else ATOMS[a].z
    ts = []
    for m, c in p.items():
        fs = []
        for a, e in m:
            z = at(a)
            for _ in range(e): fs.append(z)
        if c != 1 or not fs: fs.insert(0, one(c))
        t = fs[0]
        for f in fs[1:]: t = t * f
        ts.append(t)
    if len(ts) == 1: return ts[0]
    return z3.Sum(ts)


def zterm(x):
    """z3 term for a value node (division purified through rf)"""
    if not isinstance(x, Node): return z3.RealVal(str(x))
    r = rf(x)
    n = zpoly(r.n, True)
    if not r.d: return n
    return n / zpoly(den_poly(r.d), True)


# ------------------------------------------------------------------ conditions
CONDS = {}
CONDLIST = []


class Cond:
    __slots__ = ('op', 'p', 'args', 'id', '_z', '_neg', 'atoms', 'name')

    def __repr__(self):
        if self.op in ('>', '>=', '=', '!='):
            return pshow(self.p) + self.op + '0'
        if self.op == 'b': return self.name
        return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'


def pshow(p):
    out = []
    for m, c in list(p.items())[:12]:
        out.append('%s%s' % (c, ''.join('*%s%s' % (ATOMS[a].name, '^%d' % e if e > 1 else '') for a, e in m)))
    return ' + '.join(out) + (' ...' if len(p) > 12 else '')


def _mkcond(op, p, args, key):
    k = (op, key)
    c = CONDS.get(k)
    if c is None:
        c = Cond()
        c.op = op
        c.p = p
        c.args = args
        c.id = len(CONDLIST)
        c._z = None
        c._neg = None
        c.name = None
        if p is not None: c.atoms = frozenset(patoms(p))
        elif args: c.atoms = frozenset().union(*[a.atoms for a in args])
        else: c.atoms = frozenset()
        CONDS[k] = c
        CONDLIST.append(c)
    return c


def p_interval(p):
    lo = hi = 0
    for m, c in p.items():
        l = h = c
        if m:
            l = h = 1
            for a, e in m:
                at = ATOMS[a]
                al = -INF if at.lo is None else at.lo
                ah = INF if at.hi is None else at.hi
                if e % 2 == 0:
                    ml = 0 if al <= 0 <= ah else min(abs(al), abs(ah))
                    mh = max(abs(al), abs(ah))
                    if ml == INF or ml == -INF: return -INF, INF
                    el = ml ** e
                    eh = INF if mh == INF else mh ** e
                else:
                    el = al if al in (INF, -INF) else al ** e
                    eh = ah if ah in (INF, -INF) else ah ** e
                cs = []
                for x in (l, h):
                    for y in (el, eh):
                        if x == 0 or y == 0: cs.append(0)
                        else:
                            try: cs.append(x * y)
                            except OverflowError: cs.append(INF if (x > 0) == (y > 0) else -INF)
                l, h = min(cs), max(cs)
            if c != 0:
                if c > 0: l, h = (l if l in (INF, -INF) else l * c), (h if h in (INF, -INF) else h * c)
                else: l, h = (-h if h in (INF, -INF) else h * c), (-l if l in (INF, -INF) else l * c)
        if lo != -INF: lo = -INF if l == -INF else lo + l
        if hi != INF: hi = INF if h == INF else hi + h
        if lo == -INF and hi == INF: break
    return lo, hi


def cond_poly(op, p):
    c = pconst(p)
    if c is not None:
        return {'>': c > 0, '>=': c >= 0, '=': c == 0, '!=': c != 0}[op]
    lo, hi = p_interval(p)
    if op == '>':
        if lo > 0: return True
        if hi <= 0: return False
    elif op == '>=':
        if lo >= 0: return True
        if hi < 0: return False
    else:
        if lo > 0 or hi < 0: return op == '!='
    if op in ('>', '>=') and len(p) <= 16 and any(ATOMS[a].kind == 'sqrt' for a in patoms(p)):
        sg = sqrt_sign(p)
        if sg == 1 and op == '>=': return True
        if sg == -1 and op == '>': return False
    _, p = pprimitive(p)
    if op in ('=', '!='):
        if p[max(p)] < 0: p = {m: -c for m, c in p.items()}
    # integers: strict to non-strict
    if op == '>' and all(ATOMS[a].isint for a in patoms(p)):
        p = padd(p, {(): -1})
        op = '>='
    if op == '>=' and len(p) <= 2 and all(ATOMS[a].isint for a in patoms(p)):
        # tighten c*m + k >= 0  ->  m + floor(k/c) >= 0
        ms = [m for m in p if m]
        if len(ms) == 1 and abs(p[ms[0]]) > 1:
            c = abs(p[ms[0]])
            k = p.get((), 0)
            p = {ms[0]: p[ms[0]] // c}
            if k // c: p[()] = k // c
    return _mkcond(op, p, None, pkey(p))


def c_not(c):
    if c is True: return False
    if c is False: return True
    if c._neg is None:
        if c.op == '>': r = cond_poly('>=', pscale(c.p, -1))
        elif c.op == '>=': r = cond_poly('>', pscale(c.p, -1))
        elif c.op == '=': r = cond_poly('!=', c.p)
        elif c.op == '!=': r = cond_poly('=', c.p)
        elif c.op == 'and': r = c_or(*[c_not(a) for a in c.args])
        elif c.op == 'or': r = c_and(*[c_not(a) for a in c.args])
        elif c.op == 'not': r = c.args[0]
        else: r = _mkcond('not', None, (c,), c.id)
        c._neg = r
        if isinstance(r, Cond): r._neg = c
    return c._neg


def c_and(*cs):
    s = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c.op == 'and':
            for a in c.args:
                if a not in s: s.append(a)
        elif c not in s: s.append(c)
    for a in s:
        if c_not(a) in s: return False
    if not s: return True
    if len(s) == 1: return s[0]
    s.sort(key=lambda c: c.id)
    return _mkcond('and', None, tuple(s), tuple(c.id for c in s))


def c_or(*cs):
    s = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        if c.op == 'or':
            for a in c.args:
                if a not in s: s.append(a)
        elif c not in s: s.append(c)
    for a in s:
        if c_not(a) in s: return True
    if not s: return False
    if len(s) == 1: return s[0]
    s.sort(key=lambda c: c.id)
    return _mkcond('or', None, tuple(s), tuple(c.id for c in s))


def c_xor(a, b):
    return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))


def c_ite(c, a, b):
    return c_or(c_and(c, a), c_and(c_not(c), b))


def c_bool(name):
    c = _mkcond('b', None, None, name)
    c.name = name
    return c


def zcond(c):
    if c is True: return z3.BoolVal(True)
    if c is False: return z3.BoolVal(False)
    if c._z is None:
        if c.op == '>': c._z = zpoly(c.p) > 0
        elif c.op == '>=': c._z = zpoly(c.p) >= 0
        elif c.op == '=': c._z = zpoly(c.p) == 0
        elif c.op == '!=': c._z = zpoly(c.p) != 0
        elif c.op == 'and': c._z = z3.And([zcond(a) for a in c.args])
        elif c.op == 'or': c._z = z3.Or([zcond(a) for a in c.args])
        elif c.op == 'not': c._z = z3.Not(zcond(c.args[0]))
        elif c.op == 'b': c._z = z3.Bool(c.name)
    return c._z


def even_positive(p):
    """syntactically >= 0: all exponents even or nonneg atoms, coefs > 0; returns '>' if positive constant present"""
    for m, c in p.items():
        if c < 0: return None
        for a, e in m:
            if e % 2 and not ATOMS[a].nonneg: return None
    return '>' if p.get((), 0) > 0 else '>='


def cmp_zero(op, x, known=None, struct=True):
    """condition  x op 0 for value x; `known` maps poly-sign queries to facts: known(cond)->True/False/None"""
    if not isinstance(x, Node):
        return {'>': x > 0, '>=': x >= 0, '=': x == 0, '!=': x != 0}[op]
    if x.lo is not None:
        if op == '>' and x.lo > 0: return True
        if op == '>=' and x.lo >= 0: return True
        if op in ('=', '!=') and x.lo > 0: return op == '!='
    if x.hi is not None:
        if op == '>' and x.hi <= 0: return False
        if op == '>=' and x.hi < 0: return False
        if op in ('=', '!=') and x.hi < 0: return op == '!='
    if struct and x.op in ('mul', 'div', 'add', 'bnd'):
        s = struct_sign(x, known, {}, [60])
        if s is not None:
            if op in ('=', '!='):
                if s in ('+', '-'): return op == '!='
            elif s == '+' or s == '0+' and op == '>=': return True
            elif s == '-' or s == '0-' and op == '>': return False
    r = rf(x)
    p = r.n
    if not p: return op in ('>=', '=')
    if op in ('=', '!='):
        return strip_nonzero(op, p, known)
    sign = 1
    for f, e in r.d.items():
        if e % 2 == 0: continue
        fp = FACTS[f]
        s = sign_of(fp, known)
        if s == 1: continue
        if s == -1:
            sign = -sign
            continue
        p = pmul(p, fp)
    if sign < 0: p = pscale(p, -1)
    return strip_pos(op, p, known)


_SFLIP = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', None: None, '0': '0'}


def struct_sign(x, known, memo, fuel):
    """sign of a value from the way it was computed: '+', '0+' (>= 0), '-', '0-' or None"""
    if not isinstance(x, Node): return '+' if x > 0 else '-' if x < 0 else '0'
    if x.lo is not None and x.lo > 0: return '+'
    if x.hi is not None and x.hi < 0: return '-'
    if x.id in memo: return memo[x.id]
    if fuel[0] <= 0: return None
    fuel[0] -= 1
    base = '0+' if x.lo is not None and x.lo >= 0 else '0-' if x.hi is not None and x.hi <= 0 else None
    memo[x.id] = base
    s = base
    if x.op == 'bnd':
        s = struct_sign(x.args[0], known, memo, fuel)
        if base and (s is None or len(s) == 2 and s != base): s = base
    elif x.op in ('mul', 'div'):
        a, b = x.args
        if a is b:
            s = '1' if x.op == 'div' else '0+'
            if s == '1' or (struct_sign(a, known, memo, fuel) or '') in ('+', '-'): s = '+'
        elif base is None or len(memo) < 40:
            sb = struct_sign(b, known, memo, fuel)
            if x.op == 'div' and sb: sb = sb[-1]
            if sb == '0': s = '0' if x.op == 'mul' else None
            elif sb is not None or isinstance(a, Node):
                sa = struct_sign(a, known, memo, fuel) if sb is not None else None
                if sa == '0': s = '0'
                elif sa is not None and sb is not None:
                    neg = (sa[-1] == '-') != (sb[-1] == '-')
                    s = ('-' if neg else '+') if len(sa) == len(sb) == 1 else ('0-' if neg else '0+')
        # a square times something
    elif x.op == 'add':
        a, b = x.args
        sa = struct_sign(a, known, memo, fuel)
        if sa is not None:
            sb = struct_sign(b, known, memo, fuel)
            if sa == '0': s = sb
            elif sb == '0': s = sa
            elif sb is not None and sa[-1] == sb[-1]: s = sa[-1] if '+' in (sa, sb) or '-' in (sa, sb) else sa
    if s is None or len(s) == 2 and x.op == 'atom':
        if x.op == 'atom' and known:
            pl = rf(x).n
            g = cond_poly('>', pl)
            if g is True or g is not False and known(g) is True: s = '+'
            elif s is None:
                g = cond_poly('>', pscale(pl, -1))
                if g is True or g is not False and known(g) is True: s = '-'
    if s in (None, '0+', '0-') and x.op == 'add':
        ts, c = [], 0
        st = [(1, x)]
        while st and len(ts) < 12:
            k, y = st.pop()
            if not isinstance(y, Node): c += k * y
            elif y.op == 'add': st += [(k, y.args[0]), (k, y.args[1])]
            elif y.op == 'mul' and not isinstance(y.args[0], Node): st.append((k * y.args[0], y.args[1]))
            else: ts.append((k, y))
        if not st:
            sg = [] if c == 0 else ['+' if c > 0 else '-']
            for k, y in ts:
                v = struct_sign(y, known, memo, fuel)
                sg.append(_SFLIP[v] if k < 0 else v)
            if None not in sg and sg:
                if all(v in ('+', '0+', '0') for v in sg): s = '+' if '+' in sg else '0+'
                elif all(v in ('-', '0-', '0') for v in sg): s = '-' if '-' in sg else '0-'
            if s is None and len(ts) == 1 and ts[0][1].op in ('div', 'bnd'):
                # c + k*(a/b)  has the sign of  (c*b + k*a)/b
                k, y = ts[0]
                if y.op == 'bnd': y = y.args[0]
                if y.op == 'div':
                    v = struct_sign(y.args[1], known, memo, fuel)
                    if v in ('+', '0+', '-', '0-'):
                        w = n_add(n_mul(y.args[1], c), n_mul(y.args[0], k) if isinstance(y.args[0], Node) else y.args[0] * k)
                        w = struct_sign(w, known, memo, fuel)
                        if w: s = w if v[-1] == '+' else _SFLIP[w]
    if s is None and x.op in ('add', 'bnd') and known and x._rf is not None and len(x._rf.n) <= 8:
        for op, t in (('>', '+'), ('>=', '0+')):
            g = cmp_zero(op, x, known, False)
            if g is True or isinstance(g, Cond) and known(g) is True:
                s = t
                break
    if s is None: s = base
    memo[x.id] = s
    return s


def sign_of(p, known):
    """1 / -1 if known nonzero sign (p is known nonzero as a denominator), else 0"""
    ev = even_positive(p)
    if ev: return 1
    if len(p) == 1:
        (m, c), = p.items()
        if all(ATOMS[a].nonneg or e % 2 == 0 for a, e in m): return 1 if c > 0 else -1
    lo, hi = p_interval(p)
    if lo >= 0: return 1
    if hi <= 0: return -1
    if known:
        g = cond_poly('>', p)
        if g is True: return 1
        if g is False: return -1
        v = known(g)
        if v is True: return 1
        if v is False: return -1
    return 0


def strip_pos(op, p, known):
    """remove common monomial factors known positive"""
    c, common, rest = split_content(p)
    if common and known:
        changed = False
        for a, e in list(common.items()):
            at = ATOMS[a]
            nz = cond_poly('!=', {((a, 1),): 1})
            if nz is True or known(nz) is True:
                if e % 2 == 0 or at.nonneg:
                    del common[a]
                    changed = True
        if changed:
            base = {(): c} if rest is None else pscale(rest, c)
            for a, e in common.items():
                base = pmul(base, {((a, e),): 1})
            p = base
    return cond_poly(op, p)


def strip_nonzero(op, p, known):
    c, common, rest = split_content(p)
    if common and known:
        changed = False
        for a, e in list(common.items()):
            nz = cond_poly('!=', {((a, 1),): 1})
            if nz is True or known(nz) is True:
                del common[a]
                changed = True
        if changed:
            base = {(): c} if rest is None else pscale(rest, c)
            for a, e in common.items():
                base = pmul(base, {((a, e),): 1})
            p = base
    return cond_poly(op, p)


# ------------------------------------------------------------------ derived atoms
_FN = {}


def isqrt_frac(x):
    x = Fraction(x)
    a = math.isqrt(x.numerator)
    b = math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        return Fraction(a, b)
    return None


def _fsqrt_bounds(x):
    """rational lower/upper bound of sqrt(x)"""
    x = Fraction(x)
    k = 1 << 60
    v = math.isqrt(x.numerator * k * k // x.denominator)
    return Fraction(v, k), Fraction(v + 2, k)


def n_sqrt(x):
    """x known >= 0"""
    if not isinstance(x, Node):
        r = isqrt_frac(x)
        if r is not None: return r
        lo, hi = _fsqrt_bounds(x)
        k = ('sqrtc', Fraction(x))
        a = _FN.get(k)
        if a is None:
            a = Atom('sqrtc', 'sqrt', lo=lo, hi=hi)
            a.rule = {(): q(Fraction(x))}
            a.nonneg = True
            a.zdef = lambda: [a.z >= 0, a.z * a.z == z3.RealVal(str(x))]
            a.ev = ('sqrt', RF({(): q(Fraction(x))}, {}))
            _FN[k] = a
        return atom_node(a)
    r = rf(x)
    # bring to sqrt(P)/D with D product of known-positive factors
    out_d = {}
    n = r.n
    if not n: return 0
    ok = True
    flip = 1
    for f, e in r.d.items():
        fp = FACTS[f]
        pos = even_positive(fp) or p_interval(fp)[0] >= 0
        neg = not pos and p_interval(fp)[1] <= 0
        if not pos and not neg:
            ok = False
            break
        if e % 2:
            n = pmul(n, fp)
            e += 1
        out_d[f] = e // 2
        if neg and (e // 2) % 2: flip = -flip
    if not ok:
        k = ('sqrtrf', rf_key(r))
        a = _FN.get(k)
        if a is None:
            a = Atom('sqrt', 'sqrt', lo=0)
            a.nonneg = True
            a.deps = frozenset(node_atoms(x))
            a.zdef = lambda r=r: [a.z >= 0, a.z * a.z * zpoly(den_poly(r.d), True) == zpoly(r.n, True)]
            a.ev = ('sqrt', r)
            a.inner = x
            _FN[k] = a
            if x.lo is not None and x.lo > 0: a.lo = _fsqrt_bounds(x.lo)[0]
        if x.hi is not None: a.hi = _fsqrt_bounds(x.hi)[1]
        r = atom_node(a)
        if x.lo is not None and x.lo > 0:
            lo = _fsqrt_bounds(x.lo)[0]
            if r.lo < lo: r = n_lower(r, lo)
        return r
    c, common, rest = split_content(n)
    outside = Fraction(1)
    inner = {(): 1} if rest is None else rest
    if c < 0:
        inner = pscale(inner, -1)
        c = -c
    rc = isqrt_frac(c)
    if rc is not None: outside = rc
    else: inner = pscale(inner, c)
    om = []
    if common:
        for a_, e in common.items():
            if ATOMS[a_].nonneg and e >= 2:
                om.append((a_, e // 2))
                e = e % 2
            if e: inner = pmul(inner, {((a_, e),): 1})
    cst = pconst(inner)
    if cst is not None:
        res = n_sqrt(cst)
    else:
        sq = square_mod_units(inner) or square_with_sqrt(inner)
        if sq is not None:
            res = None
            lo_, hi_ = p_interval(sq)
            if lo_ >= 0 or even_positive(sq): res = poly_node(sq)
            elif hi_ <= 0 or even_positive(pscale(sq, -1)): res = poly_node(pscale(sq, -1))
            else:
                res = n_absval(poly_node(sq))
        else:
            k = ('sqrt', pkey(inner))
            a = _FN.get(k)
            if a is None:
                a = Atom('sqrt', 'sqrt', lo=0)
                a.nonneg = True
                a.rule = inner
                a.deps = frozenset(patoms(inner))
                lo_, hi_ = p_interval(inner)
                if hi_ != INF and hi_ >= 0: a.hi = _fsqrt_bounds(hi_)[1]
                if lo_ != -INF and lo_ > 0: a.lo = _fsqrt_bounds(lo_)[0]
                a.zdef = lambda: [a.z >= 0, a.z * a.z == zpoly(inner, True)]
                a.ev = ('sqrt', RF(inner, {}))
                _FN[k] = a
            res = atom_node(a)
    outside *= flip
    if outside != 1: res = n_mul(res, outside)
    for a_, e in om:
        for _ in range(e): res = n_mul(res, atom_node(ATOMS[a_]))
    for f, e in out_d.items():
        for _ in range(e): res = n_div(res, poly_node(FACTS[f]))
    if isinstance(res, Node):
        lo = 0
        if x.lo is not None and x.lo > 0: lo = _fsqrt_bounds(x.lo)[0]
        if res.lo is None or res.lo < lo: res = n_lower(res, lo)
    return res


def n_lower(x, lo):
    """x, known to be at least lo"""
    k = ('bndl', x.id, lo)
    n = NODES.get(k)
    if n is None:
        n = Node()
        n.op = 'bnd'
        n.args = (x,)
        n.id = len(NODELIST)
        n._rf = rf(x)
        n.lo = lo
        n.hi = x.hi
        n.isint = x.isint
        NODES[k] = n
        NODELIST.append(n)
    return n


def poly_square_root(p):
    """p == r^2 for a single-term-or-small r ? (only tries linear combination via leading terms; small p)"""
    if len(p) > 15: return None
    # try monomial square
    if len(p) == 1:
        (m, c), = p.items()
        rc = isqrt_frac(c) if c > 0 else None
        if rc is None or any(e % 2 for _, e in m): return None
        return {tuple((a, e // 2) for a, e in m): q(rc)}
    n = len(p)
    # number of terms of a k-term square (generic) is k(k+1)/2
    if n not in (3, 6, 10, 15): return None
    sq = []
    for m, c in p.items():
        if all(e % 2 == 0 for _, e in m) and c > 0:
            rc = isqrt_frac(c)
            if rc is not None: sq.append((tuple((a, e // 2) for a, e in m), rc))
    k = {3: 2, 6: 3, 10: 4, 15: 5}[n]
    if len(sq) != k: return None
    base_m, base_c = sq[0]
    r = {base_m: q(base_c)}
    for m, c in sq[1:]:
        cross = p.get(mmul(base_m, m))
        if cross is None: return None
        if abs(cross) != 2 * c * base_c: return None
        r[m] = q(c if cross > 0 else -c)
    rr = {}
    for m1, c1 in r.items():
        for m2, c2 in r.items():
            m = mmul(m1, m2)
            v = rr.get(m, 0) + c1 * c2
            if v == 0: rr.pop(m, None)
            else: rr[m] = q(v)
    return r if rr == p else None


def poly_sqrt_any(p, maxterms=12):
    """square root in the free polynomial ring by leading terms, or None"""
    if not p or len(p) > 70: return None

    def order(m):
        return (sum(e for _, e in m), [(-x, e) for x, e in m])
    lm = max(p, key=order)
    if any(e % 2 for _, e in lm) or p[lm] <= 0: return None
    lc = isqrt_frac(p[lm])
    if lc is None: return None
    h = tuple((a, e // 2) for a, e in lm)
    dh = dict(h)
    r = {h: lc}
    rest = dict(p)
    del rest[lm]
    while rest:
        if len(r) >= maxterms: return None
        m = max(rest, key=order)
        d = dict(m)
        for a, e in dh.items():
            if d.get(a, 0) < e: return None
            d[a] -= e
            if d[a] == 0: del d[a]
        t = tuple(sorted(d.items()))
        if t in r or order(t) >= order(h): return None
        c = rest[m] / (2 * Fraction(lc))
        # rest -= 2 c t r + c^2 t^2
        for m2, c2 in list(r.items()) + [(t, c / 2)]:
            mm = mmul(t, m2)
            v = rest.get(mm, 0) - 2 * c * c2
            if v == 0: rest.pop(mm, None)
            else: rest[mm] = v
        r[t] = c
    return {m: q(c) for m, c in r.items()}


# groups of atoms whose squares add up to 1
UNITS = []
_SQM = {}


def square_mod_units(p):
    """r with r^2 == p modulo the rules of unit groups (sin^2 + cos^2 = 1, unit vectors), or None"""
    k = pkey(p)
    if k in _SQM: return _SQM[k]
    r = poly_square_root(p) or poly_sqrt_any(p)
    if r is None and len(p) <= 60:
        at = patoms(p)
        hs = [p]
        for g in UNITS:
            if not at & set(g): continue
            new = []
            for h in hs:
                new.append(h)
                degs = {m: sum(e for a, e in m if a in g) for m in h}
                D = max(degs.values())
                D += D % 2
                if D == 0 or D > 4 or any(d % 2 for d in degs.values()): continue
                one = {((a, 2),): 1 for a in g}
                out = {}
                for m, c in h.items():
                    t = {m: c}
                    for _ in range((D - degs[m]) // 2):
                        t2 = {}
                        for m1, c1 in t.items():
                            for m2, c2 in one.items():
                                mm = mmul(m1, m2)
                                v = t2.get(mm, 0) + c1 * c2
                                if v == 0: t2.pop(mm, None)
                                else: t2[mm] = v
                        t = t2
                    for mm, v in t.items():
                        v = out.get(mm, 0) + v
                        if v == 0: out.pop(mm, None)
                        else: out[mm] = q(v)
                if out and len(out) <= 40: new.append(out)
            hs = new[-6:]
        for h in hs[1:] if len(hs) > 1 else []:
            c = poly_square_root(h) or poly_sqrt_any(h)
            if c is not None and pmul(c, c) == p:
                r = c
                break
    _SQM[k] = r
    return r


def square_with_sqrt(p):
    """r = A + B K with K a square root and r^2 == p, or None"""
    if len(p) > 80: return None
    for a in sorted(patoms(p), reverse=True):
        at = ATOMS[a]
        if at.kind != 'sqrt' or at.rule is None: continue
        P0, P1 = {}, {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e == 0: P0[m] = c
            elif e == 1: P1[tuple(sorted(d.items()))] = c
            else: break
        else:
            if not P1: continue
            n = square_mod_units(padd(pmul(P0, P0), pmul(pmul(P1, P1), at.rule), -1))
            if n is None: continue
            for s in (1, -1):
                A = square_mod_units(pscale(padd(P0, n, s), Fraction(1, 2)))
                if A is None or not A: continue
                B = pdivexact(pscale(P1, Fraction(1, 2)), A)
                if B is None: continue
                r = padd(A, pmul(B, {((a, 1),): 1}))
                if pmul(r, r) == p: return r
    return None


def sqrt_sign(p):
    """p = A + c S with S a square root: 1 if p >= 0 for certain, -1 if p <= 0, else 0 (c^2 S^2 - A^2 a square or of known sign)"""
    for a in patoms(p):
        at = ATOMS[a]
        if at.kind != 'sqrt' or at.rule is None: continue
        A, C = {}, {}
        ok = True
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e == 0: A[m] = c
            elif e == 1: C[tuple(sorted(d.items()))] = c
            else: ok = False
        if not ok or not C or len(C) > 4 or len(A) > 12: continue
        lo, hi = p_interval(C)
        if not (lo >= 0 or hi <= 0):
            e = even_positive(C) or even_positive(pscale(C, -1))
            if not e: continue
            lo, hi = (0, 1) if even_positive(C) else (-1, 0)
        d = padd(pmul(pmul(C, C), at.rule), pmul(A, A), -1)
        if not d or even_positive(d) or p_interval(d)[0] >= 0 or square_mod_units(d) is not None or square_with_sqrt(d) is not None:
            return 1 if lo >= 0 else -1
    return 0


def poly_node(p):
    res = 0
    for m, c in p.items():
        t = c
        for a, e in m:
            for _ in range(e): t = n_mul(t, atom_node(ATOMS[a]))
        res = n_add(res, t)
    return res


def n_absval(x):
    """|x| as an atom with definition (used when the sign is not decided)"""
    if not isinstance(x, Node): return abs(x)
    x = tighten(x)
    if x.lo is not None and x.lo >= 0: return x
    if x.hi is not None and x.hi <= 0: return n_neg(x)
    r = rf(x)
    c = pconst(r.n)
    if c is not None and not r.d: return abs(c)
    xlo, xhi = x.lo, x.hi
    if not r.d:
        l, h = p_interval(r.n)
        if l != -INF and (xlo is None or l > xlo): xlo = l
        if h != INF and (xhi is None or h < xhi): xhi = h
        if xlo is not None and xlo >= 0: return x
        if xhi is not None and xhi <= 0: return n_neg(x)
    if not r.d and even_positive(r.n): return x
    r2 = RF(pscale(r.n, -1), r.d)
    key = min(rf_key(r), rf_key(r2))
    k = ('abs', key)
    a = _FN.get(k)
    if a is None:
        hi = None
        if xlo is not None and xhi is not None: hi = max(abs(xlo), abs(xhi))
        a = Atom('abs', 'abs', lo=0, hi=hi, isint=x.isint)
        a.nonneg = True
        if not r.d and len(r.n) <= 12:
            try: a.rule = pmul(r.n, r.n)
            except TooBig: pass
        a.deps = frozenset(node_atoms(x))

        def zd():
            t = zpoly(r.n, True)
            av = z3.ToReal(a.z) if a.isint else a.z
            if r.d: av = av * zpoly(den_poly(r.d), True)
            if r.d: return [z3.Or(av == t, av == -t), a.z >= 0]
            return [a.z >= 0, z3.Or(z3.And(t >= 0, av == t), z3.And(t < 0, av == -t))]
        a.zdef = zd
        a.ev = ('abs', r)
        a.data = x
        _FN[k] = a
    return atom_node(a)


def n_ite(c, x, y):
    if c is True: return x
    if c is False: return y
    if x is y or (not isinstance(x, Node) and not isinstance(y, Node) and x == y): return x
    kx = ('n', x.id) if isinstance(x, Node) else ('c', x)
    ky = ('n', y.id) if isinstance(y, Node) else ('c', y)
    nc = c_not(c)
    if isinstance(nc, Cond) and nc.id < c.id:
        c, x, y, kx, ky = nc, y, x, ky, kx
    k = ('ite', c.id, kx, ky)
    a = _FN.get(k)
    if a is None:
        lx, ly, hx, hy = lo_of(x), lo_of(y), hi_of(x), hi_of(y)
        lo = None if lx is None or ly is None else min(lx, ly)
        hi = None if hx is None or hy is None else max(hx, hy)
        ii = is_int(x) and is_int(y) and (isinstance(x, Node) and x.isint or isinstance(y, Node) and y.isint or (type(x) is int and type(y) is int))
        a = Atom('ite', 'ite', isint=ii, lo=lo, hi=hi)
        a.deps = frozenset(c.atoms | node_atoms(x) | node_atoms(y))

        def zeq(v):
            r = rf(v)
            av = z3.ToReal(a.z) if a.isint else a.z
            if r.d: return av * zpoly(den_poly(r.d), True) == zpoly(r.n, True)
            if a.isint: return a.z == zpoly(r.n) if r.n else a.z == 0
            return av == zpoly(r.n, True)
        a.zdef = lambda: [z3.Or(z3.And(zcond(c), zeq(x)), z3.And(z3.Not(zcond(c)), zeq(y)))]
        a.data = (c, x, y)
        a.ev = ('ite', c, x, y)
        _FN[k] = a
    return atom_node(a)


def n_floor(x):
    """floor as an integer node"""
    if not isinstance(x, Node): return math.floor(x)
    if x.isint: return x
    r = rf(x)
    if not r.d:
        ip = {}
        rest = {}
        for m, c in r.n.items():
            if m == ():
                f = math.floor(c)
                if f: ip[m] = f
                if c - f: rest[m] = q(c - f)
            elif type(c) is int and all(ATOMS[a].isint for a, _ in m): ip[m] = c
            else: rest[m] = c
        if not rest: return poly_node(ip)
        c = pconst(rest)
        if c is not None: return poly_node(ip)
        base = poly_node(rest)
        if ip:
            return n_add(poly_node(ip), n_floor_atom(base))
        return n_floor_atom(base)
    return n_floor_atom(x)


def n_floor_atom(x):
    if x.lo is not None and x.hi is not None and math.floor(x.lo) == math.floor(x.hi): return math.floor(x.lo)
    r = rf(x)
    k = ('floor', rf_key(r))
    a = _FN.get(k)
    if a is None:
        lo = None if x.lo is None else math.floor(x.lo)
        hi = None if x.hi is None else math.floor(x.hi)
        a = Atom('floor', 'floor', isint=True, lo=lo, hi=hi)
        a.deps = frozenset(node_atoms(x))

        def zd():
            v = z3.ToReal(a.z)
            t = zpoly(r.n, True)
            if r.d:
                d = zpoly(den_poly(r.d), True)
                return [z3.If(d > 0, z3.And(v * d <= t, t < v * d + d), z3.And(v * d >= t, t > v * d + d))]
            return [v <= t, t < v + 1]
        a.zdef = zd
        a.ev = ('floor', r)
        a.data = x
        _FN[k] = a
    return atom_node(a)


def n_idiv(x, c):
    """floor(x / c) for integer node x and positive integer c"""
    if not isinstance(x, Node): return x // c
    if c == 1: return x
    r = rf(x)
    ip = {}
    rest = {}
    for m, k in r.n.items():
        a, b = divmod(k, c)
        if a: ip[m] = a
        if b: rest[m] = b
    out = poly_node(ip)
    if not rest: return out
    lo, hi = p_interval(rest)
    if lo != -INF and hi != INF and lo // c == hi // c:
        return n_add(out, lo // c)
    k = ('idiv', pkey(rest), c)
    a = _FN.get(k)
    if a is None:
        a = Atom('idiv', 'idiv', isint=True, lo=None if lo == -INF else lo // c, hi=None if hi == INF else hi // c)
        a.deps = frozenset(patoms(rest))
        a.zdef = lambda: [c * a.z <= zpoly(rest), zpoly(rest) < c * a.z + c]
        a.ev = ('idiv', RF(rest, {}), c)
        _FN[k] = a
    return n_add(out, atom_node(a))


def n_fn(name, x, lo=None, hi=None, zaxioms=None, extra=()):
    """opaque function atom, keyed by the normal form of its arguments"""
    xs = x if isinstance(x, tuple) else (x,)
    k = ('fn', name) + tuple(rf_key(rf(v)) for v in xs)
    a = _FN.get(k)
    if a is None:
        a = Atom(name, 'fn', lo=lo, hi=hi)
        deps = set()
        for v in xs: deps |= node_atoms(v)
        a.deps = frozenset(deps)
        a.data = (name, xs)
        a.ev = ('fn', name, xs)
        if zaxioms: a.zdef = lambda: zaxioms(a)
        _FN[k] = a
    return atom_node(a)


def closure(atoms):
    seen = set(atoms)
    todo = list(atoms)
    while todo:
        a = ATOMS[todo.pop()]
        for d in a.deps:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def atom_constraints(i, deep=True):
    a = ATOMS[i]
    out = []
    if a.lo is not None: out.append(a.z >= (z3.IntVal(a.lo) if a.isint else z3.RealVal(str(a.lo))))
    if a.hi is not None: out.append(a.z <= (z3.IntVal(a.hi) if a.isint else z3.RealVal(str(a.hi))))
    if deep and a.zdef: out += a.zdef()
    return out


# ------------------------------------------------------------------ float evaluation (search for candidate inputs only)
def ev_rf(r, vals):
    def ev(p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m: v *= vals[a] ** e
            t += v
        return t
    v = ev(r.n)
    for f, e in r.d.items(): v /= ev(FACTS[f]) ** e
    return v


def ev_node(x, vals):
    return ev_rf(rf(x), vals) if isinstance(x, Node) else float(x)


def ev_cond(c, vals):
    """True / False / None (not determined)"""
    if c is True or c is False: return c
    if c.p is not None:
        try: v = ev_rf(RF(c.p, {}), vals)
        except KeyError: return None
        if c.op == '>': return v > 0
        if c.op == '>=': return v >= -1e-9
        if c.op == '=': return abs(v) < 1e-6
        return v != 0
    if c.op in ('and', 'or'):
        u = c.op == 'and'
        some = False
        for a in c.args:
            r = ev_cond(a, vals)
            if r is None: some = True
            elif r is not u: return not u
        return None if some else u
    if c.op == 'not':
        r = ev_cond(c.args[0], vals)
        return None if r is None else not r
    return None


def ev_atom(a, vals):
    e = a.ev
    k = e[0]
    if k == 'sqrt': return math.sqrt(ev_rf(e[1], vals))
    if k == 'abs': return abs(ev_rf(e[1], vals))
    if k == 'ite':
        c = ev_cond(e[1], vals)
        if c is None: raise KeyError(0)
        return ev_node(e[2] if c else e[3], vals)
    if k == 'floor': return math.floor(ev_rf(e[1], vals))
    if k == 'idiv': return math.floor(ev_rf(e[1], vals)) // e[2]
    if k == 'bin':
        x, y = ev_node(e[2], vals), ev_node(e[3], vals)
        return x + y if e[1] == 'add' else x * y if e[1] == 'mul' else x / y
    if k == 'fn':
        xs = [ev_node(x, vals) for x in e[2]]
        if e[1] == 'round24': return struct.unpack('f', struct.pack('f', xs[0]))[0]
        if e[1] == 'magup' or e[1] == 'magdown': return xs[0]
        return getattr(math, e[1])(*xs)
    raise KeyError(0)
