"""Solver glue: decides conjunctions of terms.Cond with z3 (nlsat for real polynomial problems, SMT core otherwise)."""
import time
from fractions import Fraction
import z3
import terms as T

stats = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0, 'cache': 0, 'trivial': 0}
_cache = {}


def slice_conds(conds, target_atoms):
    """cone of influence: keep the conditions transitively sharing atoms with target"""
    rel = T.closure(target_atoms)
    left = [(c, T.closure(c.atoms)) for c in conds]
    out = []
    bools = True
    changed = True
    while changed:
        changed = False
        rest = []
        for c, a in left:
            if a & rel or (not a):
                out.append(c)
                rel |= a
                changed = True
            else:
                rest.append((c, a))
        left = rest
    return out


def _value(m, at):
    v = m.eval(at.z, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return v.as_fraction()
    if z3.is_algebraic_value(v):
        return v.approx(30).as_fraction()
    return Fraction(0)


def _zsolve(zs, linear, hasint, timeout, hasbool, seed=0):
    order = []
    if not hasint and not linear:
        order = ['nlsat', 'smt']
    else:
        order = ['smt']
    last = 'unknown'
    for k, o in enumerate(order):
        if o == 'nlsat':
            s = z3.Tactic('qfnra-nlsat').solver() if not hasbool else z3.SolverFor('QF_NRA')
            to = timeout if len(order) == 1 else max(100, int(timeout * 0.7))
        else:
            s = z3.Solver()
            to = timeout if len(order) == 1 else max(100, int(timeout * 0.3))
        s.set('timeout', int(to))
        if seed and o == 'smt':
            s.set('random_seed', seed)
        s.add(zs)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat:
            try:
                return 'sat', s.model()
            except z3.Z3Exception:
                continue
    return 'unknown', None


_mono = {}
_lz = {}


def _monovar(m):
    v = _mono.get(m)
    if v is None:
        if len(m) == 1 and m[0][1] == 1:
            at = T.ATOMS[m[0][0]]
            z = z3.ToReal(at.z) if at.isint else at.z
            cs = []
            if at.lo is not None: cs.append(z >= z3.RealVal(str(at.lo)))
            if at.hi is not None: cs.append(z <= z3.RealVal(str(at.hi)))
        else:
            z = z3.Real('mono!%d' % len(_mono))
            lo, hi = T.p_interval({m: 1})
            cs = []
            if lo != -T.INF: cs.append(z >= z3.RealVal(str(lo)))
            if hi != T.INF: cs.append(z <= z3.RealVal(str(hi)))
        v = _mono[m] = (z, cs)
    return v


def _linz(c, side):
    """condition with every monomial replaced by its own variable (a relaxation)"""
    if c is True or c is False: return z3.BoolVal(c)
    if c.p is not None:
        for m in c.p:
            if m: side[m] = True
        r = _lz.get(c.id)
        if r is None:
            t = z3.Sum([z3.RealVal(str(k)) * _monovar(m)[0] if m else z3.RealVal(str(k)) for m, k in c.p.items()])
            r = {'>': t > 0, '>=': t >= 0, '=': t == 0, '!=': t != 0}[c.op]
            _lz[c.id] = r
        return r
    if c.op == 'and': return z3.And([_linz(a, side) for a in c.args])
    if c.op == 'or': return z3.Or([_linz(a, side) for a in c.args])
    if c.op == 'not': return z3.Not(_linz(c.args[0], side))
    return z3.Bool(c.name)


def _flat(cs):
    for c in cs:
        if c.op == 'and': yield from _flat(c.args)
        elif c.p is not None: yield c


def _products(cs, limit=160):
    """consequences of degree one higher: equations times atoms, inequalities times non-negative atoms"""
    flat = list(_flat(cs))
    atoms = sorted({a for c in flat for a in c.atoms})
    if len(atoms) > 24: return
    n = 0
    for c in flat:
        if len(c.p) > 40: continue
        if c.op == '=': mult = atoms
        elif c.op in ('>', '>='): mult = [a for a in atoms if T.ATOMS[a].nonneg]
        else: continue
        for a in mult:
            if n >= limit: return
            try: p = T.pmul(c.p, {((a, 1),): 1})
            except T.TooBig: continue
            if p:
                n += 1
                yield p, ('=' if c.op == '=' else '>=')


def _divs(m):
    """m = a * rest for every atom of m"""
    for i, (a, e) in enumerate(m):
        r = m[:i] + (((a, e - 1),) if e > 1 else ()) + m[i + 1:]
        if r: yield ((a, 1),), r


def _mccormick(side, limit=1200):
    """products of the ranges of the factors of every monomial; the factors' own monomials are added to side"""
    out = []
    todo = [m for m in side if sum(e for _, e in m) >= 2]
    done = set(todo)
    while todo and len(out) < limit:
        m = todo.pop(0)
        if sum(e for _, e in m) > 7: continue
        for x, y in _divs(m):
            lx, hx = T.p_interval({x: 1})
            ly, hy = T.p_interval({y: 1})
            for p, u in ((x, 'lx'), (x, 'hx')):
                for v in ('ly', 'hy'):
                    a = lx if u == 'lx' else hx
                    b = ly if v == 'ly' else hy
                    if a in (-T.INF, T.INF) or b in (-T.INF, T.INF): continue
                    # (x-lx)(y-ly)>=0 (hx-x)(hy-y)>=0 (x-lx)(hy-y)>=0 (hx-x)(y-ly)>=0
                    sg = 1 if (u == 'lx') == (v == 'ly') else -1
                    out.append(((m, x, y), a, b, sg))
            if y not in done and sum(e for _, e in y) >= 2:
                done.add(y)
                todo.append(y)
    zs = []
    for (m, x, y), a, b, sg in out:
        for k in (m, x, y): side[k] = True
        e = _monovar(m)[0] - z3.RealVal(str(b)) * _monovar(x)[0] - z3.RealVal(str(a)) * _monovar(y)[0] + z3.RealVal(str(a * b))
        zs.append(e >= 0 if sg == 1 else e <= 0)
    return zs


def _products2(cs, side, limit=300):
    """inequalities times ranges of atoms, those that bring the fewest new monomials first"""
    flat = list(_flat(cs))
    atoms = sorted({a for c in flat for a in c.atoms})
    cand = []
    for c in flat:
        if len(c.p) > 12 or c.op not in ('>', '>='): continue
        for a in atoms:
            at = T.ATOMS[a]
            for f in ([{((a, 1),): 1, (): -at.lo}] if at.lo is not None else []) + ([{((a, 1),): -1, (): at.hi}] if at.hi is not None else []):
                try: p = T.pmul(c.p, {k: v for k, v in f.items() if v})
                except T.TooBig: continue
                if not p: continue
                new = sum(1 for m in p if m and m not in side)
                if new < len(p) - 1 or new <= 1: cand.append((new, len(cand), p))
    # multiples that reach the monomials of other conditions
    mons = [m for c in flat for m in c.p if len(c.p) <= 40 and sum(e for _, e in m) >= 2]
    seen = set()
    for c in flat:
        if len(c.p) > 6 or c.op not in ('>', '>='): continue
        for mc in c.p:
            dc = dict(mc)
            for m in mons:
                dm = dict(m)
                qn = []
                for a, e in dm.items():
                    r = e - dc.pop(a, 0) if a in dc else e
                    if r < 0: break
                    if r: qn.append((a, r))
                else:
                    if not dc:
                        if 2 <= sum(r for _, r in qn) <= 3 and all(T.ATOMS[a].nonneg or (T.ATOMS[a].lo is not None and T.ATOMS[a].lo >= 0) for a, _ in qn):
                            k = (c.id, tuple(qn))
                            if k not in seen:
                                seen.add(k)
                                try:
                                    cand.append((0, len(cand), T.pmul(c.p, {tuple(sorted(qn)): 1})))
                                    f = dict(c.p)
                                    for a, r in qn:
                                        lo = T.ATOMS[a].lo or 0
                                        for _ in range(r): f = T.pmul(f, {((a, 1),): 1, **({(): -lo} if lo else {})})
                                    cand.append((0, len(cand), f))
                                except T.TooBig: pass
                dc = dict(mc)
    cand.sort(key=lambda x: x[:2])
    return [p for _, _, p in cand[:limit]]


def mono_unsat(cs, timeout=300, deep=0):
    side = {}
    zs = [_linz(c, side) for c in cs]
    if deep >= 2:
        for p in _products2(cs, side):
            for m in p:
                if m: side[m] = True
            zs.append(z3.Sum([z3.RealVal(str(k)) * _monovar(m)[0] if m else z3.RealVal(str(k)) for m, k in p.items()]) >= 0)
        zs += _mccormick(side)
    if deep:
        for p, op in _products(cs):
            for m in p:
                if m: side[m] = True
            t = z3.Sum([z3.RealVal(str(k)) * _monovar(m)[0] if m else z3.RealVal(str(k)) for m, k in p.items()])
            zs.append(t == 0 if op == '=' else t >= 0)
    seen = set()
    todo = [a for m in side for a, _ in m]
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        at = T.ATOMS[a]
        if at.ev is None or at.ev[0] not in ('abs', 'ite'): continue
        if at.ev[0] == 'abs':
            if at.ev[1].d or len(at.ev[1].n) > 60: continue
            ps = [at.ev[1].n]
        else:
            rs = [T.rf(x) if isinstance(x, T.Node) else T.RF({(): x} if x else {}, {}) for x in at.ev[2:4]]
            if any(r.d or len(r.n) > 60 for r in rs): continue
            ps = [r.n for r in rs]
        zp = []
        for p in ps:
            for m in p:
                if m: side[m] = True
                todo += [x for x, _ in m]
            zp.append(z3.Sum([z3.RealVal(str(k)) * _monovar(m)[0] if m else z3.RealVal(str(k)) for m, k in p.items()] or [z3.RealVal(0)]))
        za = _monovar(((a, 1),))[0]
        side[((a, 1),)] = True
        if at.ev[0] == 'abs': zs.append(z3.Or(z3.And(zp[0] >= 0, za == zp[0]), z3.And(zp[0] <= 0, za == -zp[0])))
        else: zs.append(z3.If(_linz(at.ev[1], side), za == zp[0], za == zp[1]))
    for m in list(side): zs += _monovar(m)[1]
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(zs)
    t0 = time.time()
    try: r = s.check()
    except z3.Z3Exception: r = None
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    if r == z3.unsat:
        stats['unsat'] += 1
        return True
    stats['relaxed'] = stats.get('relaxed', 0) + 1
    return False


def has_bool(c):
    if c.op == 'b': return True
    return any(has_bool(a) for a in c.args) if c.args else False


def check(conds, timeout=2000, want=None, extra=(), deep=True, seed=0, light_only=False, skip=()):
    """-> ('sat', {atomid: value}) | ('unsat', None) | ('unknown', None).
    want: atoms whose values are returned."""
    cs = [c for c in conds if c is not True]
    if any(c is False for c in cs):
        stats['trivial'] += 1
        return 'unsat', None
    key = (frozenset(c.id for c in cs), deep)
    if not extra and not want:
        r = _cache.get(key)
        if r is not None and (r[0] != 'unknown' or r[1] >= timeout):
            stats['cache'] += 1
            return r[0], None
    atoms = set()
    for c in cs: atoms |= c.atoms
    atoms = T.closure(atoms) if deep else atoms
    linear = True
    hasint = False
    hasbool = any(has_bool(c) for c in cs)

    def lin(c):
        if c.p is not None: return T.pdeg(c.p) <= 1
        return all(lin(a) for a in c.args) if c.args else True
    for c in cs:
        if not lin(c):
            linear = False
            break
    if not linear and not want and not extra and (mono_unsat(cs) or mono_unsat(cs, 400, 1) or timeout >= 5000 and mono_unsat(cs, 3000, 2)):
        _cache[key] = ('unsat', timeout)
        return 'unsat', None
    zs = [T.zcond(c) for c in cs]
    for i in atoms:
        a = T.ATOMS[i]
        if a.isint: hasint = True
        zs += T.atom_constraints(i, deep and i not in skip)
        if deep and a.kind in ('sqrt', 'abs', 'def') and a.zdef: linear = False if a.kind != 'abs' else linear
    zs += list(extra)
    t0 = time.time()
    r, m = _zsolve(zs, linear, hasint, timeout, hasbool, seed)
    dt = time.time() - t0
    stats['queries'] += 1
    stats['time'] += dt
    stats[r] += 1
    if not extra and not want:
        _cache[key] = (r, timeout)
    if r == 'sat':
        vals = {}
        known = {d.name() for d in m.decls()}
        for i in (want or ()):
            at = T.ATOMS[i]
            if at.z.decl().name() in known or at.lo is None or at.hi is None: vals[i] = _value(m, at)
            else:
                v = at.lo + (at.hi - at.lo) * Fraction(5, 8)
                vals[i] = int(v) if at.isint else v
        return 'sat', vals
    return r, None


def feasible(conds, c, timeout):
    """is pc && c satisfiable? unknown counts as feasible. cheap relaxations first"""
    rel = slice_conds(conds, c.atoms) + [c]
    r, _ = check(rel, timeout)
    return r


def prove(conds, goal, timeout):
    """decide pc => goal. returns 'unsat' (proved) / 'sat' / 'unknown'"""
    ng = T.c_not(goal)
    if ng is False:
        stats['trivial'] += 1
        return 'unsat'
    if ng is True:
        r, _ = check(conds, timeout)
        return r
    rel = slice_conds(conds, ng.atoms)
    # relaxation 1: only conditions whose atoms are within the goal closure
    ga = T.closure(ng.atoms)
    small = [c for c in rel if c.atoms <= ga]
    if len(small) < len(rel):
        r, _ = check(small + [ng], timeout // 3)
        if r == 'unsat': return r
    # relaxation 2: direct polynomial constraints, without deep definitions
    r, _ = check(rel + [ng], timeout // 3, deep=False)
    if r == 'unsat': return r
    r, _ = check(rel + [ng], timeout)
    return r


def concretise(conds, want, budget, rnd, base=None, tries=60, stop=None):
    """search for a model: some inputs are fixed to numbers (with everything they determine), the solver decides the rest"""
    t_end = time.time() + budget
    atoms = set()
    for c in conds: atoms |= c.atoms if isinstance(c, T.Cond) else set()
    atoms = sorted(T.closure(atoms | set(want)))
    inputs = [a for a in atoms if T.ATOMS[a].kind == 'input']
    derived = [a for a in atoms if T.ATOMS[a].kind != 'input']
    fnargs = set()
    for a in derived:
        if T.ATOMS[a].kind in ('fn', 'floor', 'idiv'): fnargs |= T.closure([a])
    k = 0
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds): return None
    while time.time() < t_end and k < tries:
        if stop and stop(): return None
        k += 1
        p = (0.95, 0.7, 0.85, 0.5)[k % 4]
        got = None
        for _ in range(120):
            vals = {}
            for a in inputs:
                at = T.ATOMS[a]
                if a not in fnargs and rnd.random() > p: continue
                if at.rule is not None:      # third component of a unit vector
                    d = [x for x in at.deps if T.ATOMS[x].kind == 'input']
                    if all(x in vals for x in d):
                        try: v = ev_sq(at, vals)
                        except (ValueError, KeyError): continue
                        vals[a] = v if rnd.random() < .5 else -v
                    continue
                if base is not None and a in base and rnd.random() < 0.6: v = Fraction(base[a])
                elif at.isint:
                    lo, hi = (at.lo if at.lo is not None else 0), (at.hi if at.hi is not None else 1000)
                    v = rnd.choice([lo, hi, rnd.randint(lo, hi), min(hi, lo + rnd.randint(0, 3))])
                else:
                    lo, hi = (at.lo if at.lo is not None else Fraction(-4)), (at.hi if at.hi is not None else Fraction(4))
                    r = rnd.random()
                    if r < .1: v = Fraction(lo)
                    elif r < .2: v = Fraction(hi)
                    elif r < .25 and lo <= 0 <= hi: v = Fraction(0)
                    else: v = Fraction(round((lo + (hi - lo) * Fraction(rnd.random())) * 64), 64)
                    v = min(max(v, Fraction(lo)), Fraction(hi))
                vals[a] = float(v) if not at.isint else int(v)
            ok = True
            for a in derived:
                at = T.ATOMS[a]
                if at.ev is None: continue
                try: vals[a] = T.ev_atom(at, vals)
                except KeyError: continue
                except (ValueError, ZeroDivisionError, OverflowError, AttributeError):
                    ok = False
                    break
            if not ok: continue
            try:
                if any(T.ev_cond(c, vals) is False for c in conds): continue
            except (ZeroDivisionError, OverflowError): continue
            got = vals
            break
        if got is None:
            if base is None and k > 8: return None
            continue
        extra = []
        for a, v in got.items():
            at = T.ATOMS[a]
            extra.append(at.z == (z3.IntVal(int(v)) if at.isint else z3.RealVal(str(Fraction(v).limit_denominator(10**9)))))
        rest = [c for c in conds if T.ev_cond(c, got) is None]
        r, m = check(rest, 1500, want=want, extra=extra, skip=set(got))
        if r == 'sat':
            for a in want:
                if a in got: m[a] = Fraction(got[a]).limit_denominator(10**9)
            return m
    return None


def ev_sq(at, vals):
    import math
    return math.sqrt(T.ev_rf(T.RF(at.rule, {}), vals))
