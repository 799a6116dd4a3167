"""Discharging verification conditions.

An obligation is  facts |- goal.  Equalities between reals go to the ring normaliser (with case
splits on the conditions of if-then-else terms), everything else - and the feasibility of
cases, definedness of divisions and roots, sign and index conditions - goes to z3.
Answers: 'proved' or 'unknown' (never 'violated': a violation needs a replayed input).
"""
import math
import time
from fractions import Fraction
import z3
from . import terms as tm
from .terms import T, Unsupported
from .ring import Ctx, Split, Undefined, UNIT_GROUPS, trig_units, p_mul, p_scale, p_add

STATS = {'ring': 0, 'z3': 0, 'z3_queries': 0, 'z3_time': 0.0, 'ring_time': 0.0, 'trivial': 0, 'infeasible': 0}


class Z:
    """translation of terms to z3 with the axioms of the atoms"""

    def __init__(self):
        self.memo = {}
        self.ax = []
        self.units = set()
        self._pi = None
        self.trig = {}
        self.names = {}

    def pi(self):
        if self._pi is None:
            self._pi = z3.Real('pi')
            self.ax.append(self._pi > z3.Q(314159265358979, 100000000000000))
            self.ax.append(self._pi < z3.Q(314159265358980, 100000000000000))
        return self._pi

    def int(self, x):
        if isinstance(x, int): return z3.IntVal(x)
        acc = None
        for m, c in x.args:
            t = z3.IntVal(c)
            for a in m: t = t * self.iatom(a)
            acc = t if acc is None else acc + t
        return acc if acc is not None else z3.IntVal(0)

    def iatom(self, a):
        r = self.memo.get(a.id)
        if r is not None: return r
        if a.op == 'iite':
            r = z3.If(self.boolean(a.args[0]), self.int(a.args[1]), self.int(a.args[2]))
        elif a.op == 'idiv':
            r = z3.Int('i%d' % a.id); self.memo[a.id] = r
            n, d = self.int(a.args[0]), self.int(a.args[1])
            self.ax.append(z3.Implies(d > 0, z3.And(r * d <= n, n < r * d + d)))
        elif a.op == 'imod':
            r = z3.Int('i%d' % a.id); self.memo[a.id] = r
            n, d = self.int(a.args[0]), self.int(a.args[1])
            q = z3.Int('q%d' % a.id)
            self.ax.append(z3.Implies(d > 0, z3.And(n == q * d + r, 0 <= r, r < d)))
        else:
            r = z3.Int('i%d' % a.id)
            self.names[a.id] = a
            self.memo[a.id] = r
            lo, hi = tm._atom_bounds(a)
            if lo is not None: self.ax.append(r >= self.int(lo))
            if hi is not None: self.ax.append(r < self.int(hi))
        self.memo[a.id] = r
        return r

    def real(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._real(t)
            self.memo[t.id] = r
        return r

    def fresh(self, t):
        r = z3.Real('r%d' % t.id)
        self.memo[t.id] = r
        self.names[t.id] = t
        return r

    def _real(self, t):
        op = t.op
        if op == 'c': return z3.Q(t.args[0].numerator, t.args[0].denominator)
        if op == 'zero': return z3.RealVal(0)
        if op == 'pi': return self.pi()
        if op == 'add': return self.real(t.args[0]) + self.real(t.args[1])
        if op == 'mul': return self.real(t.args[0]) * self.real(t.args[1])
        if op == 'pow':
            b = self.real(t.args[0]); n = t.args[1]
            p = b
            for _ in range(abs(n) - 1): p = p * b
            return 1 / p if n < 0 else p
        if op == 'ite': return z3.If(self.boolean(t.args[0]), self.real(t.args[1]), self.real(t.args[2]))
        if op == 'itor':
            return z3.ToReal(self.int(t.args[0]))
        if op == 'app':
            r = self.fresh(t)
            g = UNIT_GROUPS.get(t.args[0])
            if g and isinstance(t.args[1][-1], int):
                k = (t.args[0],) + tuple(x._k if type(x) is T else x for x in t.args[1][:-1])
                if k not in self.units:
                    self.units.add(k)
                    cs = [self.real(tm.app(t.args[0], t.args[1][:-1] + (c,))) for c in g[1]]
                    s = cs[0] * cs[0]
                    for c in cs[1:]: s = s + c * c
                    self.ax.append(s == 1)
            return r
        if op == 'fn': return self._fn(t)
        if op in ('uf',): return self.fresh(t)
        if op == 'sum':
            r = self.fresh(t)
            if _nonneg_struct(t.args[2]): self.ax.append(r >= 0)
            return r
        if op in ('rmax', 'rmin'): return self.fresh(t)
        raise Unsupported('no SMT form for %s' % op)

    def _fn(self, t):
        nm, a = t.args
        r = self.fresh(t)
        A = [self.real(x) for x in a]
        ax = self.ax
        if nm == 'sqrt':
            x = A[0]
            ax.append(r >= 0)
            ax.append(z3.Implies(x >= 0, r * r == x))
        elif nm in ('sin', 'cos'):
            x = A[0]
            if t.args[1][0].id in self.trig: return r
            self.trig[t.args[1][0].id] = 1
            s = self.real(tm.fn('sin', a[0])); c = self.real(tm.fn('cos', a[0]))
            pi = self.pi()
            ax.append(s * s + c * c == 1)
            ax.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
            ax.append(z3.Implies(z3.And(x > 0, x < pi), s > 0))
            ax.append(z3.Implies(z3.And(x < 0, x > -pi), s < 0))
            ax.append(z3.Implies(z3.And(2 * x > -pi, 2 * x < pi), c > 0))
            ax.append(z3.Implies(x == 0, z3.And(s == 0, c == 1)))
            ax.append(z3.Implies(x == pi, z3.And(s == 0, c == -1)))
            ax.append(z3.Implies(z3.And(2 * x > pi, 2 * x < 3 * pi), c < 0))
            ax.append(z3.Implies(z3.And(x > pi, x < 2 * pi), s < 0))
            ax.append(z3.Implies(z3.And(x > -2 * pi, x < -pi), s > 0))
            ax.append(z3.Implies(z3.And(x > -2 * pi, x < 2 * pi, x != 0), c < 1))
            ax.append(z3.Implies(z3.And(x >= 0, x <= 1), z3.And(s <= x, 6 * s >= 6 * x - x * x * x, 2 * c >= 2 - x * x)))
        elif nm == 'acos':
            x = A[0]; pi = self.pi()
            ax.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(r >= 0, r <= pi)))
            ax.append(z3.Implies(z3.And(x >= -1, x < 1), r > 0))
            ax.append(z3.Implies(z3.And(x > -1, x <= 1), r < pi))
            ax.append(z3.Implies(x == 1, r == 0)); ax.append(z3.Implies(x == -1, r == pi))
            ax.append(z3.Implies(z3.And(x > 0, x <= 1), 2 * r < pi))
            ax.append(z3.Implies(z3.And(x < 0, x >= -1), 2 * r > pi))
            ax.append(z3.Implies(x == 0, 2 * r == pi))
        elif nm == 'asin':
            x = A[0]; pi = self.pi()
            ax.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(2 * r >= -pi, 2 * r <= pi)))
            ax.append(z3.Implies(z3.And(x > -1, x < 1), z3.And(2 * r > -pi, 2 * r < pi)))
            ax.append(z3.Implies(z3.And(x > 0, x <= 1), r > 0))
            ax.append(z3.Implies(z3.And(x < 0, x >= -1), r < 0))
            ax.append(z3.Implies(x == 0, r == 0))
        elif nm == 'atan2':
            y, x = A; pi = self.pi()
            ax.append(z3.And(r > -pi, r <= pi))
            ax.append(z3.Implies(y > 0, z3.And(r > 0, r < pi)))
            ax.append(z3.Implies(y < 0, r < 0))
            ax.append(z3.Implies(z3.And(y == 0, x >= 0), r == 0))
            ax.append(z3.Implies(z3.And(y == 0, x < 0), r == pi))
            ax.append(z3.Implies(x > 0, z3.And(2 * r > -pi, 2 * r < pi)))
            ax.append(z3.Implies(z3.And(x < 0, y > 0), 2 * r > pi))
            ax.append(z3.Implies(z3.And(x < 0, y < 0), 2 * r < -pi))
            ax.append(z3.Implies(z3.And(x == 0, y > 0), 2 * r == pi))
            ax.append(z3.Implies(z3.And(x == 0, y < 0), 2 * r == -pi))
        elif nm == 'floor':
            k = z3.Int('fl%d' % t.id)
            ax.append(r == z3.ToReal(k)); ax.append(r <= A[0]); ax.append(A[0] < r + 1)
        elif nm == 'round':
            k = z3.Int('fl%d' % t.id)
            ax.append(r == z3.ToReal(k)); ax.append(2 * (A[0] - r) <= 1); ax.append(2 * (r - A[0]) <= 1)
        return r

    def boolean(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._bool(t)
            self.memo[t.id] = r
        return r

    def _bool(self, t):
        op = t.op
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'not': return z3.Not(self.boolean(t.args[0]))
        if op == 'and': return z3.And([self.boolean(x) for x in t.args])
        if op == 'or': return z3.Or([self.boolean(x) for x in t.args])
        if op == 'lt': return self.real(t.args[0]) < self.real(t.args[1])
        if op == 'eq': return self.real(t.args[0]) == self.real(t.args[1])
        if op == 'ilt': return self.int(t.args[1]) > 0
        if op == 'ieq': return self.int(t.args[0]) == 0
        if op in ('bapp', 'forall', 'exists'):
            self.names[t.id] = t
            return z3.Bool('b%d' % t.id)
        raise Unsupported('no SMT form for boolean %s' % op)


def _nonneg_struct(t):
    if t.op == 'c': return t.args[0] >= 0
    if t.op == 'pow': return t.args[1] % 2 == 0 or _nonneg_struct(t.args[0])
    if t.op == 'mul': return t.args[0] is t.args[1] or all(_nonneg_struct(x) for x in t.args)
    if t.op == 'add': return all(_nonneg_struct(x) for x in t.args)
    if t.op == 'ite': return _nonneg_struct(t.args[1]) and _nonneg_struct(t.args[2])
    if t.op == 'fn': return t.args[0] in ('sqrt', 'acos')
    if t.op == 'sum': return _nonneg_struct(t.args[2])
    return False


def _solve(zz, forms, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in forms: s.add(f)
    for a in zz.ax: s.add(a)
    t0 = time.time()
    r = s.check()
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    return r, s


_deadline = [None]


def set_deadline(t): _deadline[0] = t


class OutOfTime(Exception):
    pass


def _tick():
    if _deadline[0] is not None and time.time() > _deadline[0]: raise OutOfTime('time budget of this proof exhausted')


from . import ring as _ring
_ring.TICK[0] = _tick


class Facts:
    """a set of facts with their consequences"""

    def __init__(self, lits=(), foralls=(), subs=None):
        self.lits = list(lits)            # literal / clause terms (quantifier free at top level)
        self.foralls = list(foralls)
        self.truth = {}
        self.contradiction = False
        self.subs = dict(subs or {})      # atom id -> term
        for l in self.lits: self._index(l)

    def copy(self):
        f = Facts.__new__(Facts)
        f.lits = list(self.lits); f.foralls = list(self.foralls); f.truth = dict(self.truth)
        f.contradiction = self.contradiction; f.subs = dict(self.subs)
        return f

    def _index(self, l):
        if l.op == 'not':
            self.truth[l.args[0].id] = False
            self.truth[l.id] = True
        else:
            self.truth[l.id] = True
            n = tm.lnot_id(l)
            if n is not None: self.truth[n] = False

    def simp(self, t):
        """t under the known substitutions and truths"""
        if type(t) is not T: return t
        if self.subs: t = tm.subst(t, self.subs)
        for _ in range(50):
            if type(t) is not T: return t
            m = {}
            for x in tm.subterms(t):
                if x.sort == 'B':
                    v = self.truth.get(x.id)
                    if v is not None: m[x.id] = tm.TRUE if v else tm.FALSE
            if not m: return t
            t = tm.subst(t, m)
        return t

    def simp_fact(self, t):
        """a fact under the other facts (its own truth does not erase it)"""
        own = {t.id, t.args[0].id if t.op == 'not' else t.id}
        keep = {i: self.truth.pop(i) for i in own if i in self.truth}
        try: return self.simp(t)
        finally: self.truth.update(keep)

    def add(self, t):
        if t is tm.TRUE: return
        if t.op in ('forall', 'exists'): t = self.simp_subs(t)
        else: t = self.simp(t)
        if t is tm.TRUE: return
        if t is tm.FALSE:
            self.contradiction = True
            return
        if t.op == 'and':
            for x in t.args: self.add(x)
            return
        if t.op == 'forall':
            if all(t is not g for g in self.foralls): self.foralls.append(t)
            self.truth[t.id] = True
            n = tm.lnot_id(t)
            return
        if t.op == 'exists':
            v, dim, body = t.args
            self.truth[t.id] = True
            k = tm.ivar(tm.fresh_name('wit'), 0, dim)
            self.add(tm.subst(body, {v.args[0][0][0].id: k}))
            return
        self.lits.append(t)
        self._index(t)
        if t.op == 'lt':
            # a < b: not b < a, not equal
            r = tm.lt(t.args[1], t.args[0])
            if r.op == 'lt': self.truth.setdefault(r.id, False)
            e = tm.eq(*t.args)
            if e.op == 'eq': self.truth.setdefault(e.id, False)
        if t.op == 'ieq': self._int_subst(t)
        if t.op == 'eq': self._real_subst(t)
        self._resimplify()

    def simp_subs(self, t):
        return tm.subst(t, self.subs) if self.subs else t

    def _int_subst(self, t):
        d = t.args[0]
        best = None
        for m, c in d.args:
            if len(m) == 1 and abs(c) == 1 and m[0].op in ('ivar', 'iapp') and not m[0].bv:
                rest = tm.isub(d, tm.imul(c, tm._imk1(m[0])))
                if any(x is m[0] for x in tm.subterms(rest)): continue
                # keep bound information: prefer replacing the younger atom
                if best is None or (m[0].id > best[0].id and not self._is_dim(m[0])) or self._is_dim(best[0]):
                    best = (m[0], tm.imul(-c, rest))
        if best: self._subst_all(best[0], best[1])

    def _is_dim(self, a):
        return False

    def _real_subst(self, t):
        a, b = t.args
        for x, y in ((a, b), (b, a)):
            if x.op == 'app' and not UNIT_GROUPS.get(x.args[0]) and not x.bv and not any(z is x for z in tm.subterms(y)):
                self._subst_all(x, y)
                return

    def _subst_all(self, atom, val):
        m = {atom.id: val}
        self.subs = {k: tm.subst(v, m) for k, v in self.subs.items()}
        self.subs[atom.id] = val
        old = self.lits
        # bounds of a replaced index become facts
        if atom.sort == 'I':
            lo, hi = tm._atom_bounds(atom)
            if lo is not None: old = old + [tm.ile(lo, val)]
            if hi is not None: old = old + [tm.ilt(val, hi)]
        fo = self.foralls
        self.lits, self.foralls, self.truth = [], [], {}
        for l in old + fo:
            self.add(tm.subst(l, m))

    def _resimplify(self):
        # unit propagation over clauses
        ch = None
        for i, l in enumerate(self.lits):
            if l.op in ('or',):
                rest = []
                sat = False
                for d in l.args:
                    v = self.truth.get(d.id)
                    if v is True: sat = True; break
                    if v is False: continue
                    rest.append(d)
                if sat or len(rest) == len(l.args): continue
                if not rest:
                    self.contradiction = True
                    return
                if len(rest) == 1:
                    self.lits[i] = tm.TRUE
                    ch = rest[0]
                    break
        if ch is not None:
            self.lits = [l for l in self.lits if l is not tm.TRUE]
            self.add(ch)

    # -------------------------------------------------- instantiation
    def instances(self, terms, rounds=2, cap=60):
        """ground instances of the universal facts at the index terms that occur"""
        if not self.foralls: return []
        out, seen = [], set()
        src = list(terms) + self.lits
        for _ in range(rounds):
            idx = {}
            for t in src:
                for x in tm.subterms(t):
                    if x.op in ('app', 'bapp', 'iapp'):
                        for a in x.args[1]:
                            if isinstance(a, int): idx[('c', a)] = a
                            elif type(a) is T and a.sort == 'I' and not a.bv:
                                idx[a.id] = a
                                if a.op == 'ip' and len(a.args) > 1:      # the parts of a flattened index
                                    for m, c in a.args:
                                        for y in m:
                                            if y.op == 'ivar':
                                                y = tm._imk1(y)
                                                idx[y.id] = y
            new = []
            for f in self.foralls:
                todo = [(f, ())]
                while todo:
                    g, pre = todo.pop()
                    v, dim, body = g.args
                    for k, a in idx.items():
                        key = (g.id, k)
                        if key in seen: continue
                        inb = tm.land(tm.ile(0, a), tm.ilt(a, dim))
                        if inb is tm.FALSE: continue
                        if inb is not tm.TRUE:
                            # plausible only if the bound was declared equal
                            if not _same_dim(a, dim): continue
                        seen.add(key)
                        inst = tm.subst(body, {v.args[0][0][0].id: a})
                        if inst.op == 'forall':
                            todo.append((inst, pre))
                        else:
                            inst = tm.lor(tm.lnot(inb), inst)
                            if inst is not tm.TRUE: new.append(inst)
                        if len(out) + len(new) > cap: break
            if not new: break
            out += new
            src = new
        res = []
        for x in out:
            y = self.simp(x)
            if y is tm.TRUE: continue
            for z in (y.args if y.op == 'and' else (y,)): res.append(z)
        return res


def _same_dim(a, dim):
    lo, hi = tm.ibounds(a)
    return hi is dim


def relevant(lits, goal_terms, limit=80):
    """facts sharing symbols with the goal (transitively)"""
    def syms(t):
        s = _symcache.get(t.id)
        if s is None:
            s = set()
            for x in tm.subterms(t):
                if x.op in ('app', 'bapp', 'ivar', 'iapp', 'uf', 'count'): s.add(x.id)
            s = frozenset(s)
            _symcache[t.id] = s
        return s
    cur = set()
    for g in goal_terms: cur |= syms(g)
    rest = list(lits)
    out = []
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for l in rest:
            if syms(l) & cur or not syms(l):
                out.append(l); changed = True
            else: nxt.append(l)
        for l in out: cur |= syms(l)
        rest = nxt
    return out[:limit]


_symcache = {}
_imp_cache = {}


def implied(facts, c, timeout=0.5):
    """True/False if facts decide c, else None (z3)"""
    c = facts.simp(c)
    if c is tm.TRUE: return True
    if c is tm.FALSE: return False
    if z3_unsat(facts, [tm.lnot(c)], timeout): return True
    if z3_unsat(facts, [c], timeout): return False
    return None


def z3_unsat(facts, extra, timeout, want_model=False):
    """are the facts together with `extra` contradictory?  Linear arithmetic over normalised
    monomials first (with case splits on if-then-else conditions), then z3 on the terms as they are."""
    _tick()
    key = None
    if not want_model:
        key = (tuple(sorted(l.id for l in facts.lits)), tuple(f.id for f in facts.foralls), tuple(e.id for e in extra), timeout)
        r = _imp_cache.get(key)
        if r is not None: return r
    f = facts.copy()
    for e in extra: f.add(e)
    if f.contradiction:
        if want_model: return True, None, None
        _imp_cache[key] = True
        return True
    goal_terms = [f.simp_subs(e) for e in extra]
    inst = f.instances(goal_terms)
    for l in inst:
        if not _bad(l): f.add(l)
        if f.contradiction: break
    r = f.contradiction
    old = {l.id for l in facts.lits}
    new = [l for l in f.lits if l.id not in old]
    lits = relevant([l for l in f.lits if not _bad(l)], goal_terms + new[:20])
    if not r: r = refute(f, lits, 0, [40])
    if not r and timeout >= 1 and not want_model and not _deep[0] and _deep_worth(f, lits):
        _deep[0] = True
        try: r = refute(f, lits, 0, [12])
        finally: _deep[0] = False
    if not r or want_model:
        try:
            zz = Z()
            forms = [zz.boolean(l) for l in lits]
            res, s = _solve(zz, forms, timeout)
            r = r or res == z3.unsat
            if want_model: return r, (s.model() if res == z3.sat else None), zz
        except Unsupported:
            if want_model: return r, None, None
    _imp_cache[key] = r
    return r


_deep = [False]


def _deep_worth(facts, lits):
    n = 0
    for l in lits:
        k = len(tm.subterms(l)) if hasattr(tm.subterms(l), '__len__') else sum(1 for _ in tm.subterms(l))
        n += k
    return n < 3000


def refute(facts, lits, depth, budget):
    """contradiction by linear arithmetic over normal forms; splits on conditions of if-then-else"""
    _tick()
    if facts.contradiction: return True
    if budget[0] <= 0: return False
    budget[0] -= 1
    t0 = time.time()
    try:
        r, split = lin_unsat(facts, lits)
    finally:
        STATS['ring_time'] += time.time() - t0
    if r: return True
    if depth >= 8: return False
    if split is None:
        # case distinction on a disjunctive fact
        for l in lits:
            if l.op == 'or' and len(l.args) <= 4 and all(d.op in ('lt', 'eq', 'and', 'not') for d in l.args): split = l.args[0]; break
    if split is None: return False
    c = _innermost(split)
    c = split if c is None else c
    c = facts.simp(c)
    if c is tm.TRUE or c is tm.FALSE or facts.truth.get(c.id) is not None: return False
    seen = {l.id for l in lits} | {l.id for l in facts.lits}
    for val in (True, False):
        f = facts.copy()
        f.add(c if val else tm.lnot(c))
        f.truth.setdefault(c.id, val)
        if f.contradiction: continue
        sub = [f.simp_fact(l) for l in lits]
        sub = [l for l in sub if l is not tm.TRUE] + [l for l in f.lits if l.id not in seen]
        if any(l is tm.FALSE for l in sub): continue
        if not refute(f, sub, depth + 1, budget): return False
    return True


def _lits_of(lits):
    """arithmetic literals: (kind, a, b) meaning a < b, a <= b, a == b"""
    out = []
    for l in lits:
        neg = l.op == 'not'
        g = l.args[0] if neg else l
        if g.op == 'lt': out.append(('le', g.args[1], g.args[0]) if neg else ('lt', g.args[0], g.args[1]))
        elif g.op == 'eq' and not neg: out.append(('eq', g.args[0], g.args[1]))
        elif g.op == 'eq' and neg: out.append(('ne', g.args[0], g.args[1]))
        elif g.op == 'ilt': out.append(('le', tm.R(g.args[1]), tm.ZERO) if neg else ('lt', tm.ZERO, tm.R(g.args[1])))
        elif g.op == 'ieq' and not neg: out.append(('eq', tm.R(g.args[0]), tm.ZERO))
    return out


def lin_unsat(facts, lits):
    """(unsat?, condition to split on)"""
    arith = _lits_of(lits)
    if not arith: return False, None
    split = None
    ctx = Ctx(facts.truth)
    good = []
    for k, a, b in arith:
        try:
            u = trig_units(ctx, [a, b])
            good.append((k, a, b))
        except Split as e: split = e.cond if split is None else split
        except (Undefined, Unsupported): pass
    try:
        u = trig_units(ctx, [x for k, a, b in good for x in (a, b)])
    except (Split, Undefined, Unsupported): u = None
    if u: ctx.units = u; ctx.cache = {}
    polys = []
    for k, a, b in good:
        n0 = len(ctx.side)
        try: r = ctx.nf(tm.sub(b, a))
        except Split as e:
            split = e.cond if split is None else split
            continue
        except (Undefined, Unsupported): continue
        side = ctx.side[n0:]
        ok = True
        for sd in side:
            sd = facts.simp(sd)
            if sd is tm.TRUE: continue
            if not _side_ok(facts, lits, sd): ok = False
        if ok: polys.append((k, r))
        else:
            ctx.side_seen.difference_update(x.id for x in side)
            del ctx.side[n0:]
    if not polys: return False, split
    S = LinSolver(ctx)
    later = []
    for k, (n, d) in polys:
        n = ctx.clear_even(n)
        if all(e % 2 == 0 for _, e in d): S.add(k, n)
        else: later.append((k, n, d))
    for k, n, d in later:
        sgn = 1
        for key, e in d:
            if e % 2 == 0: continue
            p = ctx.dens[key]
            if k in ('eq', 'ne'): continue
            s = S.sign(p)
            if s == 0:
                n = ctx.reduce(p_mul(n, p)); s = 1
            sgn *= s
        if sgn < 0: n = p_scale(n, -1)
        S.add(k, n)
    return S.unsat(), split


_side_depth = [0]


def _side_ok(facts, lits, sd):
    from .ring import Ctx as _C
    if _side_depth[0] >= 2: return False
    if sd.op == 'not' and sd.args[0].op == 'eq':
        a, b = sd.args[0].args
        t = tm.sub(a, b)
        if t.op == 'c': return t.args[0] != 0
    if sd.op == 'not' and sd.args[0].op == 'lt':
        a, b = sd.args[0].args
        if b is tm.ZERO and tm.struct_nonneg(a): return True
    _side_depth[0] += 1
    try:
        f = facts.copy()
        f.add(tm.lnot(sd))
        if f.contradiction: return True
        sub = [l for l in f.lits]
        return lin_unsat(f, relevant(sub, [sd]))[0]
    finally:
        _side_depth[0] -= 1


class LinSolver:
    """linear arithmetic over the monomials of a normalisation context"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.s = z3.Solver()
        self.s.set('timeout', 500)
        self.v = {}
        self.n = 0
        self.units = set()
        self.ineqs = []
        self.nes = []

    def mono(self, m):
        if m == (): return z3.RealVal(1)
        x = self.v.get(m)
        if x is None:
            x = z3.Real('m%d' % len(self.v))
            self.v[m] = x
            self.axioms(m, x)
        return x

    def bounds(self, a):
        k = self.ctx.atoms[a]
        t = self.ctx.term_of.get(a)
        if t is not None and t.op == 'fn' and len(t.args[1]) == 1 and t.args[1][0].op == 'c' and t.args[0] in ('sqrt', 'acos', 'asin', 'sin', 'cos'):
            try: v = getattr(math, t.args[0])(float(t.args[1][0].args[0]))
            except ValueError: v = None
            if v is not None:
                e = abs(v) * 1e-14 + 1e-15
                lo, hi = Fraction(v - e), Fraction(v + e)
                return (z3.Q(lo.numerator, lo.denominator), z3.Q(hi.numerator, hi.denominator))
        if k[0] in ('cos', 'sin'): return (-1, 1)
        if k[0] == 'sqrt': return (0, None)
        if k[0] == 'ind': return (0, 1)
        if k[0] == 'pi': return (z3.Q(314159265358979, 10 ** 14), z3.Q(314159265358980, 10 ** 14))
        t = self.ctx.term_of.get(a)
        if k[0] == 't' and t is not None and t.op == 'app' and t.args[0] in UNIT_GROUPS: return (-1, 1)
        if k[0] == 'fn' and k[1] == 'acos': return (0, z3.Q(314159265358980, 10 ** 14))
        if k[0] == 'fn' and k[1] == 'atan2':
            if t is not None and tm.struct_nonneg(t.args[1][0]): return (0, z3.Q(314159265358980, 10 ** 14))
            return (z3.Q(-314159265358980, 10 ** 14), z3.Q(314159265358980, 10 ** 14))
        if t is not None and t.op == 'sum' and tm.struct_nonneg(t): return (0, None)
        return (None, None)

    def axioms(self, m, x):
        even = all(e % 2 == 0 or self.bounds(a)[0] is not None and not z3.is_rational_value(self.bounds(a)[0]) and self.bounds(a)[0] == 0 for a, e in m)
        if even: self.s.add(x >= 0)
        if len(m) == 1 and m[0][1] == 1:
            lo, hi = self.bounds(m[0][0])
            if lo is not None: self.s.add(x >= lo)
            if hi is not None: self.s.add(x <= hi)
            k = self.ctx.atoms[m[0][0]]
            if k[0] == 'fn' and k[1] in ('acos', 'atan2', 'asin'):
                t = self.ctx.term_of.get(m[0][0])
                pi = self.mono(((self.ctx.atom(('pi',), tm.PI), 1),))
                if k[1] == 'asin' or (k[1] == 'atan2' and tm.struct_nonneg(t.args[1][1])): self.s.add(2 * x <= pi, -2 * x <= pi)
                else: self.s.add(x <= pi, -x <= pi)
        elif all(self.bounds(a) in ((-1, 1), (0, 1)) and e > 0 for a, e in m):
            self.s.add(x <= 1); self.s.add(x >= (0 if even else -1))
        for a, e in m:
            k = self.ctx.atoms[a]
            t = self.ctx.term_of.get(a)
            if k[0] == 't' and t is not None and t.args[0] in UNIT_GROUPS and isinstance(t.args[1][-1], int):
                lead, comps = UNIT_GROUPS[t.args[0]]
                g = (t.args[0],) + tuple(i._k if type(i) is T else i for i in t.args[1][:-1])
                if g in self.units: continue
                self.units.add(g)
                ss = []
                for c in comps:
                    if c == lead: continue
                    o = tm.app(t.args[0], t.args[1][:-1] + (c,))
                    ss.append(self.mono(((self.ctx.atom(('t', o.id), o), 2),)))
                if ss: self.s.add(sum(ss) <= 1)

    def poly(self, p):
        acc = z3.RealVal(0)
        for m, c in p.items():
            c = Fraction(c)
            acc = acc + z3.Q(c.numerator, c.denominator) * self.mono(m)
        return acc

    def add(self, k, n):
        if k in ('lt', 'le') and n: self.ineqs.append((k, n))
        self.add1(k, n)

    def add1(self, k, n):
        self.n += 1
        if not n:
            if k in ('lt', 'ne'): self.s.add(z3.BoolVal(False))
            return
        if k == 'ne':
            self.nes.append(n)
            return
        e = self.poly(n)
        self.s.add(e > 0 if k == 'lt' else e >= 0 if k == 'le' else e == 0)

    def sign(self, p):
        e = self.poly(p)
        for s, c in ((1, e <= 0), (-1, e >= 0)):
            self.s.push(); self.s.add(c)
            r = self.check()
            self.s.pop()
            if r == z3.unsat: return s
        return 0

    def check(self):
        t0 = time.time()
        r = self.s.check()
        STATS['z3_queries'] += 1
        STATS['z3_time'] += time.time() - t0
        return r

    def unsat(self):
        if self.check() == z3.unsat: return True
        if any(self.forced_zero(n) for n in self.nes[:12]): return True
        if not _deep[0]: return False
        self.atan2_signs()
        return self.products() and self.check() == z3.unsat

    def forced_zero(self, n):
        if any(m not in self.v for m in n if m != ()): return False
        e = self.poly(n)
        for c in (e > 0, e < 0):
            self.s.push(); self.s.add(c)
            r = self.check()
            self.s.pop()
            if r != z3.unsat: return False
        return True

    def atan2_signs(self):
        for a, k in list(enumerate(self.ctx.atoms)):
            if k[0] != 'fn' or k[1] != 'atan2' or (((a, 1),)) not in self.v: continue
            t = self.ctx.term_of.get(a)
            x = self.v[((a, 1),)]
            pi = self.mono(((self.ctx.atom(('pi',), tm.PI), 1),))
            try: (n, d), (ny, dy) = self.ctx.nf(t.args[1][1]), self.ctx.nf(t.args[1][0])
            except (Split, Undefined, Unsupported): continue
            if not d and self.holds_ge0(n): self.s.add(2 * x <= pi, -2 * x <= pi)
            if not dy and self.holds_ge0(ny): self.s.add(x >= 0)

    def holds_ge0(self, n):
        e = self.poly(n)
        self.s.push(); self.s.add(e < 0)
        r = self.check()
        self.s.pop()
        return r == z3.unsat

    def products(self):
        """pairwise products of the inequalities (degree-2 consequences)"""
        ps = [(k, n) for k, n in self.ineqs if len(n) <= 14]
        if not 0 < len(ps) <= 12: return False
        for i in range(len(ps)):
            for j in range(i, len(ps)):
                (k1, a), (k2, b) = ps[i], ps[j]
                if len(a) * len(b) > 120: continue
                try: n = self.ctx.reduce(p_mul(a, b))
                except (Split, Undefined, Unsupported): continue
                self.add1('lt' if k1 == k2 == 'lt' else 'le', n)
        return True


def _bad(t):
    for x in tm.subterms(t):
        if x.op in ('inf', 'nan'): return True
    return False


def feasible(facts, c, timeout=0.5):
    """False only if facts and c are contradictory"""
    c2 = facts.simp(c)
    if c2 is tm.FALSE or facts.contradiction: return False
    return not z3_unsat(facts, [c2] if c2 is not tm.TRUE else [], timeout)


# ------------------------------------------------------------------ goals
class Fail(Exception):
    """goal not proved; carries the leaf facts and goal for counterexample search"""
    def __init__(self, why, facts=None, goal=None):
        Exception.__init__(self, why)
        self.why, self.facts, self.goal = why, facts, goal


def _trig_args(terms):
    out = {}
    for t in terms:
        for x in tm.subterms(t):
            if x.op == 'fn' and x.args[0] in ('sin', 'cos') and not x.bv:
                a = x.args[1][0]
                out[a.id] = a
    return out


def rewrite_inverse(facts, terms):
    """acos(cos u) = u for u in [0, pi], atan2(r sin u, r cos u) = u for u in (-pi, pi], r > 0:
    substitutions for the inverse functions that occur"""
    inv = {}
    for t in terms:
        for x in tm.subterms(t):
            if x.op == 'fn' and x.args[0] in ('acos', 'atan2', 'asin') and not x.bv: inv[x.id] = x
    if not inv: return {}
    cands = _trig_args(list(terms) + facts.lits)
    if not cands: return {}
    out = {}
    for x in inv.values():
        if any(y is not x and y.id in inv for a in x.args[1] for y in tm.subterms(a)): continue
        for u in list(cands.values()):
            if any(z is x for z in tm.subterms(u)): continue
            for v in (u, tm.mul(tm.TWO, u)):
                if _inverse_is(facts, x, v):
                    out[x.id] = v
                    break
            if x.id in out: break
    return out


def trig_signs(facts, goal):
    """0 <= u <= pi implies sin u >= 0 (strictly inside: > 0), for the angles of goals with inverse functions"""
    if not any(x.op == 'fn' and x.args[0] in ('acos', 'atan2', 'asin') and not x.bv for x in tm.subterms(goal)): return facts
    new = []
    for u in _trig_args([goal] + facts.lits).values():
        if any(x.op == 'fn' for x in tm.subterms(u)): continue
        if z3_unsat(facts, [tm.le(u, tm.ZERO)], 0.5) and z3_unsat(facts, [tm.le(tm.PI, u)], 0.5): new.append(tm.lt(tm.ZERO, tm.fn('sin', u)))
        elif z3_unsat(facts, [tm.lt(u, tm.ZERO)], 0.5) and z3_unsat(facts, [tm.lt(tm.PI, u)], 0.5): new.append(tm.le(tm.ZERO, tm.fn('sin', u)))
    if new:
        facts = facts.copy()
        for n in new: facts.add(n)
    return facts


_inv_cache = {}


def _inverse_is(facts, x, u):
    key = (x.id, u.id, tuple(l.id for l in facts.lits))
    r = _inv_cache.get(key)
    if r is None:
        try: r = _inverse_is2(facts, x, u)
        except (Split, Undefined, Unsupported): r = False
        _inv_cache[key] = r
    return r


def _inverse_is2(facts, x, u):
    nm, args = x.args
    c, s = tm.fn('cos', u), tm.fn('sin', u)
    if nm == 'acos':
        d = tm.sub(args[0], c)
        ctx, r = _norm_real(facts, d)
        if ctx.side or not ctx.is_zero(r): return False
        return bool(z3_unsat(facts, [tm.lt(u, tm.ZERO)], 0.5) and z3_unsat(facts, [tm.lt(tm.PI, u)], 0.5))
    if nm == 'asin':
        d = tm.sub(args[0], s)
        ctx, r = _norm_real(facts, d)
        if ctx.side or not ctx.is_zero(r): return False
        return bool(z3_unsat(facts, [tm.lt(tm.mul(tm.TWO, u), tm.neg(tm.PI))], 0.5) and z3_unsat(facts, [tm.lt(tm.PI, tm.mul(tm.TWO, u))], 0.5))
    y, xx = args
    # y cos u - x sin u = 0  and  x cos u + y sin u > 0
    ctx, r = _norm_real(facts, tm.sub(tm.mul(y, c), tm.mul(xx, s)))
    if ctx.side and not all(z3_unsat(facts, [tm.lnot(q)], 0.5) for q in ctx.side): return False
    if not ctx.is_zero(r): return False
    pos = tm.add(tm.mul(xx, c), tm.mul(y, s))
    ctx, r = _norm_real(facts, pos)
    if ctx.side and not all(z3_unsat(facts, [tm.lnot(q)], 0.5) for q in ctx.side): return False
    p = ctx.rf_to_term(r)
    if not quick_sign(ctx, r, 'lt', False) and not z3_unsat(facts, [tm.lnot(tm.lt(tm.ZERO, p))], 0.5): return False
    return bool(z3_unsat(facts, [tm.le(u, tm.neg(tm.PI))], 0.5) and z3_unsat(facts, [tm.lt(tm.PI, u)], 0.5))


def _with_rewrites(facts, m):
    facts = facts.copy()
    for k, v in m.items(): facts.subs[k] = v
    old = facts.lits
    tr = facts.truth
    facts.lits, facts.truth = [], {}
    for l in old: facts.add(l)
    for k, v in tr.items(): facts.truth.setdefault(k, v)
    return facts


def prove(facts, goal, timeout=4.0, depth=0):
    """raises Fail if not proved; returns the list of back ends used"""
    _tick()
    if depth <= 2 and goal.op in ('eq', 'lt', 'not'):
        if depth == 0: facts = trig_signs(facts, goal)
        m = rewrite_inverse(facts, [goal])
        if m: facts = _with_rewrites(facts, m)
    if facts.contradiction: return ['trivial']
    goal = facts.simp(goal)
    if goal is tm.TRUE:
        STATS['trivial'] += 1
        return ['trivial']
    if goal is tm.FALSE:
        if z3_unsat(facts, [], timeout) : return ['z3']
        raise Fail('goal is false on this path', facts, goal)
    op = goal.op
    if op == 'and':
        r = []
        for g in goal.args: r += prove(facts, g, timeout, depth)
        return r
    if op == 'forall':
        v, dim, body = goal.args
        k = tm.ivar(tm.fresh_name('sk'), 0, dim)
        return prove(facts, tm.subst(body, {v.args[0][0][0].id: k}), timeout, depth)
    if op == 'or':
        # prove the most demanding disjunct under the negation of the others
        main = None
        rank = {'eq': 0, 'forall': 1, 'lt': 2, 'exists': 5}
        for g in goal.args:
            o = g.op
            k = rank.get(o, 3)
            if main is None or k < main[0]: main = (k, g)
        f = facts.copy()
        for g in goal.args:
            if g is not main[1]: f.add(tm.lnot(g))
        if f.contradiction: return ['trivial']
        return prove(f, main[1], timeout, depth)
    if op == 'exists':
        v, dim, body = goal.args
        cands = {}
        for t in facts.lits + [goal]:
            for x in tm.subterms(t):
                if x.op in ('app', 'bapp', 'iapp'):
                    for a in x.args[1]:
                        if (isinstance(a, int) or not a.bv): cands[a if isinstance(a, int) else a.id] = a
                        if type(a) is T and a.op == 'ip' and len(a.args) > 1:
                            for m, c in a.args:
                                for y in m:
                                    if y.op == 'ivar' and not y.bv and _same_dim(tm._imk1(y), dim): cands[y.id] = tm._imk1(y)
        for a in cands.values():
            g = tm.land(tm.ile(0, a), tm.ilt(a, dim), tm.subst(body, {v.args[0][0][0].id: a}))
            try: return prove(facts, g, timeout / 2, depth)
            except Fail: pass
        raise Fail('no witness found for an existential goal', facts, goal)
    if op == 'eq': return prove_eq(facts, goal.args[0], goal.args[1], timeout, depth)
    return prove_lit(facts, goal, timeout, depth)


def _many_fractions(t):
    n = 0
    for x in tm.subterms(t):
        if x.op == 'pow' and x.args[1] < 0 and x.args[0].op == 'add':
            n += 1
            if n > 2: return True
    return False


def _norm_real(facts, t, prefer=None, inverse_atoms=False):
    ctx = Ctx(facts.truth)
    ctx.inverse_atoms = inverse_atoms
    u = trig_units(ctx, [t])
    if u:
        ctx.units = u; ctx.cache = {}
    return ctx, ctx.nf(t)


def _with_split(facts, fn, cond, timeout, depth):
    """continue fn under both values of cond (infeasible ones pruned)"""
    if depth > 40: raise Fail('case split too deep', facts, cond)
    cond = facts.simp(cond)
    used = []
    inner = _innermost(cond)
    if inner is not None: cond = inner
    v = implied_fast(facts, cond)
    if v is None and not _cheap_undecided(facts, cond):
        v = implied(facts, cond)
    if v is not None:
        f = facts.copy(); f.add(cond if v else tm.lnot(cond))
        f.truth[cond.id] = v
        if f.contradiction:
            STATS['infeasible'] += 1
            return ['z3']
        return fn(f)
    for val in (True, False):
        f = facts.copy()
        f.add(cond if val else tm.lnot(cond))
        f.truth.setdefault(cond.id, val)
        if f.contradiction:
            STATS['infeasible'] += 1
            continue
        used += fn(f)
    return used or ['z3']


def implied_fast(facts, c):
    if c is tm.TRUE: return True
    if c is tm.FALSE: return False
    return facts.truth.get(c.id)


def _cheap_undecided(facts, c): return False


def _innermost(cond):
    """a condition of an if-then-else inside cond, innermost first"""
    best = None
    for x in tm.subterms(cond):
        if x.op in ('ite', 'iite') and not x.args[0].bv:
            c = x.args[0]
            if not any(y.op in ('ite', 'iite') for y in tm.subterms(c)):
                return c
    return None


def prove_eq(facts, a, b, timeout, depth=0):
    _tick()
    if facts.contradiction: return ['trivial']
    d = tm.sub(facts.simp(a), facts.simp(b))
    if d is tm.ZERO: return ['trivial']
    # infinities: equal only syntactically
    t0 = time.time()
    try:
        ctx = None
        if _many_fractions(d):
            try:
                ctx, r = _norm_real(facts, d, inverse_atoms=True)
                if not ctx.is_zero(r): ctx = None
            except (Undefined, Unsupported): ctx = None
        if ctx is None: ctx, r = _norm_real(facts, d)
        z = ctx.is_zero(r)
        side = list(ctx.side)
    except Split as s:
        STATS['ring_time'] += time.time() - t0
        return _with_split(facts, lambda f: prove_eq(f, a, b, timeout, depth + 1), s.cond, timeout, depth)
    except Undefined as e:
        if z3_unsat(facts, [], timeout): return ['z3']
        raise Fail('undefined arithmetic: %s' % e, facts, tm.eq(a, b))
    except Unsupported as e:
        # infinite / NaN constants: split on the remaining conditions first
        c = None
        for x in tm.subterms(d):
            if x.op == 'ite' and not x.args[0].bv:
                c = x.args[0]; break
        if c is not None:
            return _with_split(facts, lambda f: prove_eq(f, a, b, timeout, depth + 1), c, timeout, depth)
        a2, b2 = facts.simp(a), facts.simp(b)
        if a2 is b2 and a2.op == 'inf': return ['trivial']
        if a2.op in ('inf', 'nan') or b2.op in ('inf', 'nan'):
            if z3_unsat(facts, [], timeout): return ['z3']
            raise Fail('value is %s, expected %s' % (tm.show(a2), tm.show(b2)), facts, tm.FALSE)
        raise
    STATS['ring_time'] += time.time() - t0
    if not z:
        # equalities among the facts may still imply it
        f2 = facts
        t = ctx.to_term(ctx.clear_laurent(ctx.reduce(r[0])))
        if ideal_zero(f2, ctx, r[0]):
            pass
        elif z3_unsat(facts, [tm.lnot(tm.eq(t, tm.ZERO))], timeout):
            pass
        else:
            # an inverse function whose argument is settled only in this case
            m = {k: v for k, v in rewrite_inverse(facts, [d]).items() if k not in facts.subs}
            if m: return prove_eq(_with_rewrites(facts, m), tm.subst(d, m), tm.ZERO, timeout, depth + 1)
            raise Fail('not equal: difference %s' % tm.show(ctx.rf_to_term(r), 8)[:400], facts, tm.eq(a, b))
        used = ['z3']
    else:
        used = ['ring']
        STATS['ring'] += 1
    for s in side:
        used += prove_side(facts, s, timeout, depth)
    return used


def ideal_zero(facts, ctx, n):
    """n reduces to zero using equality facts as rewrite rules (one pass each)"""
    rules = []
    for l in facts.lits:
        if l.op == 'eq':
            try:
                q, d = ctx.nf(tm.sub(l.args[0], l.args[1]))
            except (Split, Undefined, Unsupported):
                continue
            q = ctx.clear_laurent(q)
            if q: rules.append(q)
    if not rules: return False
    from .ring import _grlex, m_div, p_add, m_mul, qi
    n = ctx.clear_laurent(ctx.reduce(n))
    for _ in range(200):
        if not n: return True
        hit = False
        for q in rules:
            lq = max(q, key=_grlex)
            for m in sorted(n, key=_grlex, reverse=True):
                k = m_div(m, lq)
                if all(e >= 0 for _, e in k):
                    c = qi(Fraction(n[m]) / q[lq])
                    n = ctx.reduce(p_add(n, {m_mul(k, mq): qi(-c * v) for mq, v in q.items()}))
                    hit = True
                    break
            if hit: break
        if not hit: return False
    return False


def prove_side(facts, s, timeout, depth):
    """definedness condition"""
    s = facts.simp(s)
    if s is tm.TRUE: return []
    return prove(facts, s, timeout, depth + 1)


def prove_lit(facts, goal, timeout, depth=0):
    """inequalities, negated equalities, index conditions, boolean symbols"""
    _tick()
    if goal.op in ('lt', 'eq') or (goal.op == 'not' and goal.args[0].op in ('lt', 'eq')):
        g0 = goal.args[0] if goal.op == 'not' else goal
        neg = goal.op == 'not'
        d = tm.sub(facts.simp(g0.args[1]), facts.simp(g0.args[0]))
        if g0.op == 'lt' and not neg or g0.op == 'eq' and neg:
            if struct_sign(d, known_signs(facts)) == 2 and not any(x.op == 'fn' or x.op == 'pow' and x.args[1] < 0 for x in tm.subterms(d)):
                return ['trivial']
        try:
            ctx, r = _norm_real(facts, d)
        except Split as s:
            return _with_split(facts, lambda f: prove(f, goal, timeout, depth + 1), s.cond, timeout, depth)
        except Undefined as e:
            if z3_unsat(facts, [], timeout): return ['z3']
            raise Fail('undefined arithmetic: %s' % e, facts, goal)
        t = ctx.rf_to_term(r)
        g = tm.lt(tm.ZERO, t) if g0.op == 'lt' else tm.eq(t, tm.ZERO)
        if neg: g = tm.lnot(g)
        side = list(ctx.side)
        if g is not tm.TRUE:
            if quick_sign(ctx, r, g0.op, neg, facts): pass
            elif z3_unsat(facts, [tm.lnot(g)], timeout): STATS['z3'] += 1
            elif z3_unsat(facts, [tm.lnot(goal)], timeout): STATS['z3'] += 1
            else: raise Fail('not proved: %s' % tm.show(g, 8)[:400], facts, goal)
        used = ['z3']
        me = goal
        for s in side:
            if s is not me: used += prove_side(facts, s, timeout, depth)
        return used
    if z3_unsat(facts, [tm.lnot(goal)], timeout):
        STATS['z3'] += 1
        return ['z3']
    # case split on conditions inside
    c = _innermost(goal)
    if c is not None and depth < 30:
        return _with_split(facts, lambda f: prove(f, goal, timeout, depth + 1), c, timeout, depth)
    raise Fail('not proved: %s' % tm.show(goal, 8)[:400], facts, goal)


def known_signs(facts):
    """terms with a sign among the facts: id -> 2 (positive) or 1 (non-negative)"""
    out = {}
    for l in facts.lits:
        if l.op == 'lt' and l.args[0].op in ('c', 'zero') and _cval(l.args[0]) >= 0: out[l.args[1].id] = 2
        elif l.op == 'not' and l.args[0].op == 'lt' and l.args[0].args[1].op in ('c', 'zero'):
            c = _cval(l.args[0].args[1])
            if c >= 0: out[l.args[0].args[0].id] = max(out.get(l.args[0].args[0].id, 0), 2 if c > 0 else 1)
    return out


def _cval(t): return t.args[0] if t.op == 'c' else 0


def struct_sign(t, signs, depth=0):
    """2 if the term is positive, 1 if non-negative, by its structure and the known signs; 0 if unknown"""
    s = signs.get(t.id)
    if s: return s
    op = t.op
    if op == 'c': return 2 if t.args[0] > 0 else (1 if t.args[0] == 0 else 0)
    if op == 'zero': return 1
    if op == 'pi': return 2
    if op == 'add':
        a, b = struct_sign(t.args[0], signs), struct_sign(t.args[1], signs)
        return max(a, b) if a and b else 0
    if op in ('mul', 'pow'):
        fs = {}

        def go(x, e):
            if x.op == 'mul': go(x.args[0], e); go(x.args[1], e)
            elif x.op == 'pow': go(x.args[0], e * x.args[1])
            else: fs[x.id] = (x, fs.get(x.id, (x, 0))[1] + e)
        go(t, 1)
        r = 2
        for x, e in fs.values():
            s = struct_sign(x, signs)
            if not s and e % 2 == 0: s = 1
            if e < 0 and s < 2: s = 0
            if not s: return 0
            r = min(r, s)
        return r
    if op == 'sum': return 1 if struct_sign(t.args[2], signs) else 0
    if op == 'fn' and t.args[0] in ('sqrt', 'acos'): return 1
    if op == 'ite': return min(struct_sign(t.args[1], signs), struct_sign(t.args[2], signs))
    return 0


def quick_sign(ctx, r, op, neg, facts=None):
    """syntactic positivity of a normal form"""
    n, d = r
    if any(e % 2 for _, e in d): return False
    signs = known_signs(facts) if facts is not None else {}

    def sgn(a):
        if ctx.atoms[a][0] == 'pi': return 2
        t = ctx.term_of.get(a)
        s = signs.get(t.id, 0) if t is not None else 0
        return s or (1 if ctx.atoms[a][0] == 'sqrt' else 0)

    def pos(m): return all(e % 2 == 0 or sgn(a) for a, e in m)
    def strict(m): return all(sgn(a) == 2 for a, e in m)
    up = bool(n) and all(c > 0 and pos(m) for m, c in n.items())
    dn = bool(n) and all(c < 0 and pos(m) for m, c in n.items())
    some = any(strict(m) for m in n)
    if op == 'lt':
        if neg: return not n or dn      # not (0 < t)
        return up and some
    if op == 'eq' and neg: return (up or dn) and some
    return False
