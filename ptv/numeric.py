"""Floating-point evaluation of obligations the prover did not discharge.

An obligation that is not discharged is either false, or true and beyond the prover.  Here its facts and
goal are evaluated at sampled values of the inputs: a point where the facts hold and the goal is clearly
false becomes a candidate input for the real code; many points where the facts hold and the goal is true,
and none where it is false, mean that the failure says nothing about the code.  Nothing is proved here.
"""
import itertools
import math
import random
import time
from . import terms as tm
from .terms import T
from .ring import UNIT_GROUPS


class Undecided(Exception): pass


class Val:
    def __init__(self, rng, facts, consts=()):
        self.rng = rng
        self.facts = facts
        self.consts = consts
        self.style = {}
        self.r, self.b, self.i, self.iv, self.u = {}, {}, {}, {}, {}
        self.memo = {}
        self.busy = set()
        self.forced = {}
        self.steps = 0

    # ---- inputs
    def sample(self, name):
        s = self.style.get(name)
        if s is None: s = self.style[name] = self.rng.choice(['normal', 'normal', 'normal', 'mixed', 'ints', 'large', 'tiny', 'special', 'positive', 'unit'])
        r = self.rng
        if s == 'mixed': s = r.choice(['normal', 'ints', 'tiny', 'large', 'special'])
        if s == 'ints': return float(r.choice([-2, -1, 0, 0, 1, 1, 2]))
        if s == 'large': return r.uniform(-10, 10)
        if s == 'tiny': return r.choice([1e-3, -1e-3, 1e-5, -1e-6, 0.0, r.gauss(0, 1e-4)])
        if s == 'positive': return abs(r.gauss(0, 1))
        if s == 'unit': return r.random()
        if s == 'special' and self.consts:
            c = r.choice(self.consts)
            return r.choice([c, c * (1 + 1e-3), c * (1 - 1e-3), -c, c + r.gauss(0, .1), c * r.random(), c])
        return r.gauss(0, 1)

    def real(self, name, ix):
        k = (name, ix)
        if k in self.r: return self.r[k]
        g = UNIT_GROUPS.get(name)
        if g and ix and ix[-1] in g[1]:
            ks = [(name, ix[:-1] + (c,)) for c in g[1]]
            free = [q for q in ks if q not in self.r]
            left = 1 - sum(self.r[q] ** 2 for q in ks if q in self.r)
            if left < -1e-9: raise Undecided()
            v = [self.sample(name) for _ in free]
            n = math.sqrt(sum(x * x for x in v))
            if n < 1e-12:
                v = [0.0] * len(v); v[self.rng.randrange(len(v))] = self.rng.choice([1.0, -1.0]); n = 1.0
            for q, x in zip(free, v): self.r[q] = x * math.sqrt(max(left, 0.0)) / n
        else: self.r[k] = self.sample(name)
        return self.r[k]

    def ivar(self, a, env):
        if a.id in env: return env[a.id]
        if a.id in self.iv: return self.iv[a.id]
        s = self.facts.subs.get(a.id)
        if s is not None and a.id not in self.busy:
            self.busy.add(a.id)
            v = self.int(s, env)
        else:
            lo, hi = tm.ivar_bounds.get(a.id, (None, None))
            lo = 0 if lo is None else self.int(lo, env)
            if hi is None: v = self.rng.choice([lo, lo + 1, lo + 1, lo + 2, lo + 3])
            else:
                hi = self.int(hi, env)
                if hi <= lo: raise Undecided()
                v = self.rng.randrange(lo, hi)
        self.iv[a.id] = v
        return v

    # ---- terms
    def int(self, x, env):
        if isinstance(x, int): return x
        if x.op != 'ip': return self.iatom(x, env)
        s = 0
        for m, c in x.args:
            p = c
            for a in m: p *= self.iatom(a, env)
            s += p
        return s

    def iatom(self, a, env):
        op = a.op
        if op == 'ivar': return self.ivar(a, env)
        if op == 'iapp':
            if a.args[0] == 'isum':
                f = a.args[1][0]
                return int(round(sum(self.table(f, env))))
            ix = self.index(a.args[1], env)
            k = (a.args[0], ix)
            s = self.facts.subs.get(a.id)
            if s is not None and a.id not in self.busy and k not in self.i:
                self.busy.add(a.id)
                self.i[k] = self.int(s, env)
            if k not in self.i:
                lo, hi = tm.iapp_bounds.get(a.args[0], (None, None))
                lo = 0 if lo is None else self.int(lo, env)
                hi = lo + 4 if hi is None else self.int(hi, env)
                if hi <= lo: raise Undecided()
                self.i[k] = self.rng.randrange(lo, hi)
            return self.i[k]
        if op in ('idiv', 'imod'):
            x, y = self.int(a.args[0], env), self.int(a.args[1], env)
            if y == 0: raise Undecided()
            return x // y if op == 'idiv' else x % y
        if op == 'iite':
            c = self.bool(a.args[0], env)
            if c is None: raise Undecided()
            return self.int(a.args[1] if c else a.args[2], env)
        if op == 'ip': return self.int(a, env)
        raise Undecided()

    def index(self, idx, env):
        return tuple(self.int(i, env) if not (type(i) is T and i.sort == 'R') else self.real_of(i, env) for i in idx)

    def real_of(self, t, env):
        v = self.num(t, env)
        return int(v) if v == int(v) else v

    def table(self, f, env):
        if type(f) is not T: return [f]
        if f.op != 'lam': return [self.any(f, env)]
        vs, body = f.args
        atoms = [v.args[0][0][0] for v in vs]
        out = []

        def go(k, e):
            if k == len(atoms):
                out.append(self.any(body, e)); return
            hi = self.int(tm.ivar_bounds[atoms[k].id][1], e)
            for i in range(hi):
                e2 = dict(e); e2[atoms[k].id] = i
                go(k + 1, e2)
        go(0, env)
        return out

    def any(self, t, env):
        if type(t) is not T: return t
        if t.sort == 'I': return self.int(t, env) if t.op == 'ip' else self.iatom(t, env)
        return self.bool(t, env) if t.sort == 'B' else self.num(t, env)

    def key(self, t, env):
        if not t.bv: return t.id
        return (t.id,) + tuple(sorted((i, env[i]) for i in t.bv if i in env))

    def num(self, t, env):
        if t.op == 'c': return float(t.args[0])
        k = self.key(t, env)
        v = self.memo.get(k)
        if v is None:
            self.steps += 1
            if self.steps > 200000: raise Undecided()
            v = self.memo[k] = self._num(t, env)
        return v

    def over(self, t, env):
        v, dim, body = t.args
        a = v.args[0][0][0]
        for i in range(self.int(dim, env)):
            e = dict(env); e[a.id] = i
            yield e, body

    def _num(self, t, env):
        op = t.op
        if op == 'app':
            s = self.facts.subs.get(t.id)
            if s is not None and t.id not in self.busy:
                ix = self.index(t.args[1], env)
                if (t.args[0], ix) not in self.r:
                    self.busy.add(t.id)
                    self.r[(t.args[0], ix)] = self.num(s, env)
            return self.real(t.args[0], self.index(t.args[1], env))
        if op == 'pi': return math.pi
        if op == 'add': return self.num(t.args[0], env) + self.num(t.args[1], env)
        if op == 'mul': return self.num(t.args[0], env) * self.num(t.args[1], env)
        if op == 'pow':
            x = self.num(t.args[0], env)
            if x == 0 and t.args[1] < 0: raise Undecided()
            if abs(x) < 1e-12 and t.args[1] < 0: raise Undecided()
            return x ** t.args[1]
        if op == 'ite':
            c = self.bool(t.args[0], env)
            if c is None: raise Undecided()
            return self.num(t.args[1] if c else t.args[2], env)
        if op == 'fn':
            n, a = t.args[0], [self.num(x, env) for x in t.args[1]]
            if n == 'sin': return math.sin(a[0])
            if n == 'cos': return math.cos(a[0])
            if n == 'tan': return math.tan(a[0])
            if n == 'sqrt':
                if a[0] < 0:
                    if a[0] > -1e-12: return 0.0
                    raise Undecided()
                return math.sqrt(a[0])
            if n in ('acos', 'asin'):
                if abs(a[0]) > 1 + 1e-9: raise Undecided()
                return getattr(math, n)(max(-1.0, min(1.0, a[0])))
            if n == 'atan2': return math.atan2(a[0], a[1])
            if n == 'floor':
                f = math.floor(a[0])
                if a[0] != f and min(a[0] - f, f + 1 - a[0]) < 1e-9: raise Undecided()
                return float(f)
            if n == 'round':
                if abs(a[0] - math.floor(a[0]) - .5) < 1e-9: raise Undecided()
                return float(round(a[0]))
            raise Undecided()
        if op == 'itor': return float(self.int(t.args[0], env))
        if op == 'zero': return 0.0
        if op == 'sum': return sum(self.num(b, e) for e, b in self.over(t, env))
        if op in ('rmax', 'rmin'):
            v = [self.num(b, e) for e, b in self.over(t, env)]
            if not v: raise Undecided()
            return max(v) if op == 'rmax' else min(v)
        if op == 'uf':
            k = (t.args[0],) + tuple(tuple(round(x, 9) if isinstance(x, float) else x for x in self.table(a, env)) for a in t.args[1])
            if k not in self.u: self.u[k] = self.sample(t.args[0])
            return self.u[k]
        raise Undecided()

    def bool(self, t, env):
        """True, False, or None when the values are too close to tell"""
        if t is tm.TRUE: return True
        if t is tm.FALSE: return False
        op = t.op
        if op == 'not':
            v = self.bool(t.args[0], env)
            return None if v is None else not v
        if op in ('and', 'or'):
            stop = op == 'or'
            un = False
            for x in t.args:
                try: v = self.bool(x, env)
                except Undecided: v = None
                if v is None: un = True
                elif v == stop: return stop
            return None if un else not stop
        if op in ('forall', 'exists'):
            stop = op == 'exists'
            un = False
            for e, b in self.over(t, env):
                try: v = self.bool(b, e)
                except Undecided: v = None
                if v is None: un = True
                elif v == stop: return stop
            return None if un else not stop
        if op in ('lt', 'eq'):
            a, b = self.num(t.args[0], env), self.num(t.args[1], env)
            if a != a or b != b: raise Undecided()
            d = abs(a - b)
            s = 1e-9 * (abs(a) + abs(b)) + 1e-13
            if op == 'lt': return (a < b) if d == 0 or d > s else None
            if d == 0: return True
            return False if d > 1e-5 * (1 + abs(a) + abs(b)) else (True if d <= 1e-9 * (1 + abs(a) + abs(b)) else None)
        if op == 'ilt': return self.int(t.args[0], env) < self.int(t.args[1], env)
        if op == 'ieq': return self.int(t.args[0], env) == self.int(t.args[1], env)
        if op == 'bapp':
            k = (t.args[0], self.index(t.args[1], env))
            if k not in self.b: self.b[k] = self.rng.random() < .5
            return self.b[k]
        raise Undecided()

    def hint(self):
        vals = {}
        for d in (self.r, self.b, self.i):
            for (n, ix), v in d.items(): vals.setdefault(n, {})[ix] = v
        dims = {}
        for a, v in self.iv.items():
            t = by_id(a)
            if t and t.isidentifier(): dims[t] = v
        return {'vals': vals, 'dims': dims}


_names = {}


def by_id(i):
    if i not in _names:
        for t in list(tm._table.values()):
            if t.op == 'ivar': _names[t.id] = t.args[0]
    return _names.get(i)


def consts_of(ts):
    out = set()
    for t in ts:
        for x in tm.subterms(t):
            if x.op in ('lt', 'eq'):
                for y in x.args:
                    if y.op == 'c' and y.args[0] != 0 and abs(y.args[0]) < 1000: out.add(float(y.args[0]))
            if len(out) > 12: break
    return sorted(out)


def probe(facts, goal, sub=None, seconds=1.0, tries=300, want=25, seed=1):
    """(points where facts hold and goal is true, hints for points where it is false)
    sub: the facts of the case in which the proof got stuck (points outside it do not count as true)"""
    rng = random.Random(seed)
    end = time.time() + seconds
    fs = list(facts.lits) + list(facts.foralls)
    extra = [] if sub is None else [f for f in list(sub.lits) + list(sub.foralls)]
    consts = consts_of(fs + extra + [goal])
    pre = [x for x in tm.subterms(goal) if x.id in facts.subs and x.op in ('app', 'iapp', 'ivar')]
    good, bad = 0, []
    stats = {'tries': 0, 'facts': 0, 'undecided': 0}
    for _ in range(tries):
        if time.time() > end or good >= want or len(bad) >= 2: break
        v = Val(rng, facts, consts)
        stats['tries'] += 1
        try:
            for a in pre: v.any(a, {})
            if not all(v.bool(f, {}) is True for f in fs): continue
            stats['facts'] += 1
            g = v.bool(goal, {})
            if g is None: stats['undecided'] += 1
            if g is False: bad.append(v.hint())
            elif g is True and all(v.bool(f, {}) is True for f in extra): good += 1
        except (Undecided, OverflowError, ZeroDivisionError, ValueError):
            stats['undecided'] += 1
            continue
    return good, bad, stats
