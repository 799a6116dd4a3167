"""Normal forms: rational functions over atoms modulo the algebraic relations of the atoms.

  sin(a)^2 -> 1 - cos(a)^2 ; sqrt(p)^2 -> p ; w^2 -> 1-x^2-y^2-z^2 for declared unit groups
  sin/cos of sums and integer multiples are expanded ; sin/cos of atan2/acos/asin are algebraic

Everything here is exact rational arithmetic; a polynomial that reduces to zero is zero.
"""
from fractions import Fraction
from . import terms as tm
from .terms import T, Unsupported
import math


class Split(Exception):
    """the normaliser needs the truth value of this condition (e.g. the sign under an abs)"""
    def __init__(self, cond):
        self.cond = cond


UNIT_GROUPS = {}      # app name -> (unit component, tuple of all components)   last index is the component


def qi(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c


# ---------------------------------------------------------------- polynomials: dict mono->coeff
# mono: tuple of (atom index, exponent) sorted by atom index


def p_const(c): return {(): qi(c)} if c else {}


def p_add(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def p_scale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: qi(c * k) for m, c in a.items()}


def m_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]; b, f = m2[j]
        if a == b:
            if e + f: out.append((a, e + f))
            i += 1; j += 1
        elif a < b:
            out.append((a, e)); i += 1
        else:
            out.append((b, f)); j += 1
    out.extend(m1[i:]); out.extend(m2[j:])
    return tuple(out)


TICK = [None]


def p_mul(a, b):
    if len(a) > len(b): a, b = b, a
    if TICK[0] is not None and len(a) * len(b) > 5000: TICK[0]()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def m_div(m1, m2):
    return m_mul(m1, tuple((a, -e) for a, e in m2))


def _order(m):
    return (sum(e for _, e in m), m)


def p_divexact(a, b):
    """a/b if b divides a exactly (plain polynomial division by leading term), else None"""
    if len(b) == 1:
        (bm, bc), = b.items()
        return {m_div(m, bm): qi(Fraction(c) / bc) for m, c in a.items()}
    if len(a) < len(b): return None
    # graded-lex leading terms
    lb = max(b, key=_grlex)
    cb = b[lb]
    q = {}
    r = dict(a)
    n = 0
    while r:
        n += 1
        if n > 400: return None
        lr = max(r, key=_grlex)
        m = m_div(lr, lb)
        if any(e < 0 for _, e in m): return None
        c = qi(Fraction(r[lr]) / cb)
        q[m] = qi(q.get(m, 0) + c)
        r = p_add(r, {m_mul(m, mb): qi(-c * v) for mb, v in b.items()})
    return q


def _grlex(m):
    # degree, then compare: larger exponent on smaller atom index first
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))


class Ctx:
    """one normalisation context: trig bases, known truths, side conditions"""

    def __init__(self, truth=None, trig_units=None, sumvars=()):
        self.atoms = []          # index -> descriptor tuple
        self.aidx = {}
        self.rel = {}            # atom index -> poly replacing atom^2
        self.truth = truth if truth is not None else {}   # cond T id -> bool
        self.truth_nf = None
        self.units = trig_units or {}
        self.side = []           # definedness conditions (B terms)
        self.side_seen = set()
        self.cache = {}
        self.term_of = {}        # atom index -> T
        self.dens = {}           # poly key -> poly (denominators seen)
        self.unit_atoms = {}
        self.inverse_atoms = False      # 1/p as an atom of its own (incomplete, but sums of many fractions stay small)

    # ---- atoms
    def atom(self, key, term=None):
        i = self.aidx.get(key)
        if i is None:
            i = len(self.atoms)
            self.aidx[key] = i
            self.atoms.append(key)
            self.term_of[i] = term
        return i

    def need(self, cond):
        if cond is tm.TRUE: return
        if cond.id in self.side_seen: return
        self.side_seen.add(cond.id)
        self.side.append(cond)

    # ---- reduction modulo relations
    def reduce(self, p):
        rel = self.rel
        if not rel: return p
        work = True
        while work:
            work = False
            out = {}
            for m, c in p.items():
                hit = None
                for k, (a, e) in enumerate(m):
                    if e >= 2 and a in rel:
                        hit = k; break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                else:
                    work = True
                    a, e = m[hit]
                    base = m[:hit] + (((a, e % 2),) if e % 2 else ()) + m[hit + 1:]
                    rp = rel[a]
                    q = {(): 1}
                    for _ in range(e // 2): q = p_mul(q, rp)
                    for m2, c2 in q.items():
                        mm = m_mul(base, m2)
                        v = out.get(mm, 0) + c * c2
                        if v: out[mm] = v
                        else: out.pop(mm, None)
            p = out
        return p

    # ---- rational functions: (num, den) den: dict key->(poly,exp)
    def rf_const(self, c): return (p_const(c), ())

    def rf_add(self, x, y):
        if not x[0] and not x[1]: return y
        if not y[0] and not y[1]: return x
        if x[1] == y[1]:
            n = p_add(x[0], y[0])
            return (n, x[1])
        dx, dy = dict(x[1]), dict(y[1])
        l = dict(dx)
        for k, e in dy.items():
            if l.get(k, 0) < e: l[k] = e
        nx, ny = x[0], y[0]
        for k, e in l.items():
            for _ in range(e - dx.get(k, 0)): nx = p_mul(nx, self.dens[k])
            for _ in range(e - dy.get(k, 0)): ny = p_mul(ny, self.dens[k])
        return (self.reduce(p_add(nx, ny)), tuple(sorted(l.items())))

    def rf_mul(self, x, y):
        n = self.reduce(p_mul(x[0], y[0]))
        if not x[1]: d = y[1]
        elif not y[1]: d = x[1]
        else:
            l = dict(x[1])
            for k, e in y[1]: l[k] = l.get(k, 0) + e
            d = tuple(sorted(l.items()))
        return self.rf_norm((n, d))

    def rf_norm(self, x):
        """cancel denominators that divide the numerator"""
        n, d = x
        if not d: return x
        if not n: return ({}, d)
        out = []
        for k, e in d:
            while e > 0:
                q = p_divexact(n, self.dens[k])
                if q is None: break
                n = q; e -= 1
            if e: out.append((k, e))
        return (n, tuple(out))

    def rf_scale(self, x, k):
        return (p_scale(x[0], k), x[1])

    def den_key(self, p):
        """register poly as a denominator; returns (key, scale) with p = scale * dens[key]"""
        lm = max(p, key=_grlex)
        s = p[lm]
        q = {m: qi(Fraction(c) / s) for m, c in p.items()}
        k = p_key(q)
        kid = self.atom(('den', k))
        self.dens[kid] = q
        return kid, s

    def rf_inv(self, x):
        n, d = x
        if not n: raise Unsupported('division by zero')
        # 1/(n/d) = d/n
        num = {(): 1}
        for k, e in d:
            for _ in range(e): num = p_mul(num, self.dens[k])
        num = self.reduce(num)
        # monomial content of n becomes Laurent
        ms = list(n)
        g = _mono_gcd(ms)
        if g:
            n = {m_div(m, g): c for m, c in n.items()}
        inv_g = self.mono_inv(g)
        if len(n) == 1:
            (m, c), = n.items()
            r = ({m_: qi(Fraction(c_) / c) for m_, c_ in num.items()}, ())
            if m: r = self.rf_mul(r, self.mono_inv(m))
        elif self.inverse_atoms:
            if self.has_bv(n): raise Unsupported('inverse of an expression over a bound variable')
            k, s = self.den_key(n)
            r = (p_mul(p_scale(num, Fraction(1) / s), {((self.atom(('inv', k)), 1),): 1}), ())
        else:
            k, s = self.den_key(n)
            r = (p_scale(num, Fraction(1) / s), ((k, 1),))
            r = self.rf_norm(r)
        if g: r = self.rf_mul(r, inv_g)
        return r

    def mono_inv(self, m):
        """1/m as a rational function; sqrt atoms are rationalised"""
        r = ({(): 1}, ())
        lau = []
        for a, e in m:
            if self.atoms[a][0] == 'sqrt' and e > 0:
                # 1/s^e = s^(e mod 2) / p^ceil(e/2)
                p = self.rel[a]
                k = (e + 1) // 2
                t = ({((a, 1),): 1}, ()) if e % 2 else ({(): 1}, ())
                ip = self.rf_inv((p, ()))
                for _ in range(k): t = self.rf_mul(t, ip)
                r = self.rf_mul(r, t)
            else:
                lau.append((a, -e))
        if lau: r = self.rf_mul(r, ({tuple(lau): 1}, ()))
        return r

    def rf_key(self, x):
        x = self.rf_norm((self.reduce(x[0]), x[1]))
        return (p_key(x[0]), x[1])

    # ---- is it zero?
    def is_zero(self, x):
        n = x[0]
        if not n: return True
        n = self.clear_laurent(n)
        n = self.reduce(n)
        if not n: return True
        return False

    def clear_even(self, n):
        """multiply by even powers so that no negative exponents remain (sign is kept)"""
        mins = {}
        for m in n:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0): mins[a] = e
        if mins:
            mul = tuple(sorted((a, -e + (-e) % 2) for a, e in mins.items()))
            n = self.reduce({m_mul(m, mul): c for m, c in n.items()})
        return n

    def clear_laurent(self, n):
        mins = {}
        for m in n:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0): mins[a] = e
        if mins:
            mul = tuple(sorted((a, -e) for a, e in mins.items()))
            n = {m_mul(m, mul): c for m, c in n.items()}
        return n

    # ---- conversion back to terms (for conditions / z3)
    def atom_term(self, a):
        t = self.term_of.get(a)
        if t is None: raise Unsupported('atom without term %r' % (self.atoms[a],))
        return t

    def to_term(self, p):
        acc = tm.ZERO
        for m, c in sorted(p.items()):
            t = tm.R(Fraction(c))
            for a, e in m:
                t = tm.mul(t, tm.power(self.atom_term(a), e))
            acc = tm.add(acc, t)
        return acc

    def has_bv(self, n):
        """an atom of the polynomial depends on a bound variable (or may)"""
        for m in n:
            for a, e in m:
                t = self.term_of.get(a)
                if t is None or t.bv: return True
        return False

    # ---- the normaliser
    def nf(self, t):
        r = self.cache.get(t.id)
        if r is None:
            r = self._nf(t)
            self.cache[t.id] = r
        return r

    def _nf(self, t):
        op = t.op
        if op == 'c': return self.rf_const(t.args[0])
        if op == 'zero': return ({}, ())
        if op == 'pi': return ({((self.atom(('pi',), t), 1),): 1}, ())
        if op == 'add': return self.rf_add(self.nf(t.args[0]), self.nf(t.args[1]))
        if op == 'mul': return self.rf_mul(self.nf(t.args[0]), self.nf(t.args[1]))
        if op == 'pow':
            b = self.nf(t.args[0]); n = t.args[1]
            if n < 0:
                if not self._nonzero_obvious(t.args[0]):
                    self.need(tm.lnot(tm.eq(t.args[0], tm.ZERO)))
                if self.is_zero(b):
                    raise Undefined('division by an expression that is identically zero here')
                b = self.rf_inv(b); n = -n
            r = b
            for _ in range(n - 1): r = self.rf_mul(r, b)
            return r
        if op == 'app': return self._app(t)
        if op == 'itor': return self._itor(t.args[0])
        if op == 'fn': return self._fn(t)
        if op == 'ite':
            c = t.args[0]
            v = self.truth.get(c.id)
            if v is None:
                if c.bv:
                    # indicator inside a binder
                    i = self.indicator(c)
                    a, b = self.nf(t.args[1]), self.nf(t.args[2])
                    ind = ({((i, 1),): 1}, ())
                    return self.rf_add(b, self.rf_mul(ind, self.rf_add(a, self.rf_scale(b, -1))))
                raise Split(c)
            return self.nf(t.args[1] if v else t.args[2])
        if op == 'sum': return self._sum(t)
        if op == 'uf':
            key = ('uf', t.args[0]) + tuple(self._argkey(a) for a in t.args[1])
            return ({((self.atom(key, t), 1),): 1}, ())
        if op in ('rmax', 'rmin'):
            v, d, b = t.args
            key = (op, v.id, d if isinstance(d, int) else d.id, self.rf_key(self.nf(b)))
            return ({((self.atom(key, t), 1),): 1}, ())
        if op in ('inf', 'nan'): raise Unsupported('infinite or NaN value in arithmetic')
        raise Unsupported('no normal form for %s' % op)

    def _nonzero_obvious(self, t):
        if t.op == 'c': return t.args[0] != 0
        return t.op == 'pi'

    def _argkey(self, a):
        if not (type(a) is T): return ('i', a)
        if a.sort == 'I': return ('I', a.id)
        if a.op == 'lam':
            return ('lam', tuple(v.id for v in a.args[0]), self.rf_key(self.nf(a.args[1])))
        if a.sort == 'B': return ('B', a.id)
        return ('R', self.rf_key(self.nf(a)))

    def indicator(self, c):
        if c.op == 'lt':
            d = self.nf(tm.sub(c.args[0], c.args[1]))
            key = ('ind', 'lt', self.rf_key(d))
        elif c.op == 'eq':
            d = self.nf(tm.sub(c.args[0], c.args[1]))
            key = ('ind', 'eq', self.rf_key(d))
        elif c.op == 'not':
            raise Unsupported('negated indicator')
        else:
            key = ('ind', c.id)
        i = self.atom(key, tm.ite(c, tm.ONE, tm.ZERO))
        self.rel[i] = {((i, 1),): 1}
        return i

    def _app(self, t):
        name, idx = t.args
        g = UNIT_GROUPS.get(name)
        i = self.atom(('t', t.id), t)
        if g and isinstance(idx[-1], int):
            lead, comps = g
            if idx[-1] == lead and i not in self.rel:
                p = {(): 1}
                for c in comps:
                    if c != lead:
                        o = tm.app(name, idx[:-1] + (c,))
                        j = self.atom(('t', o.id), o)
                        p = p_add(p, {((j, 2),): -1})
                self.rel[i] = p
            k = (name,) + tuple(x._k if type(x) is T else x for x in idx[:-1])
            if k not in self.unit_atoms:
                self.unit_atoms[k] = None
                ids = {}
                for c in comps:
                    o = tm.app(name, idx[:-1] + (c,))
                    self._app(o) if c == lead and o is not t else None
                    ids[c] = self.atom(('t', o.id), o)
                self.unit_atoms[k] = (ids[lead], [ids[c] for c in comps if c != lead])
        return ({((i, 1),): 1}, ())

    def _itor(self, x):
        if isinstance(x, int): return self.rf_const(x)
        acc = {}
        for m, c in x.args:
            mono = ()
            for a in m:
                if a.op == 'iite':
                    v = self.truth.get(a.args[0].id)
                    if v is None: raise Split(a.args[0])
                mono = m_mul(mono, ((self.atom(('int', a.id), tm.R(tm._imk1(a))), 1),))
            acc = p_add(acc, {mono: c})
        return (acc, ())

    # ---- functions
    def _fn(self, t):
        name, args = t.args
        if name == 'sqrt': return self._sqrt(t, args[0])
        if name in ('sin', 'cos'): return self._trig(name, args[0])
        if name == 'tan':
            return self.rf_mul(self._trig('sin', args[0]), self.rf_inv(self._trig('cos', args[0])))
        if name in ('acos', 'asin'):
            x = args[0]
            self.need(tm.le(tm.neg(tm.ONE), x)); self.need(tm.le(x, tm.ONE))
        if name in ('floor', 'round'):
            x = self.nf(args[0])
            x = self.rf_norm((self.reduce(x[0]), x[1]))
            if not x[1] and self.integral(x[0]): return x
        keys = tuple(self.rf_key(self.nf(a)) for a in args)
        i = self.atom(('fn', name) + keys, t)
        return ({((i, 1),): 1}, ())

    def integral(self, p):
        """a polynomial with integer coefficients in integer-valued atoms"""
        for m, c in p.items():
            if Fraction(c).denominator != 1: return False
            for a, e in m:
                k = self.atoms[a]
                if e < 0 or not (k[0] == 'int' or k[0] == 'fn' and k[1] in ('floor', 'round') or k[0] == 't' and self._int_term(a)): return False
        return True

    def _int_term(self, a):
        t = self.term_of.get(a)
        return t is not None and t.op == 'itor'

    def sign_known(self, p):
        """truth of p<0 for polynomial p, from recorded conditions"""
        key = self._signkey(p)
        return None

    def abs_poly(self, p):
        """|p| for a polynomial (raises Split if the sign is unknown)"""
        if not p: return p
        if len(p) == 1 and () in p: return p_const(abs(p[()]))
        if len(p) == 1:
            (m, c), = p.items()
            if all(self.atoms[a][0] == 'sqrt' or self.atoms[a][0] == 'pi' for a, e in m): return {m: abs(c)}
            if all(e % 2 == 0 for a, e in m): return {m: abs(c)}
            out = {(): abs(c)}
            for a, e in m:
                if e % 2 == 0 or self.atoms[a][0] in ('sqrt', 'pi'):
                    out = p_mul(out, {((a, e),): 1}); continue
                at = self.atom_term(a)
                cnd = tm.lt(at, tm.ZERO)
                if cnd is tm.FALSE: v = False
                elif cnd is tm.TRUE: v = True
                else:
                    v = self.truth.get(cnd.id)
                    if v is None: raise Split(cnd)
                out = p_mul(out, {((a, e),): -1 if v else 1})
            return out
        # positive multiple: normalise content so that p and 2p share the condition
        lm = max(p, key=_grlex)
        s = abs(p[lm])
        q = {m: qi(Fraction(c) / s) for m, c in p.items()}
        tq = self.to_term(q)
        cnd = tm.lt(tq, tm.ZERO)
        v = self.truth.get(cnd.id)
        if v is None:
            nq = p_scale(q, -1)
            c2 = tm.lt(self.to_term(nq), tm.ZERO)
            raise Split(cnd)
        return p_scale(p, -1) if v else p

    def _sqrt(self, t, x):
        self.need(tm.le(tm.ZERO, x))
        n, d = self.nf(x)
        n = self.reduce(n)
        if not n: return ({}, ())
        # Laurent + denominators: make the argument n*prod(den)/prod(den)^2
        out = ({(): 1}, ())
        for k, e in d:
            if e % 2: n = self.reduce(p_mul(n, self.dens[k]))
            half = (e + 1) // 2
            ad = self.abs_poly(self.dens[k])
            inv = self.rf_inv((ad, ()))
            for _ in range(half): out = self.rf_mul(out, inv)
        # monomial content
        g = _mono_gcd(list(n))
        # odd negative exponents -> make even by multiplying in
        pull = []
        for a, e in g:
            if self.atoms[a][0] == 'sqrt': continue
            f = e if e % 2 == 0 else e - 1     # floor to even
            if f: pull.append((a, f))
        if pull:
            n = {m_div(m, tuple(pull)): c for m, c in n.items()}
            half = tuple((a, f // 2) for a, f in pull)
            pos = tuple((a, e) for a, e in half if e > 0)
            negp = tuple((a, -e) for a, e in half if e < 0)
            if pos: out = self.rf_mul(out, (self.abs_poly({pos: 1}), ()))
            if negp: out = self.rf_mul(out, self.rf_inv((self.abs_poly({negp: 1}), ())))
        # rational content
        lm = max(n, key=_grlex)
        lead = Fraction(n[lm])
        from math import gcd
        num = 0; den = 1
        for c in n.values():
            c = Fraction(c)
            num = gcd(num, c.numerator); den = den * c.denominator // gcd(den, c.denominator)
        content = Fraction(num, den)
        s, r = _square_part(content)
        n = {m: qi(Fraction(c) / content * r) for m, c in n.items()}
        out = self.rf_scale(out, s)
        if len(n) == 1 and () in n:
            c = n[()]
            if c < 0: raise Undefined('sqrt of a negative constant')
            s2, r2 = _square_part(Fraction(c))
            if r2 == 1: return self.rf_scale(out, s2)
        # perfect squares
        root = self._poly_sqrt(n)
        if root is not None:
            return self.rf_mul(out, (self.abs_poly(root), ()))
        key = ('sqrt', p_key(n))
        first = key not in self.aidx
        tt = tm.fn('sqrt', self.to_term(n))
        i = self.atom(key, tt)
        self.rel[i] = n
        return self.rf_mul(out, ({((i, 1),): 1}, ()))

    def _poly_sqrt(self, n):
        """q with q^2 == n modulo the relations (recognised shapes only)"""
        # unit-group leading atoms: c * w^2
        cands = [a for a, rp in self.rel.items()]
        for a in cands:
            rp = self.rel[a]
            if self.atoms[a][0] in ('sqrt', 'ind'): continue
            k = _proportional(n, rp)
            if k is not None and k > 0:
                s, r = _square_part(k)
                if r == 1: return {((a, 1),): s}
        if len(n) == 1:
            (m, c), = n.items()
            s, r = _square_part(Fraction(c)) if c > 0 else (0, 0)
            if c > 0 and r == 1 and all(e % 2 == 0 for _, e in m):
                return {tuple((a, e // 2) for a, e in m): s}
            return None
        # genuine polynomial square
        q = _poly_sqrt_plain(n)
        if q is not None: return q
        # square modulo one relation  w^2 = r:   n == q^2 + k*(w^2 - r) ; try adding multiples
        for a in cands:
            if self.atoms[a][0] in ('ind',): continue
            rp = self.rel[a]
            c0 = n.get((), 0)
            for k in {n.get((), 0)}:
                # n - k*r + k*w^2 for constant terms
                if rp.get((), 0) == 1 and k:
                    m2 = p_add(p_add(n, p_scale(rp, -k)), {((a, 2),): k})
                    q = _poly_sqrt_plain(m2)
                    if q is not None: return q
        return None

    # ---- trigonometry
    def _angle(self, x):
        n, d = self.nf(x)
        if d:
            return None
        return n

    def _trig(self, name, x):
        n = self._angle(x)
        if n is None:
            n0, d0 = self.nf(x)
            # x = n0/d0: treat each monomial over the same denominator as one angle generator
            key = self.rf_key((n0, d0))
            sgn = 1
            lm = max(n0, key=_grlex)
            if n0[lm] < 0:
                key = self.rf_key((p_scale(n0, -1), d0)); sgn = -1
                tx = tm.neg(x)
            else: tx = x
            c, s = self._base(('angle', key), tx)
            return c if name == 'cos' else self.rf_scale(s, sgn)
        C, S = ({(): 1}, ()), ({}, ())
        for m, k in sorted(n.items()):
            cc, ss = self._multiple(m, Fraction(k))
            C, S = (self.rf_add(self.rf_mul(C, cc), self.rf_scale(self.rf_mul(S, ss), -1)),
                    self.rf_add(self.rf_mul(S, cc), self.rf_mul(C, ss)))
        return C if name == 'cos' else S

    def _multiple(self, m, k):
        """(cos, sin) of k * (monomial m)"""
        if m == ():
            # a constant angle
            m_ = ()
        pi = self.aidx.get(('pi',))
        if pi is not None and m and dict(m).get(pi) == 1:
            rest = tuple((a, e) for a, e in m if a != pi)
            if all(self._is_integer_atom(a) and e > 0 for a, e in rest):
                q = k * 2
                if rest:
                    if (k / 2).denominator == 1: return ({(): 1}, ()), ({}, ())
                elif q.denominator == 1:
                    j = int(q) % 4
                    return self.rf_const((1, 0, -1, 0)[j]), self.rf_const((0, 1, 0, -1)[j])
        u = self.units.get(self._monokey(m))
        if u is None or (k / u).denominator != 1:
            u = abs(k)
        N = k / u
        N = int(N)
        sgn = 1
        if N < 0: N = -N; sgn = -1
        c, s = self._unit_cs(m, u)
        C, S = ({(): 1}, ()), ({}, ())
        for _ in range(N):
            C, S = (self.rf_add(self.rf_mul(C, c), self.rf_scale(self.rf_mul(S, s), -1)),
                    self.rf_add(self.rf_mul(S, c), self.rf_mul(C, s)))
        if sgn < 0: S = self.rf_scale(S, -1)
        return C, S

    def _is_integer_atom(self, a):
        k = self.atoms[a]
        return k[0] == 'int' or (k[0] == 'fn' and k[1] in ('floor', 'round'))

    def _monokey(self, m):
        return tuple((self.atoms[a], e) for a, e in m)

    def _unit_cs(self, m, u):
        """cos/sin of u*m as rational functions"""
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            key = self.atoms[a]
            if key[0] == 'fn' and key[1] in ('atan2', 'acos', 'asin'):
                t = self.atom_term(a)
                if key[1] == 'atan2':
                    y, x = t.args[1]
                    ry, rx = self.nf(y), self.nf(x)
                    if self.is_zero(ry):
                        v = tm.lt(x, tm.ZERO)
                        tv = True if v is tm.TRUE else False if v is tm.FALSE else self.truth.get(v.id)
                        if tv is None: raise Split(v)
                        cs = (self.rf_const(-1), ({}, ())) if tv else (self.rf_const(1), ({}, ()))
                    else:
                        rad = tm.fn('sqrt', tm.add(tm.mul(x, x), tm.mul(y, y)))
                        self.need(tm.lnot(tm.eq(tm.add(tm.mul(x, x), tm.mul(y, y)), tm.ZERO)))
                        ir = self.rf_inv(self.nf(rad))
                        cs = (self.rf_mul(rx, ir), self.rf_mul(ry, ir))
                    half_sin_nonneg = None
                elif key[1] == 'acos':
                    x = t.args[1][0]
                    cs = (self.nf(x), self.nf(tm.fn('sqrt', tm.sub(tm.ONE, tm.mul(x, x)))))
                else:
                    x = t.args[1][0]
                    cs = (self.nf(tm.fn('sqrt', tm.sub(tm.ONE, tm.mul(x, x)))), self.nf(x))
                if u == 1: return cs
                if u == Fraction(1, 2) and key[1] in ('atan2', 'acos'):
                    # half angle in (-pi/2, pi/2] resp. [0, pi/2]: cosine is nonnegative
                    cterm = self.rf_to_term(cs[0])
                    ch = self.nf(tm.fn('sqrt', tm.div(tm.add(tm.ONE, cterm), tm.TWO)))
                    if self.is_zero(ch): return ch, self.rf_const(1)
                    sh = self.rf_mul(cs[1], self.rf_inv(self.rf_scale(ch, 2)))
                    self.need(tm.lnot(tm.eq(tm.add(tm.ONE, cterm), tm.ZERO)))
                    return ch, sh
        tterm = self.to_term({m: qi(u)})
        return self._base(('gen', u, self._monokey(m)), tterm)

    def rf_to_term(self, x):
        t = self.to_term(x[0])
        for k, e in x[1]:
            t = tm.mul(t, tm.power(self.to_term(self.dens[k]), -e))
        return t

    def _base(self, key, term):
        c = self.atom(('cos', key), tm.fn('cos', term))
        s = self.atom(('sin', key), tm.fn('sin', term))
        if s not in self.rel:
            self.rel[s] = {(): 1, ((c, 2),): -1}
        return ({((c, 1),): 1}, ()), ({((s, 1),): 1}, ())

    # ---- sums
    def _sum(self, t):
        v, dim, body = t.args
        vb = list(v.bv)[0]
        n, d = self.nf(body)
        dep_den = []
        out_den = []
        for k, e in d:
            (dep_den if self._poly_depends(self.dens[k], vb) else out_den).append((k, e))
        acc = ({}, ())
        groups = {}
        for m, c in n.items():
            dep, indep = [], []
            for a, e in m:
                (dep if self._atom_depends(a, vb) else indep).append((a, e))
            dep = tuple(dep)
            g = groups.setdefault(dep, {})
            groups[dep] = p_add(g, {tuple(indep): c})
        dk = dim if isinstance(dim, int) else dim.id
        for dep, p in sorted(groups.items(), key=lambda z: str(z[0])):
            if not dep and not dep_den:
                a = self._itor(dim)
            else:
                key = ('sum', v.id, dk, tuple((self.atoms[x], e) for x, e in dep),
                       tuple((self.atoms[k], e) for k, e in dep_den))
                bt = self.to_term({dep: 1})
                for k, e in dep_den:
                    bt = tm.mul(bt, tm.power(self.to_term(self.dens[k]), -e))
                st = tm.mk('sum', (v, dim, bt), 'R')
                a = ({((self.atom(key, st), 1),): 1}, ())
            acc = self.rf_add(acc, self.rf_mul(a, (p, ())))
        if out_den:
            acc = self.rf_mul(acc, ({(): 1}, tuple(out_den)))
        return acc

    def _atom_depends(self, a, vb):
        t = self.term_of.get(a)
        if t is None:
            return True
        return vb in t.bv

    def _poly_depends(self, p, vb):
        return any(self._atom_depends(a, vb) for m in p for a, _ in m)


class Undefined(Exception):
    """the value is undefined (division by zero / root of a negative) on this path"""


def _mono_gcd(ms):
    if not ms: return ()
    g = dict(ms[0])
    seen_all = set(g)
    for m in ms[1:]:
        d = dict(m)
        keys = set(g) | set(d)
        g = {k: min(g.get(k, 0), d.get(k, 0)) for k in keys}
    return tuple(sorted((k, e) for k, e in g.items() if e))


def _square_part(c):
    """c = s^2 * r with r squarefree-ish (positive rational)"""
    c = Fraction(c)
    if c <= 0: return Fraction(1), c
    # c = n/d = n*d/d^2
    n, d = c.numerator, c.denominator
    v = n * d
    s = 1
    f = 2
    while f * f <= v and f < 2000:
        while v % (f * f) == 0:
            v //= f * f; s *= f
        f += 1
    k = math.isqrt(v)
    if k * k == v: s *= k; v = 1
    return Fraction(s, d), Fraction(v)


def _proportional(a, b):
    if len(a) != len(b): return None
    k = None
    for m, c in a.items():
        if m not in b: return None
        r = Fraction(c) / b[m]
        if k is None: k = r
        elif k != r: return None
    return k


def _poly_sqrt_plain(n):
    """polynomial q with q*q == n, or None (no relations used)"""
    for m in n:
        for _, e in m:
            if e < 0: return None
    lm = max(n, key=_grlex)
    c = Fraction(n[lm])
    if c <= 0 or any(e % 2 for _, e in lm): return None
    s, r = _square_part(c)
    if r != 1: return None
    lead = tuple((a, e // 2) for a, e in lm)
    q = {lead: qi(s)}
    r_ = p_add(n, p_scale(p_mul(q, q), -1))
    it = 0
    while r_:
        it += 1
        if it > 60: return None
        m = max(r_, key=_grlex)
        d = m_div(m, lead)
        if any(e < 0 for _, e in d): return None
        cc = qi(Fraction(r_[m]) / (2 * s))
        if d in q: return None
        newt = {d: cc}
        r_ = p_add(r_, p_scale(p_mul(q, newt), -2))
        r_ = p_add(r_, p_scale(p_mul(newt, newt), -1))
        q = p_add(q, newt)
        if _grlex(d) >= _grlex(lead): return None
    return q


def trig_units(ctx, ts):
    """common angle units of all sin/cos arguments in the given terms"""
    from math import gcd
    units = {}
    seen = set()
    for t in ts:
        for x in tm.subterms(t, seen):
            if x.op == 'fn' and x.args[0] in ('sin', 'cos', 'tan'):
                try:
                    n = ctx._angle(x.args[1][0])
                except (Split, Undefined):
                    raise
                if n is None: continue
                for m, k in n.items():
                    key = ctx._monokey(m)
                    k = abs(Fraction(k))
                    o = units.get(key)
                    if o is None: units[key] = k
                    else:
                        # gcd of rationals
                        a, b = o, k
                        g = Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator),
                                     a.denominator * b.denominator)
                        units[key] = g
    return units
