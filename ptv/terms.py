"""Hash-consed terms of the verification conditions.

Three sorts: 'R' (mathematical reals), 'B' (booleans), 'I' (integers: dimensions and indices).
Integer constants are plain Python ints; every non-constant integer is a T with op 'ip'
(a polynomial with integer coefficients over integer atoms) so equal index expressions are
the same object.
"""
from fractions import Fraction
import math as _math
import os as _os


class Unsupported(Exception):
    """The construct is outside the verifier's subset (never a violation by itself)."""


_table = {}
_hook = {'branch': None, 'concretize': None}


def set_branch_hook(f):
    _hook['branch'] = f


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_k', 'bv', '__weakref__')

    def __hash__(self):
        return self.id

    # ---- user-level operators (code under verification sees these as Python numbers) ----
    def __add__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return iadd(self, o)
        return add(R(self), R(o))
    __radd__ = __add__

    def __neg__(self):
        if self.sort == 'I': return imul(-1, self)
        return neg(R(self))

    def __pos__(self): return self

    def __sub__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return isub(self, o)
        return sub(R(self), R(o))

    def __rsub__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return isub(o, self)
        return sub(R(o), R(self))

    def __mul__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return imul(self, o)
        if self.sort == 'B' : return mul(R(self), R(o))
        return mul(R(self), R(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        return div(R(self), R(o))

    def __rtruediv__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        return div(R(o), R(self))

    def __floordiv__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return idiv(self, o)
        return fn('floor', div(R(self), R(o)))

    def __mod__(self, o):
        o = _lift(o, self)
        if o is NotImplemented: return o
        if self.sort == 'I' and is_int(o): return imod(self, o)
        a, b = R(self), R(o)
        return sub(a, mul(b, fn('floor', div(a, b))))

    def __pow__(self, n):
        if isinstance(n, int): return power(R(self), n)
        if isinstance(n, float) and n == 0.5: return fn('sqrt', R(self))
        if isinstance(n, float) and n == int(n): return power(R(self), int(n))
        raise Unsupported('power with exponent %r' % (n,))

    def __abs__(self):
        return absr(R(self))

    def __lt__(self, o): return _cmp('lt', self, o)
    def __le__(self, o): return _cmp('le', self, o)
    def __gt__(self, o): return _cmp('gt', self, o)
    def __ge__(self, o): return _cmp('ge', self, o)

    def __eq__(self, o):
        if self is o: return True if self.sort != 'B' else TRUE
        if o is None or isinstance(o, str): return False
        return _cmp('eq', self, o)

    def __ne__(self, o):
        if self is o: return False
        if o is None or isinstance(o, str): return True
        r = _cmp('eq', self, o)
        if r is NotImplemented: return r
        return (not r) if isinstance(r, bool) else lnot(r)

    def __and__(self, o):
        if self.sort == 'B': return land(self, Bt(o))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if self.sort == 'B': return lor(self, Bt(o))
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        if self.sort == 'B': return lnot(self)
        return NotImplemented

    def __bool__(self):
        if self.sort == 'B':
            if self is TRUE: return True
            if self is FALSE: return False
            h = _hook['branch']
            if h is None:
                if _os.environ.get('PTV_TRACE'): import traceback; traceback.print_stack(limit=8)
                raise Unsupported('truth value of a symbolic condition outside an execution')
            return h(self)
        if self.sort == 'I':
            return bool(lnot(ieq(self, 0)))
        return bool(lnot(eq(self, R(0))))

    def __index__(self):
        if self.sort == 'R' and self.op == 'c' and self.args[0].denominator == 1:
            return int(self.args[0])
        raise Unsupported('symbolic integer %s used where a Python int is needed' % (self,))

    def __int__(self):
        if self.sort == 'R' and self.op == 'c':
            return int(self.args[0])
        raise Unsupported('int() of symbolic value')

    def __float__(self):
        if self.op == 'c': return float(self.args[0])
        if self.op == 'pi': return _math.pi
        if self.op == 'inf': return self.args[0] * _math.inf
        raise Unsupported('float() of symbolic value')

    def __repr__(self):
        return show(self)

    def item(self): return self

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _lift(o, me):
    if isinstance(o, (T, int, float, Fraction, bool)): return o
    if hasattr(o, '_sym_tensor'): return NotImplemented
    try:
        import numpy as np
        if isinstance(o, np.floating): return float(o)
        if isinstance(o, np.integer): return int(o)
    except Exception:
        pass
    return NotImplemented


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (type(x) is T and x.sort == 'I')


def mk(op, args, sort):
    key = (op,) + tuple([a._k if type(a) is T else a for a in args])
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.args = args; t.sort = sort
        t.id = len(_table) + 1
        t._k = ('#', t.id)
        _table[key] = t
        bv = _EMPTY
        for a in args:
            if type(a) is T:
                if a.bv: bv = bv | a.bv
            elif type(a) is tuple:
                for x in a:
                    if type(x) is T and x.bv: bv = bv | x.bv
                    elif type(x) is tuple:
                        for y in x:
                            if type(y) is T and y.bv: bv = bv | y.bv
                            elif type(y) is tuple:
                                for z in y:
                                    if type(z) is T and z.bv: bv = bv | z.bv
        if op == 'ivar' and args[0].startswith('$'):
            bv = frozenset([t.id])
        if op in ('sum', 'rmax', 'rmin', 'forall', 'exists'):
            bv = bv - args[0].bv
        if op == 'lam':
            for v in args[0]:
                bv = bv - v.bv
        t.bv = bv
    return t


_EMPTY = frozenset()


def _fix_tuple_key():
    pass


# tuples inside args must be hashable without invoking T.__eq__; wrap T by key on lookup
def mkt(op, head, tup, sort):
    """node whose last argument is a tuple of T/int"""
    key = (op, head) + tuple([a._k if type(a) is T else a for a in tup])
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.args = (head, tup); t.sort = sort
        t.id = len(_table) + 1
        t._k = ('#', t.id)
        bv = _EMPTY
        for a in tup:
            if type(a) is T and a.bv: bv = bv | a.bv
        t.bv = bv
        _table[key] = t
    return t


# ------------------------------------------------------------------ reals
def const(fr):
    return mk('c', (fr,), 'R')


ZERO = const(Fraction(0))
ONE = const(Fraction(1))
TWO = const(Fraction(2))
PI = mk('pi', (), 'R')
INF = mk('inf', (1,), 'R')
NINF = mk('inf', (-1,), 'R')
NAN = mk('nan', (), 'R')
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')


def R(x):
    if type(x) is T:
        if x.sort == 'R': return x
        if x.sort == 'B':
            if x is TRUE: return ONE
            if x is FALSE: return ZERO
            return ite(x, ONE, ZERO)
        return mk('itor', (x,), 'R')
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return const(Fraction(x))
    if isinstance(x, Fraction): return const(x)
    if isinstance(x, float):
        if x != x: return NAN
        if x == _math.inf: return INF
        if x == -_math.inf: return NINF
        if x == _math.pi: return PI
        return const(Fraction(repr(float(x))))
    if hasattr(x, 'item'):
        return R(x.item())
    raise Unsupported('not a real scalar: %r' % (type(x),))


def is_c(t): return t.op == 'c'


def app(name, idx=()):
    return mkt('app', name, tuple(idx), 'R')


def uf(name, args):
    return mkt('uf', name, tuple(args), 'R')


def add(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.args[0] + b.args[0])
    if a is ZERO: return b
    if b is ZERO: return a
    if _has_special(a): return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if _has_special(b): return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    if a.op in _SPEC or b.op in _SPEC: return _special_add(a, b)
    return mk('add', (a, b), 'R')


_SPEC = ('inf', 'nan')


def _special_add(a, b):
    if a is NAN or b is NAN: return NAN
    if a.op == 'inf' and b.op == 'inf': return a if a is b else NAN
    return a if a.op == 'inf' else b


def neg(a):
    if a.op == 'c': return const(-a.args[0])
    if a is INF: return NINF
    if a is NINF: return INF
    if a is NAN: return NAN
    return mul(const(Fraction(-1)), a)


def sub(a, b):
    if a is b and a.op not in _SPEC: return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'c' and b.op == 'c': return const(a.args[0] * b.args[0])
    if a.op in _SPEC or b.op in _SPEC:
        if a is NAN or b is NAN: return NAN
        o, i = (a, b) if b.op == 'inf' else (b, a)
        if o.op == 'c':
            if o.args[0] == 0: return NAN
            return i if o.args[0] > 0 else neg(i)
        if o.op == 'inf': return INF if o is i else NINF
        if _has_special(o): return ite(o.args[0], mul(o.args[1], i), mul(o.args[2], i))
        return ite(lt(ZERO, o), i, ite(lt(o, ZERO), neg(i), NAN))
    if _has_special(a): return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if _has_special(b): return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if b.op == 'c': a, b = b, a
    if a.op == 'c' and b.op == 'mul' and b.args[0].op == 'c':
        return mul(const(a.args[0] * b.args[0].args[0]), b.args[1])
    return mk('mul', (a, b), 'R')


def power(a, n):
    if n == 0: return ONE
    if n == 1: return a
    if a.op == 'c':
        if a.args[0] == 0 and n < 0: return INF
        return const(a.args[0] ** n)
    if a is NAN: return NAN
    if a.op == 'inf': return ZERO if n < 0 else (INF if n % 2 == 0 else a)
    if _has_special(a): return ite(a.args[0], power(a.args[1], n), power(a.args[2], n))
    if a.op == 'pow': return power(a.args[0], a.args[1] * n) if (a.args[1] > 0) == (n > 0) else mk('pow', (a, n), 'R')
    return mk('pow', (a, n), 'R')


def div(a, b):
    if b.op == 'c':
        if b.args[0] == 0:
            if a.op == 'c': return NAN if a.args[0] == 0 else (INF if a.args[0] > 0 else NINF)
            return ite(lt(ZERO, a), INF, ite(lt(a, ZERO), NINF, NAN))
        return mul(const(1 / b.args[0]), a)
    if a.op in _SPEC or b.op in _SPEC:
        if b.op == 'inf': return NAN if a.op in _SPEC else ZERO
        return mul(a, power(b, -1)) if b is not NAN else NAN
    if a is ZERO: return mul(mk('zden', (b,), 'R'), ZERO) if False else mk('mul', (ZERO_OVER, power(b, -1)), 'R') if False else _zero_over(b)
    return mul(a, power(b, -1))


def _zero_over(b):
    # 0/b: zero wherever defined; keep the denominator so definedness is still an obligation
    return mk('mul', (mk('zero', (), 'R'), power(b, -1)), 'R')


ZERO_OVER = None


def _numc(n):
    return const(Fraction(n))


def _pi_multiple(a):
    """a == r*pi for rational r -> r else None"""
    if a is ZERO: return Fraction(0)
    if a is PI: return Fraction(1)
    if a.op == 'mul' and a.args[0].op == 'c' and a.args[1] is PI: return a.args[0].args[0]
    return None


def fn(name, *a):
    if name == 'sqrt':
        x = a[0]
        if x.op == 'c':
            v = x.args[0]
            if v < 0: return NAN
            n, d = _math.isqrt(v.numerator), _math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return const(Fraction(n, d))
        if x is INF: return INF
        if x is NAN or x is NINF: return NAN
    elif name in ('sin', 'cos'):
        x = a[0]
        r = _pi_multiple(x)
        if r is not None:
            q = (r % 2) * 2
            if q.denominator == 1:
                q = int(q)
                v = (0, 1, 0, -1)[q] if name == 'sin' else (1, 0, -1, 0)[q]
                return const(Fraction(v))
        if x.op in _SPEC: return NAN
    elif name == 'acos':
        if a[0].op == 'c' and a[0].args[0] in (1, 0, -1):
            return {1: ZERO, 0: div(PI, TWO), -1: PI}[int(a[0].args[0])]
    elif name == 'asin':
        if a[0].op == 'c' and a[0].args[0] in (1, 0, -1):
            return {1: div(PI, TWO), 0: ZERO, -1: neg(div(PI, TWO))}[int(a[0].args[0])]
    elif name == 'atan2':
        y, x = a
        if y.op == 'c' and x.op == 'c' and (y is ZERO or x is ZERO):
            yv, xv = y.args[0], x.args[0]
            if yv == 0: return ZERO if xv >= 0 else PI
            return div(PI, TWO) if yv > 0 else neg(div(PI, TWO))
    elif name == 'floor':
        if a[0].op == 'c': return _numc(_math.floor(a[0].args[0]))
        if a[0].op == 'itor' or a[0].op in _SPEC: return a[0]
    elif name == 'round':
        if a[0].op == 'c': return _numc(round(a[0].args[0]))
        if a[0].op == 'itor': return a[0]
        if a[0].op in _SPEC: return a[0]
    for k, x in enumerate(a):
        if x is NAN: return NAN
        if _has_special(x):
            return ite(x.args[0], fn(name, *(a[:k] + (x.args[1],) + a[k + 1:])), fn(name, *(a[:k] + (x.args[2],) + a[k + 1:])))
    return mkt('fn', name, tuple(a), 'R')


def absr(a):
    if a.op == 'c': return const(abs(a.args[0]))
    if a.op == 'inf': return INF
    if a.op == 'fn' and a.args[0] == 'sqrt': return a
    return ite(lt(a, ZERO), neg(a), a)


def signr(a):
    return ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), neg(ONE), ZERO))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if type(a) is T and a.sort == 'B': return lor(land(c, a), land(lnot(c), b))
    if isinstance(a, int) or (type(a) is T and a.sort == 'I'):
        return _imk1(mk('iite', (c, a, b), 'I'))
    if c.op == 'not': return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), 'R')


def maxr(a, b):
    if a is b: return a
    return ite(lt(a, b), b, a)


def minr(a, b):
    if a is b: return a
    return ite(lt(b, a), b, a)


# ------------------------------------------------------------------ booleans
def Bt(x):
    if type(x) is T and x.sort == 'B': return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if type(x) is T and x.sort == 'R': return lnot(eq(x, ZERO))
    if is_int(x): return lnot(ieq(x, 0))
    if type(x).__name__ == 'bool_': return TRUE if bool(x) else FALSE
    raise Unsupported('not a boolean: %r' % (x,))


def lnot(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'forall': return mk('exists', (a.args[0], a.args[1], lnot(a.args[2])), 'B')
    if a.op == 'exists': return mk('forall', (a.args[0], a.args[1], lnot(a.args[2])), 'B')
    if a.op == 'and': return lor(*[lnot(x) for x in a.args])
    if a.op == 'or': return land(*[lnot(x) for x in a.args])
    return mk('not', (a,), 'B')


def land(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id in seen: continue
            seen.add(y.id); out.append(y)
    for y in out:
        if lnot_id(y) in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'B')


def lnot_id(y):
    if y.op == 'not': return y.args[0].id
    t = _table.get(('not', y._k))
    return t.id if t is not None else None


def lor(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y.id in seen: continue
            seen.add(y.id); out.append(y)
    for y in out:
        if lnot_id(y) in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return mk('or', tuple(out), 'B')


def lt(a, b):
    """a < b on reals"""
    if a.op == 'c' and b.op == 'c': return TRUE if a.args[0] < b.args[0] else FALSE
    if a is NAN or b is NAN: return FALSE
    if a is b: return FALSE
    if a.op == 'inf':
        if a is INF: return FALSE
        if b.op == 'ite': return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
        return FALSE if b is NINF else TRUE
    if b.op == 'inf':
        if b is NINF: return FALSE
        if a.op == 'ite': return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
        return TRUE
    if a.op == 'pi' and b.op == 'c': return TRUE if _math.pi < b.args[0] else FALSE
    if b.op == 'pi' and a.op == 'c': return TRUE if a.args[0] < _math.pi else FALSE
    if _has_special(a): return ite(a.args[0], lt(a.args[1], b), lt(a.args[2], b))
    if _has_special(b): return ite(b.args[0], lt(a, b.args[1]), lt(a, b.args[2]))
    if b.op == 'rmax': return mk('exists', (b.args[0], b.args[1], lt(a, b.args[2])), 'B')
    if a.op == 'rmax': return mk('forall', (a.args[0], a.args[1], lt(a.args[2], b)), 'B')
    if a.op == 'rmin': return mk('exists', (a.args[0], a.args[1], lt(a.args[2], b)), 'B')
    if b.op == 'rmin': return mk('forall', (b.args[0], b.args[1], lt(a, b.args[2])), 'B')
    # a root of a sum of squares compared with a non-negative constant (or another such root)
    if a.op == 'fn' and a.args[0] == 'sqrt' and b.op == 'c' and struct_nonneg(a.args[1][0]):
        return FALSE if b.args[0] <= 0 else lt(a.args[1][0], const(b.args[0] ** 2))
    if b.op == 'fn' and b.args[0] == 'sqrt' and a.op == 'c' and struct_nonneg(b.args[1][0]):
        return TRUE if a.args[0] < 0 else lt(const(a.args[0] ** 2), b.args[1][0])
    if a.op == 'itor' and b.op == 'itor': return ilt(a.args[0], b.args[0])
    if a.op == 'itor' and b.op == 'c' and b.args[0].denominator == 1: return ilt(a.args[0], int(b.args[0]))
    if b.op == 'itor' and a.op == 'c' and a.args[0].denominator == 1: return ilt(int(a.args[0]), b.args[0])
    return mk('lt', (a, b), 'B')


def struct_nonneg(t):
    """non-negative (and defined whenever its parts are) by its shape"""
    op = t.op
    if op == 'c': return t.args[0] >= 0
    if op in ('zero', 'pi'): return True
    if op == 'pow': return t.args[1] > 0 and t.args[1] % 2 == 0
    if op == 'mul': return t.args[0] is t.args[1] or all(struct_nonneg(x) for x in t.args)
    if op == 'add': return all(struct_nonneg(x) for x in t.args)
    if op == 'ite': return struct_nonneg(t.args[1]) and struct_nonneg(t.args[2])
    if op == 'sum': return struct_nonneg(t.args[2])
    if op == 'fn' and t.args[0] in ('sqrt', 'acos'): return True
    return False


_spec_cache = {}


def _has_special(t):
    """an ite with an inf/nan leaf"""
    if t.op != 'ite': return False
    r = _spec_cache.get(t.id)
    if r is None:
        a, b = t.args[1], t.args[2]
        r = a.op in _SPEC or b.op in _SPEC or _has_special(a) or _has_special(b)
        _spec_cache[t.id] = r
    return r


def le(a, b):
    if a is b and a is not NAN: return TRUE
    if a is NAN or b is NAN: return FALSE
    return lnot(lt(b, a)) if not (_maybe_nan(a) or _maybe_nan(b)) else land(lnot(isnan(a)), lnot(isnan(b)), lnot(lt(b, a)))


def _maybe_nan(t):
    return t is NAN or (t.op == 'ite' and (_maybe_nan(t.args[1]) or _maybe_nan(t.args[2])))


def isnan(t):
    if t is NAN: return TRUE
    if t.op == 'ite': return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    return FALSE


def isfinite(t):
    if t is NAN or t.op == 'inf': return FALSE
    if t.op == 'ite': return ite(t.args[0], isfinite(t.args[1]), isfinite(t.args[2]))
    return TRUE


def eq(a, b):
    if a.op == 'c' and b.op == 'c': return TRUE if a.args[0] == b.args[0] else FALSE
    if a is NAN or b is NAN: return FALSE
    if a is b: return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'inf':
            if y.op == 'inf' or y.op == 'c': return FALSE
            if y.op == 'ite': return ite(y.args[0], eq(x, y.args[1]), eq(x, y.args[2]))
            return FALSE
    if _has_special(a): return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if _has_special(b): return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'itor' and b.op == 'itor': return ieq(a.args[0], b.args[0])
    if a.op == 'itor' and b.op == 'c':
        return ieq(a.args[0], int(b.args[0])) if b.args[0].denominator == 1 else FALSE
    if b.op == 'itor' and a.op == 'c':
        return ieq(b.args[0], int(a.args[0])) if a.args[0].denominator == 1 else FALSE
    for x, y in ((a, b), (b, a)):
        if x is ZERO and y.op == 'fn' and y.args[0] == 'sqrt': return eq(ZERO, y.args[1][0])
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')


def bapp(name, idx=()):
    return mkt('bapp', name, tuple(idx), 'B')


def _cmp(k, a, b):
    if isinstance(b, (T, int, float, Fraction, bool)) or type(b).__module__ == 'numpy':
        pass
    else:
        return NotImplemented
    if type(b).__module__ == 'numpy' and hasattr(b, 'item'): b = b.item()
    if a.sort == 'B' and k == 'eq':
        bb = Bt(b)
        return lor(land(a, bb), land(lnot(a), lnot(bb)))
    if is_int(a) and is_int(b):
        return {'lt': lambda: ilt(a, b), 'le': lambda: ile(a, b), 'gt': lambda: ilt(b, a),
                'ge': lambda: ile(b, a), 'eq': lambda: ieq(a, b)}[k]()
    x, y = R(a), R(b)
    return {'lt': lambda: lt(x, y), 'le': lambda: le(x, y), 'gt': lambda: lt(y, x),
            'ge': lambda: le(y, x), 'eq': lambda: eq(x, y)}[k]()


# ------------------------------------------------------------------ integers
# ip payload: tuple of (mono, coeff); mono = tuple of atom T sorted by id (with repetition)
ivar_bounds = {}   # id -> (lo, hi_exclusive or None)
iapp_bounds = {}   # name -> (lo, hi_exclusive)


def ivar(name, lo=None, hi=None):
    a = mk('ivar', (name,), 'I')
    ivar_bounds[a.id] = (lo, hi)
    return _imk1(a)


def iapp(name, idx=()):
    return _imk1(mkt('iapp', name, tuple(idx), 'I'))


def _imk1(atom):
    return _ipoly({(atom,): 1})


def _mono_key(m):
    return tuple(x.id for x in m)


def _ipoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return 0
    if len(d) == 1 and () in d: return d[()]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    key = ('ip',) + tuple((_mono_key(m), c) for m, c in items)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = 'ip'; t.args = items; t.sort = 'I'
        t.id = len(_table) + 1
        t._k = ('#', t.id)
        bv = _EMPTY
        for m, c in items:
            for x in m:
                if x.bv: bv = bv | x.bv
        t.bv = bv
        _table[key] = t
    return t


class _MonoDict(dict):
    pass


def ipd(x):
    """int or ip-term -> dict mono->coeff"""
    if isinstance(x, int): return {(): x} if x else {}
    if x.op == 'ip': return dict(x.args)
    return {(x,): 1}


def _norm_add(d, m, c):
    # monos are tuples of T; use id-key map to avoid T.__eq__
    k = _mono_key(m)
    if k in d:
        d[k] = (m, d[k][1] + c)
    else:
        d[k] = (m, c)


def _from_norm(d):
    return _ipoly2(d)


def _ipoly2(d):
    items = [(m, c) for m, c in d.values() if c != 0]
    if not items: return 0
    if len(items) == 1 and items[0][0] == (): return items[0][1]
    items.sort(key=lambda mc: _mono_key(mc[0]))
    items = tuple(items)
    key = ('ip',) + tuple((_mono_key(m), c) for m, c in items)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = 'ip'; t.args = items; t.sort = 'I'
        t.id = len(_table) + 1
        t._k = ('#', t.id)
        bv = _EMPTY
        for m, c in items:
            for x in m:
                if x.bv: bv = bv | x.bv
        t.bv = bv
        _table[key] = t
    return t


def _imono_items(x):
    if isinstance(x, int): return [((), x)] if x else []
    if x.op == 'ip': return list(x.args)
    return [((x,), 1)]


def _ipoly(d):
    nd = {}
    for m, c in d.items():
        _norm_add(nd, m, c)
    return _ipoly2(nd)


def _imk1(atom):
    return _ipoly2({(atom.id,): ((atom,), 1)})


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    d = {}
    for m, c in _imono_items(a): _norm_add(d, m, c)
    for m, c in _imono_items(b): _norm_add(d, m, c)
    return _simp_divmod(_ipoly2(d))


def _simp_divmod(p):
    """M*(x div M) + (x mod M)  ->  x"""
    if isinstance(p, int): return p
    for m, c in p.args:
        if len(m) == 1 and m[0].op == 'imod':
            x, M = m[0].args
            want = imul(c, imul(M, _imk1(mk('idiv', (x, M), 'I'))))
            wi = _imono_items(want)
            if len(wi) == 1:
                wm, wc = wi[0]
                for m2, c2 in p.args:
                    if _mono_key(m2) == _mono_key(wm) and c2 == wc:
                        d = {}
                        for m3, c3 in p.args:
                            if m3 is m or m3 is m2: continue
                            _norm_add(d, m3, c3)
                        for m3, c3 in _imono_items(x): _norm_add(d, m3, c3 * c)
                        return _simp_divmod(_ipoly2(d))
    return p


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    d = {}
    for m, c in _imono_items(a):
        for m2, c2 in _imono_items(b):
            _norm_add(d, tuple(sorted(m + m2, key=lambda t: t.id)), c * c2)
    return _ipoly2(d)


def isub(a, b): return iadd(a, imul(-1, b))


def _atom_bounds(x):
    if x.op == 'ivar': return ivar_bounds.get(x.id, (None, None))
    if x.op == 'iapp': return iapp_bounds.get(x.args[0], (None, None))
    if x.op == 'imod': return (0, x.args[1])
    if x.op == 'iite':
        l1, h1 = ibounds(x.args[1]); l2, h2 = ibounds(x.args[2])
        lo = min(l1, l2) if isinstance(l1, int) and isinstance(l2, int) else None
        hi = None
        if isinstance(h1, int) and isinstance(h2, int): hi = max(h1, h2)
        elif h1 is h2: hi = h1
        return lo, hi
    if x.op == 'idiv':
        return (0, None) if prove_nonneg(x.args[0]) else (None, None)
    if x.op == 'count': return (0, x.args[1])
    return (None, None)


def ibounds(x):
    """lower bound (int) and exclusive upper bound (int or term) if simply known"""
    if isinstance(x, int): return x, x + 1
    if len(x.args) == 1 and x.args[0][1] == 1 and len(x.args[0][0]) == 1:
        return _atom_bounds(x.args[0][0][0])
    return None, None


def prove_nonneg(p, depth=4):
    """sound, incomplete: p >= 0 from the declared ranges of its atoms"""
    if isinstance(p, int): return p >= 0
    neg_m = None
    for m, c in p.args:
        if c < 0 and m:
            neg_m = (m, c); break
    if neg_m is None:
        s = 0
        for m, c in p.args:
            lo = 1
            for x in m:
                l = _atom_bounds(x)[0]
                if l is None or not isinstance(l, int) or l < 0: return False
                lo *= l
            s += c * lo
        return s >= 0
    if depth == 0: return False
    # replace an atom x (upper bound hi exclusive) in the negative monomial by hi-1
    m, c = neg_m
    for i, x in enumerate(m):
        hi = _atom_bounds(x)[1]
        if hi is None: continue
        rest = m[:i] + m[i + 1:]
        ok = all((lambda l: isinstance(l, int) and l >= 0)(_atom_bounds(y)[0]) for y in rest)
        if not ok: continue
        restp = 1
        for y in rest: restp = imul(restp, _imk1(y))
        q = isub(p, imul(c, imul(_imk1(x), restp)))
        q = iadd(q, imul(c, imul(isub(hi, 1), restp)))
        if prove_nonneg(q, depth - 1): return True
    return False


def ilt(a, b):
    if isinstance(a, int) and isinstance(b, int): return TRUE if a < b else FALSE
    d = isub(b, a)            # a<b iff d>=1
    if isinstance(d, int): return TRUE if d > 0 else FALSE
    if prove_nonneg(isub(d, 1)): return TRUE
    if prove_nonneg(imul(-1, d)): return FALSE
    return mk('ilt', (0, d), 'B')


def ile(a, b): return ilt(a, iadd(b, 1))


def ieq(a, b):
    if isinstance(a, int) and isinstance(b, int): return TRUE if a == b else FALSE
    d = isub(a, b)
    if isinstance(d, int): return TRUE if d == 0 else FALSE
    d = _drop_common(d)
    if isinstance(d, int): return TRUE if d == 0 else FALSE
    if prove_nonneg(isub(d, 1)) or prove_nonneg(isub(imul(-1, d), 1)): return FALSE
    # canonical sign
    if d.args[0][1] < 0 if d.args[0][0] else (len(d.args) > 1 and d.args[1][1] < 0): d = imul(-1, d)
    if len(d.args) <= 2:
        for m, c in d.args:
            if len(m) == 1 and abs(c) == 1 and m[0].op == 'iite':
                x = m[0]
                rest = isub(d, imul(c, _imk1(x)))
                tgt = imul(-c, rest)
                return lor(land(x.args[0], ieq(x.args[1], tgt)), land(lnot(x.args[0]), ieq(x.args[2], tgt)))
    return mk('ieq', (d, 0), 'B')


def _drop_common(d):
    """d without the factors common to all its monomials that are positive"""
    if d.op != 'ip': return d
    while True:
        ms = [m for m, c in d.args]
        for x in ms[0]:
            lo = _atom_bounds(x)[0]
            if isinstance(lo, int) and lo >= 1 and all(any(y is x for y in m) for m in ms):
                nd = {}
                for m, c in d.args:
                    i = next(i for i, y in enumerate(m) if y is x)
                    _norm_add(nd, m[:i] + m[i + 1:], c)
                d = _ipoly2(nd)
                break
        else: return d
        if isinstance(d, int) or d.op != 'ip': return d


def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int): return a // b
    if isinstance(b, int) and b == 1: return a
    # split monomials divisible by b, rest in [0,b)
    q, r = _try_divide(a, b)
    if r is not None and prove_nonneg(r) and prove_nonneg(isub(isub(b, 1), r)):
        return q
    return _imk1(mk('idiv', (a, b), 'I'))


def imod(a, b):
    if isinstance(a, int) and isinstance(b, int): return a % b
    if isinstance(b, int) and b == 1: return 0
    q, r = _try_divide(a, b)
    if r is not None and prove_nonneg(r) and prove_nonneg(isub(isub(b, 1), r)):
        return r
    return _imk1(mk('imod', (a, b), 'I'))


def _try_divide(a, b):
    """a = q*b + r monomial-wise, b a single monomial (or int)"""
    bi = _imono_items(b)
    if len(bi) != 1:
        # exact structural: a = q*b
        return (1, 0) if a is b else (0, a)
    bm, bc = bi[0]
    q, r = {}, {}
    for m, c in _imono_items(a):
        rest = list(m)
        ok = c % bc == 0
        if ok:
            for x in bm:
                for k, y in enumerate(rest):
                    if y is x:
                        del rest[k]; break
                else:
                    ok = False; break
        if ok: _norm_add(q, tuple(rest), c // bc)
        elif m == () and not bm:
            _norm_add(q, (), c // bc); _norm_add(r, (), c % bc)
        else: _norm_add(r, m, c)
    return _ipoly2(q), _ipoly2(r)


def int_eq(a, b):
    """definitely-equal test (engine level, no branching)"""
    if isinstance(a, int) and isinstance(b, int): return a == b
    return a is b


# ------------------------------------------------------------------ binders
_bvn = [0]


def canon_var(depth, hi=None):
    return ivar('$%d' % depth, 0, hi)


def fresh_name(prefix):
    _bvn[0] += 1
    return '%s!%d' % (prefix, _bvn[0])


def reset_fresh():
    _bvn[0] = 0


def max_bound_depth(t):
    m = -1
    for i in t.bv:
        m = max(m, _bvdepth(i))
    return m


_byid = {}


def _bvdepth(i):
    return _bv_depth_table[i]


_bv_depth_table = {}


def bvar(depth, hi):
    v = ivar('$%d' % depth, 0, hi)
    atom = v.args[0][0][0]
    _bv_depth_table[atom.id] = depth
    return v


_inner_depth = {}


def inner_depth(t):
    """1 + max binder depth used inside t (0 if none)"""
    r = _inner_depth.get(t.id)
    if r is None:
        r = 0
        for a in _children(t):
            r = max(r, inner_depth(a))
        if t.op in ('sum', 'rmax', 'rmin', 'forall', 'exists'):
            r = max(r, _bv_depth_table[list(t.args[0].bv)[0]] + 1)
        if t.op == 'lam':
            for v in t.args[0]: r = max(r, _bv_depth_table[list(v.bv)[0]] + 1)
        _inner_depth[t.id] = r
    return r


def _children(t):
    if t.op == 'ip':
        for m, c in t.args:
            for x in m: yield x
        return
    for a in t.args:
        if type(a) is T: yield a
        elif type(a) is tuple:
            for x in a:
                if type(x) is T: yield x


def binder(op, dim, f, sort):
    """op in sum/forall/exists/rmax/rmin; f: index -> term. Binder variable chosen canonically
    (depth = 1 + deepest binder inside), so alpha-equivalent bodies are the same term."""
    # a probe variable that occurs nowhere else
    name = fresh_name('$probe')
    probe = ivar(name, 0, dim)
    atom = probe.args[0][0][0]
    _bv_depth_table[atom.id] = -1
    body = f(probe)
    d = inner_depth(body) if type(body) is T else 0
    v = ivar('$%d_%s' % (d, _dimkey(dim)), 0, dim)
    _bv_depth_table[v.args[0][0][0].id] = d
    body = subst(body, {atom.id: v})
    return mk(op, (v, dim, body), sort)


def _dimkey(d):
    return str(d) if isinstance(d, int) else 'd%d' % d.id


def rsum(dim, f):
    if isinstance(dim, int):
        acc = ZERO
        for i in range(dim): acc = add(acc, f(i))
        return acc
    t = binder('sum', dim, f, 'R')
    if t.args[2] is ZERO: return ZERO
    if not (t.args[2].bv & t.args[0].bv):
        return mul(R(dim), t.args[2])
    return t


def forall(dim, f):
    if isinstance(dim, int): return land(*[f(i) for i in range(dim)])
    t = binder('forall', dim, f, 'B')
    b = t.args[2]
    if b is TRUE: return TRUE
    if not (b.bv & t.args[0].bv) and prove_nonneg(isub(dim, 1)): return b
    return t


def exists(dim, f):
    if isinstance(dim, int): return lor(*[f(i) for i in range(dim)])
    t = binder('exists', dim, f, 'B')
    b = t.args[2]
    if b is FALSE: return FALSE
    if not (b.bv & t.args[0].bv) and prove_nonneg(isub(dim, 1)): return b
    return t


def rext(op, dim, f):
    if isinstance(dim, int):
        acc = f(0)
        for i in range(1, dim): acc = maxr(acc, f(i)) if op == 'rmax' else minr(acc, f(i))
        return acc
    return binder(op, dim, f, 'R')


def lam(dims, f):
    """canonical function value over indices: used as an argument of uninterpreted functions"""
    probes, atoms = [], []
    for d in dims:
        p = ivar(fresh_name('$probe'), 0, d)
        atoms.append(p.args[0][0][0]); probes.append(p)
        _bv_depth_table[atoms[-1].id] = -1
    body = f(*probes)
    k = inner_depth(body) if type(body) is T else 0
    vs = []
    sub_ = {}
    for n, (d, a) in enumerate(zip(dims, atoms)):
        v = ivar('$%d_%s' % (k + n, _dimkey(d)), 0, d)
        _bv_depth_table[v.args[0][0][0].id] = k + n
        vs.append(v); sub_[a.id] = v
    body = subst(body, sub_)
    return _mk_lam(tuple(vs), body)


def _mk_lam(vs, body):
    key = ('lam',) + tuple(v._k for v in vs) + (body._k if type(body) is T else body,)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = 'lam'; t.args = (vs, body); t.sort = 'R'
        t.id = len(_table) + 1
        t._k = ('#', t.id)
        bv = body.bv if type(body) is T else _EMPTY
        for v in vs: bv = bv - v.bv
        t.bv = bv
        _table[key] = t
    return t


# ------------------------------------------------------------------ substitution / rebuild
def rebuild(t, args_new):
    op = t.op
    if op == 'add': return add(*args_new)
    if op == 'mul': return mul(*args_new)
    if op == 'pow': return power(args_new[0], t.args[1])
    if op == 'ite': return ite(*args_new)
    if op == 'lt': return lt(*args_new)
    if op == 'eq': return eq(*args_new)
    if op == 'not': return lnot(args_new[0])
    if op == 'and': return land(*args_new)
    if op == 'or': return lor(*args_new)
    if op == 'itor': return R(args_new[0])
    if op == 'ilt': return ilt(0, args_new[1])
    if op == 'ieq': return ieq(args_new[0], 0)
    if op == 'idiv': return idiv(*args_new)
    if op == 'imod': return imod(*args_new)
    if op == 'iite': return ite(*args_new)
    raise AssertionError(op)


def subst(t, m, bmap=None, memo=None):
    """m: atom id -> replacement (integer atoms, apps, or booleans by id)."""
    if type(t) is not T: return t
    if memo is None: memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if type(t) is not T: return t
    r = m.get(t.id)
    if r is not None: return r
    r = memo.get(t.id)
    if r is not None: return r
    op = t.op
    if op in ('c', 'pi', 'inf', 'nan', 'true', 'false', 'ivar', 'zero'):
        r = t
    elif op == 'ip':
        acc = 0
        ch = False
        parts = []
        for mo, c in t.args:
            p = c
            for x in mo:
                y = _subst(x, m, memo)
                if y is not x: ch = True
                else: y = _imk1(x)
                p = imul(p, y)
            parts.append(p)
        if not ch: r = t
        else:
            for p in parts: acc = iadd(acc, p)
            r = acc
            if isinstance(r, int):
                memo[t.id] = r
                return r
    elif op in ('app', 'bapp', 'fn', 'uf', 'iapp'):
        na = tuple(_subst(x, m, memo) for x in t.args[1])
        if all(x is y for x, y in zip(na, t.args[1])): r = t
        elif op == 'app': r = app(t.args[0], na)
        elif op == 'bapp': r = bapp(t.args[0], na)
        elif op == 'fn': r = fn(t.args[0], *na)
        elif op == 'uf': r = uf(t.args[0], na)
        else: r = iapp(t.args[0], na)
    elif op in ('sum', 'forall', 'exists', 'rmax', 'rmin'):
        v, d, b = t.args
        nd = _subst(d, m, memo)
        va = v.args[0][0][0]
        if va.id in m:
            m = dict(m); del m[va.id]; memo = {}
        # capture check: re-bind through binder() when anything changes
        nb = _subst(b, m, memo)
        if nb is b and nd is d: r = t
        else:
            inner = nb
            f = lambda i, inner=inner, va=va: subst(inner, {va.id: i}) if not isinstance(inner, int) else inner
            # avoid capture: substitute bound var by a fresh probe before applying m
            pv = ivar(fresh_name('$probe'), 0, nd)
            pa = pv.args[0][0][0]; _bv_depth_table[pa.id] = -1
            b2 = subst(subst(b, {va.id: pv}), m)
            g = lambda i, b2=b2, pa=pa: subst(b2, {pa.id: i})
            if op == 'sum': r = rsum(nd, g)
            elif op == 'forall': r = forall(nd, g)
            elif op == 'exists': r = exists(nd, g)
            else: r = rext(op, nd, g)
    elif op == 'lam':
        vs, b = t.args
        nb = _subst(b, m, memo)
        if nb is b: r = t
        else:
            pm = {}
            ps = []
            for v in vs:
                va = v.args[0][0][0]
                pv = ivar(fresh_name('$probe'), 0, ivar_bounds[va.id][1])
                _bv_depth_table[pv.args[0][0][0].id] = -1
                pm[va.id] = pv; ps.append(pv)
            b2 = subst(subst(b, pm), m)
            r = lam([ivar_bounds[v.args[0][0][0].id][1] for v in vs],
                    lambda *ix: subst(b2, {p.args[0][0][0].id: i for p, i in zip(ps, ix)}))
    else:
        na = [_subst(x, m, memo) if type(x) is T else x for x in t.args]
        if all(x is y for x, y in zip(na, t.args)): r = t
        else: r = rebuild(t, na)
    memo[t.id] = r
    return r


# ------------------------------------------------------------------ derivatives
def diff(t, x, memo=None):
    """derivative of a real term with respect to the atom x (conditions are differentiated branchwise)"""
    if memo is None: memo = {}
    r = memo.get(t.id)
    if r is not None: return r
    op = t.op
    if t is x: r = ONE
    elif op in ('c', 'pi', 'zero', 'app', 'itor'): r = ZERO
    elif op == 'add': r = add(diff(t.args[0], x, memo), diff(t.args[1], x, memo))
    elif op == 'mul': r = add(mul(diff(t.args[0], x, memo), t.args[1]), mul(t.args[0], diff(t.args[1], x, memo)))
    elif op == 'pow': r = mul(mul(R(t.args[1]), power(t.args[0], t.args[1] - 1)), diff(t.args[0], x, memo))
    elif op == 'ite': r = ite(t.args[0], diff(t.args[1], x, memo), diff(t.args[2], x, memo))
    elif op == 'fn' and t.args[0] in ('sin', 'cos', 'sqrt'):
        u = t.args[1][0]
        du = diff(u, x, memo)
        if du is ZERO: r = ZERO
        elif t.args[0] == 'sin': r = mul(fn('cos', u), du)
        elif t.args[0] == 'cos': r = neg(mul(fn('sin', u), du))
        else: r = div(du, mul(TWO, t))
    elif not any(y is x for y in subterms(t)): r = ZERO
    else: raise Unsupported('derivative of ' + op)
    memo[t.id] = r
    return r


# ------------------------------------------------------------------ traversal
def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is not T or x.id in seen: continue
        seen.add(x.id)
        yield x
        for c in _children(x): st.append(c)


def show(t, depth=6):
    if type(t) is not T: return str(t)
    op = t.op
    if depth == 0: return '…'
    s = lambda x: show(x, depth - 1)
    if op == 'c': return str(t.args[0])
    if op in ('pi', 'nan', 'true', 'false', 'zero'): return op
    if op == 'inf': return 'inf' if t.args[0] > 0 else '-inf'
    if op == 'ivar': return t.args[0]
    if op == 'ip':
        return '+'.join((('%d*' % c) if c != 1 or not m else '') + '*'.join(s(x) for x in m) if m else str(c) for m, c in t.args)
    if op in ('app', 'bapp', 'iapp'): return '%s[%s]' % (t.args[0], ','.join(s(x) for x in t.args[1]))
    if op in ('fn', 'uf'): return '%s(%s)' % (t.args[0], ', '.join(s(x) for x in t.args[1]))
    if op == 'add': return '(%s + %s)' % (s(t.args[0]), s(t.args[1]))
    if op == 'mul': return '%s*%s' % (s(t.args[0]), s(t.args[1]))
    if op == 'pow': return '%s^%d' % (s(t.args[0]), t.args[1])
    if op in ('lt', 'eq', 'ilt', 'ieq'): return '(%s %s %s)' % (s(t.args[0]), {'lt': '<', 'eq': '==', 'ilt': '<', 'ieq': '=='}[op], s(t.args[1]))
    if op == 'ite' or op == 'iite': return 'ite(%s, %s, %s)' % tuple(s(x) for x in t.args)
    if op == 'itor': return s(t.args[0])
    if op == 'lam': return 'λ%s.%s' % (','.join(s(v) for v in t.args[0]), s(t.args[1]))
    return '%s(%s)' % (op, ', '.join(s(x) if type(x) is T else str(x) for x in t.args))
