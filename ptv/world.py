"""Contract worlds.

A contract is a Python function of a world `w`: it names the inputs and preconditions, runs the
real function, and states postconditions.  In the symbolic world the inputs are arbitrary
(uninterpreted) values of symbolic shape and every postcondition becomes proof obligations, on
every feasible path.  In the concrete world the same contract runs on sampled numbers against the
real package: that is the replay of counterexamples and the cross-check of the symbolic torch.
"""
import contextlib
import itertools
import math
import random
import time
import zlib
from . import terms as tm
from .terms import T, Unsupported, R


class Reject(Exception):
    """sampled input does not satisfy the preconditions"""


class Stop(Exception):
    """this path is finished (infeasible, or execution cannot continue after a failed obligation)"""


class Violation(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label, self.detail = label, detail


# ------------------------------------------------------------------ generic mathematics
def _gen(name, real):
    def f(*a):
        if any(type(x) is T for x in a): return tm.fn(name, *[R(x) for x in a])
        return real(*a)
    return f


sin = _gen('sin', math.sin)
cos = _gen('cos', math.cos)
atan2 = _gen('atan2', math.atan2)


def sqrt(x):
    if type(x) is T: return tm.fn('sqrt', R(x))
    if isinstance(x, int): return tm.fn('sqrt', R(x)) if _mode[0] == 'sym' else math.sqrt(x)
    return math.sqrt(x) if x >= 0 else float('nan')


def acos(x):
    if type(x) is T: return tm.fn('acos', R(x))
    return math.acos(min(1.0, max(-1.0, x)))


DEGENERATE = '0.000000000000000000000001'      # squared norm (1e-24) below which a vector counts as having no direction


def absv(x): return tm.absr(R(x)) if type(x) is T else abs(x)


_mode = ['sym']


def pi(): return tm.PI if _mode[0] == 'sym' else math.pi


def ite(c, a, b):
    if type(c) is T:
        if isinstance(a, int) and isinstance(b, int): return tm.ite(c, R(a), R(b))
        return tm.ite(c, a if type(a) is T else R(a), b if type(b) is T else R(b))
    return a if c else b


def land(*cs):
    if any(type(c) is T for c in cs): return tm.land(*[tm.Bt(c) for c in cs])
    return all(cs)


def lor(*cs):
    if any(type(c) is T for c in cs): return tm.lor(*[tm.Bt(c) for c in cs])
    return any(cs)


def lnot(c): return tm.lnot(c) if type(c) is T else not c
def implies(a, b): return lor(lnot(a), b)


def feq(a, b):
    """a == b on numbers (contract-level)"""
    if type(a) is T or type(b) is T:
        if tm.is_int(a) and tm.is_int(b): return tm.ieq(a, b)
        return tm.eq(R(a), R(b))
    return a == b


# ------------------------------------------------------------------ symbolic world
class SymWorld:
    mode = 'sym'

    def __init__(self, runner, loader, decisions, budget):
        self.runner = runner
        self.loader = loader
        self.torch = loader.torch
        self.decisions = decisions      # prescribed outcomes
        self.taken = []
        self.picked = {}
        from .prove import Facts
        self.facts = Facts()
        self.inputs = {}
        self.budget = budget
        self.calls = runner.functions
        self.checking_bounds = True
        self.skolem = 0
        self.names = set()
        self.trace = []
        self.expect_exc = 0
        self.in_call = 0
        self.obs = []
        self.hooks = {}
        self.narrowed = []
        self.loops = []
        self.replaced = []

    # ---- callees by contract
    def callee(self, mod, name, stub):
        """on this path, calls of module.name run the stub (which checks the precondition and returns a result satisfying the postcondition)"""
        m = self.module(mod)
        self.replaced.append((m, name, getattr(m, name)))
        setattr(m, name, stub)

    def restore(self):
        while self.replaced:
            m, n, f = self.replaced.pop()
            setattr(m, n, f)

    @contextlib.contextmanager
    def compiling(self):
        """the code as torch.compile traces it: torch.compiler.is_compiling() holds"""
        from . import symtorch as st
        old = st._state.get('compiling')
        st._state['compiling'] = True
        try: yield
        finally: st._state['compiling'] = old

    # ---- loops with invariants
    def loop(self, handler):
        """handler(range, frame) -> generator implementing the loop by its invariant, or None"""
        self.loops.append(handler)

    def iterate(self, rng, frame):
        for h in self.loops:
            g = h(rng, frame)
            if g is not None: return g
        raise Unsupported('loop over a symbolic range without an invariant')

    def cut(self, lo, hi, state, check, havoc):
        """the loop rule: the invariant holds at entry; an arbitrary iteration started in a state satisfying it ends in one;
        execution continues after the loop from an arbitrary state satisfying it at the end"""
        check('loop invariant at entry', state(), lo)
        if self.choose('loop%d' % self.n_loops(), ['iteration', 'exit']) == 'iteration':
            self.skolem += 1
            d = tm.ivar('d%d' % self.skolem, lo, hi)
            havoc(state(), d)
            yield d
            check('loop invariant preserved', state(), tm.iadd(d, 1))
            raise Stop()
        havoc(state(), hi)

    def n_loops(self):
        self.skolem += 1
        return self.skolem

    def grad(self, out, inp, G):
        """gradient of sum(G * out) with respect to inp, through a custom backward"""
        gf = out.grad_fn
        if not (isinstance(gf, tuple) and gf[0] == 'Function'): raise Unsupported('gradient of %r' % (gf,))
        _, cls, ctx, args = gf
        r = cls.backward(ctx, G)
        tot = None
        for a, g in zip(args, r if isinstance(r, tuple) else (r,)):
            if a is inp and g is not None: tot = g if tot is None else tot + g
        return tot

    # ---- hooks used by symtorch
    def on_write(self, t): pass

    def on_random(self, name, kind, size):
        self.trace.append(('random', name, kind))
        f = self.hooks.get('random')
        if f: f(name, kind, size)

    def on_index(self, t, n): pass

    def on_narrow(self, what, src, dst): self.narrowed.append('%s of %s values stored as %s' % (what, src, dst))

    def precise(self, label):
        """no value has been rounded to a less precise type since the start (or the last w.precise)"""
        n, self.narrowed = self.narrowed, []
        self.true(label + ': no precision lost' + (' (%s)' % n[0] if n else ''), not n)

    # ---- branching
    def branch(self, cond):
        from .prove import implied_fast, implied, feasible
        c = self.facts.simp(cond)
        if c is tm.TRUE: return True
        if c is tm.FALSE: return False
        i = len(self.taken)
        if i < len(self.decisions):
            v = self.decisions[i]
        else:
            if i > 60: raise Unsupported('more than 60 symbolic branches on one path')
            hk = tm.set_branch_hook(None)
            try: v = implied(self.facts, c)
            finally: tm.set_branch_hook(self.branch)
            if v is None:
                self.runner.fork(self.taken + [False])
                v = True
        self.taken.append(v)
        self.facts.add(c if v else tm.lnot(c))
        self.facts.truth.setdefault(c.id, v)
        if self.facts.contradiction: raise Stop()
        return v

    # ---- package access
    @property
    def pk(self): return self.loader.load('pytorch_kinematics')

    def module(self, name): return self.loader.load('pytorch_kinematics' + ('.' + name if name else ''))

    def fn(self, mod, name):
        """the function under contract"""
        m = self.module(mod)
        f = m
        for p in name.split('.'): f = getattr(f, p)
        self.calls.add(mod + ':' + name if mod else name)
        return f

    # ---- inputs
    def _name(self, n):
        if n in self.names: raise RuntimeError('input %s declared twice' % n)
        self.names.add(n)

    def dim(self, name, lo=1, hi=None, mx=None):
        self._name(name)
        d = tm.ivar(name, lo, hi)
        return d

    def integer(self, name, lo, hi):
        """a concrete choice in both worlds when the range is finite: explored exhaustively"""
        return self.choose(name, list(range(lo, hi)))

    def choose(self, name, options):
        """exhaustive in the symbolic world (one path per option)"""
        i = len(self.taken)
        if len(options) == 1: return options[0]
        if i < len(self.decisions): v = self.decisions[i]
        else:
            for k in range(1, len(options)): self.runner.fork(self.taken + [('opt', k)])
            v = ('opt', 0)
        self.taken.append(v)
        self.picked[name] = v[1]
        return options[v[1]]

    def near_only(self, x): return None    # a bound for sampling only

    def real(self, name, lo=None, hi=None, nonzero=False, pos=False, **kw):
        self._name(name)
        t = tm.app(name)
        if lo is not None: self.facts.add(tm.le(R(lo), t))
        if hi is not None: self.facts.add(tm.le(t, R(hi)))
        if nonzero: self.facts.add(tm.lnot(tm.eq(t, tm.ZERO)))
        if pos: self.facts.add(tm.lt(tm.ZERO, t))
        self.inputs[name] = t
        return t

    def tensor(self, name, shape, dtype=None, device='cpu', requires_grad=False, **kw):
        self._name(name)
        import torch as rt
        from . import symtorch as st
        dt = dtype or rt.float64
        k = st.kind(dt)
        mkf = {'R': tm.app, 'B': tm.bapp, 'I': tm.iapp}[k]
        t = st.new(lambda idx: mkf(name, idx), tuple(shape), dt, rt.device(device))
        t.requires_grad = requires_grad
        self.inputs[name] = t
        lo, hi = kw.get('lo'), kw.get('hi')
        if k == 'I': tm.iapp_bounds[name] = (lo, hi)
        elif k == 'R':
            if lo is not None: self.assume(self.all(shape, lambda *i: R(lo) <= tm.app(name, i)))
            if hi is not None: self.assume(self.all(shape, lambda *i: tm.app(name, i) <= R(hi)))
            if kw.get('pos'): self.assume(self.all(shape, lambda *i: tm.lt(tm.ZERO, tm.app(name, i))))
        return t

    def unit(self, name, batch, n, dtype=None, device='cpu', lead=0, requires_grad=False):
        from .ring import UNIT_GROUPS
        UNIT_GROUPS[name] = (lead, tuple(range(n)))
        return self.tensor(name, tuple(batch) + (n,), dtype, device, requires_grad)

    def rotation(self, name, batch, dtype=None, device='cpu'):
        """an arbitrary proper rotation matrix, given through an arbitrary unit quaternion"""
        from . import spec as S
        from . import symtorch as st
        import torch as rt
        from .ring import UNIT_GROUPS
        self._name(name)
        UNIT_GROUPS[name] = (0, (0, 1, 2, 3))
        nb = len(batch)

        def f(idx):
            M = S.quat_matrix([tm.app(name, idx[:nb] + (c,)) for c in range(4)])
            return st.pick(3, idx[nb], lambda i: st.pick(3, idx[nb + 1], lambda j: M[i][j]))
        t = st.new(f, tuple(batch) + (3, 3), dtype or rt.float64, rt.device(device))
        self.inputs[name] = t
        return t

    def rot_quat(self, name, *b):
        """the unit quaternion behind rotation input `name`"""
        return [tm.app(name, tuple(b) + (c,)) for c in range(4)]

    def make(self, shape, f, dtype=None, device='cpu'):
        """tensor with given entries (function of the index)"""
        from . import symtorch as st
        import torch as rt
        dt = dtype or rt.float64
        k = st.kind(dt)
        nd = len(shape)

        def g(idx):
            def go(pre, rest):
                if not rest: return st.elem(f(*pre), k)
                d, i = shape[len(pre)], rest[0]
                if isinstance(d, int) and not isinstance(i, int): return st.pick(d, i, lambda q: go(pre + (q,), rest[1:]))
                return go(pre + (i,), rest[1:])
            return go((), tuple(idx))
        return st.new(g, tuple(shape), dt, rt.device(device))

    def array(self, t):
        from .shadow import SymArray
        return SymArray(t)

    # ---- terms
    def at(self, t, *idx):
        return t.at(*idx)

    def rd(self, t): return t._reader()

    def all(self, shape, f):
        def go(pre, dims):
            if not dims: return tm.Bt(f(*pre))
            return tm.forall(dims[0], lambda i: go(pre + (i,), dims[1:]))
        return go((), tuple(shape) if isinstance(shape, (tuple, list)) else (shape,))

    def exists(self, shape, f): return tm.lnot(self.all(shape, lambda *i: tm.lnot(tm.Bt(f(*i)))))

    def sum(self, dim, f): return tm.rsum(dim, lambda i: R(f(i)))

    def assume(self, c):
        self.facts.add(tm.Bt(c))
        if self.facts.contradiction: raise Stop()

    def idx(self, shape, tag='i'):
        """representative indices of the shape: every index of constant dimensions, one arbitrary
        index of every symbolic dimension"""
        sk = []
        for d in shape:
            d = self._dimval(d)
            if isinstance(d, int): sk.append(range(d))
            else:
                self.skolem += 1
                sk.append([tm.ivar('%s%d' % (tag, self.skolem), 0, d)])
        return itertools.product(*sk)

    def _dimval(self, d):
        if type(d) is not T: return d
        d = self.facts.simp(d)
        if type(d) is T and d.op == 'c' : return int(d.args[0])
        return d

    def one(self, dim, tag='i'):
        self.skolem += 1
        dim = self._dimval(dim)
        if isinstance(dim, int): return self.choose('%s%d' % (tag, self.skolem), list(range(dim)))
        return tm.ivar('%s%d' % (tag, self.skolem), 0, dim)

    # ---- obligations
    def check(self, label, cond):
        self.runner.oblige(self, label, tm.Bt(cond))

    def same(self, label, a, b, tol=None):
        """a == b as reals"""
        self.check(label, feq(a, b))

    def lemma(self, label, cond):
        """an obligation that later obligations may use"""
        self.check('lemma ' + label, cond)
        self.facts.add(tm.Bt(cond))

    def const(self, s):
        """an exact decimal constant"""
        from fractions import Fraction
        return tm.const(Fraction(s))

    def axiom(self, label, cond):
        """a mathematical fact taken without proof (checked numerically in the concrete world)"""
        self.runner.axioms.add(label)
        self.facts.add(tm.Bt(cond))

    def nonneg(self, label, shape, expr, squares):
        """lemma: expr(i) >= 0 for all i, because it equals the given sum of squares"""
        for ix in self.idx(shape):
            s = tm.ZERO
            for c, x in squares(*ix): s = tm.add(s, tm.mul(tm.R(c), tm.mul(x, x)))
            self.check('lemma ' + label, tm.eq(expr(*ix), s))
        self.facts.add(self.all(shape, lambda *i: tm.le(tm.ZERO, R(expr(*i)))))

    def near(self, label, a, b, tol):
        """|a - b| <= tol"""
        d = R(a) - R(b)
        self.check(label, tm.land(tm.le(d, R(tol)), tm.le(R(-tol), d)))

    def shape(self, label, t, shape):
        if len(t.shape) != len(shape):
            self.runner.fail_hard(self, label, 'shape %s, expected %s' % (tuple(t.shape), tuple(shape)))
        self.check(label, tm.land(*[tm.ieq(a, b) for a, b in zip(t.shape, shape)]))

    def eq(self, label, got, shape, spec, dtype=None, device=None, tol=None, scale=None):
        from . import symtorch as st
        if not isinstance(got, st.Tensor): self.runner.fail_hard(self, label, 'result is not a tensor')
        self.shape(label + '.shape', got, shape)
        if dtype is not None: self.check(label + '.dtype', got.dtype == dtype)
        if device is not None: self.check(label + '.device', str(got.device) == str(device))
        rd = got._reader()
        for ix in self.idx(shape):
            g = rd(tuple(ix))
            e = spec(*ix)
            if got._k == 'B': self.check('%s%s' % (label, _lab(ix)), tm.lor(tm.land(g, tm.Bt(e)), tm.land(tm.lnot(g), tm.lnot(tm.Bt(e)))))
            elif got._k == 'I': self.check('%s%s' % (label, _lab(ix)), tm.ieq(g, e))
            else: self.check('%s%s' % (label, _lab(ix)), tm.eq(g, R(e)))
        self.obs.append((label, got))

    def unchanged(self, label, t, name):
        """input tensor still holds its initial (arbitrary) values"""
        if self.inputs.get(name) is not t: raise RuntimeError('not an input')
        from . import symtorch as st
        if t._root().st.version == 0:
            self.check(label, tm.TRUE)
            return
        rd = t._reader()
        mkf = {'R': tm.app, 'B': tm.bapp, 'I': tm.iapp}[t._k]
        for ix in self.idx(t.shape):
            g = rd(tuple(ix)); e = mkf(name, tuple(ix))
            c = tm.eq(g, e) if t._k == 'R' else tm.ieq(g, e) if t._k == 'I' else tm.lor(tm.land(g, e), tm.land(tm.lnot(g), tm.lnot(e)))
            self.check('%s%s' % (label, _lab(ix)), c)

    def snapshot(self, t):
        rd = t._reader(); shape = tuple(t.shape)
        from . import symtorch as st
        f = t.st.fn if t.base is None else None
        if f is not None: return lambda *i: f(tuple(i))
        c = t.clone(); g = c._reader()
        return lambda *i: g(tuple(i))

    def same_tensor(self, label, a, b, tol=None):
        self.shape(label + '.shape', a, tuple(b.shape))
        ra, rb = a._reader(), b._reader()
        for ix in self.idx(tuple(b.shape)):
            x, y = ra(tuple(ix)), rb(tuple(ix))
            c = tm.eq(x, y) if a._k == 'R' else tm.ieq(x, y) if a._k == 'I' else tm.lor(tm.land(x, y), tm.land(tm.lnot(x), tm.lnot(y)))
            self.check('%s%s' % (label, _lab(ix)), c)

    def raises(self, label, f, exc=Exception):
        try: f()
        except Unsupported: raise
        except Stop: raise
        except exc: self.check(label, tm.TRUE); return True
        self.runner.fail_hard(self, label, 'no exception was raised')

    def true(self, label, b, detail=''):
        """a concrete fact about structure (names, counts, identity)"""
        if type(b) is T and b.sort == 'B': return self.check(label, b)
        self.check(label, tm.TRUE if b else tm.FALSE)

    def note(self, **k): pass
    @property
    def symbolic(self): return True
    @property
    def concrete(self): return False


def _lab(ix): return '[' + ','.join(str(i) for i in ix) + ']'


# ------------------------------------------------------------------ concrete world
STYLES = ('normal', 'normal', 'normal', 'small_int', 'zeros', 'large', 'tiny', 'ties', 'mixed', 'mixed')


class ConWorld:
    mode = 'con'

    def __init__(self, torch, seed, hint=None, size=3, forced=None):
        self.torch = torch
        self.seed = seed
        self.rng = random.Random(seed)
        self.hint = hint or {}
        self.inputs = {}
        self.chosen = {}
        self.forced = forced or {}
        self.size = size
        self.names = set()
        self.calls = set()
        self.obs = []
        self.n_checks = 0
        self.style = self.rng.choice(STYLES)
        self.sizes = []
        self.originals = {}
        self.hooks = {}
        self.log = {}
        self.skolem = 0
        self.soft = None

    @property
    def pk(self):
        import pytorch_kinematics
        return pytorch_kinematics

    def module(self, name):
        import importlib
        return importlib.import_module('pytorch_kinematics' + ('.' + name if name else ''))

    def fn(self, mod, name):
        f = self.module(mod)
        for p in name.split('.'): f = getattr(f, p)
        self.calls.add(mod + ':' + name)
        return f

    def dim(self, name, lo=1, hi=None, mx=None):
        if name in self.forced: v = self.forced[name]
        elif name in self.hint.get('dims', {}): v = max(lo, min(self.hint['dims'][name], lo + (5 if max(self.sizes + [0]) > 9 else 130)))
        elif self.sizes and self.rng.random() < 0.25: v = max(lo, self.rng.choice(self.sizes))      # sizes that coincide
        else: v = self.rng.choice([lo, lo + 1, lo + 1, lo + 2, lo + self.size])
        if mx is not None: v = min(v, mx)
        self.chosen[name] = v
        self.sizes.append(v)
        return v

    def integer(self, name, lo, hi): return self.choose(name, list(range(lo, hi)))

    @contextlib.contextmanager
    def compiling(self):
        c = self.torch.compiler
        names = [n for n in ('is_compiling', 'is_dynamo_compiling') if hasattr(c, n)]
        old = [getattr(c, n) for n in names]
        for n in names: setattr(c, n, lambda: True)
        try: yield
        finally:
            for n, f in zip(names, old): setattr(c, n, f)

    def choose(self, name, options):
        if len(options) == 1: return options[0]
        if name in self.forced: k = self.forced[name]
        elif self.hint.get('opts', {}).get(name, len(options)) < len(options): k = self.hint['opts'][name]
        else: k = self.rng.randrange(len(options))
        self.chosen[name] = k
        return options[k]

    def _sample(self, style=None):
        s = style or self.style
        r = self.rng
        if s == 'mixed': s = r.choice(['normal', 'small_int', 'zeros', 'tiny', 'normal', 'large'])
        if s == 'normal': return r.gauss(0, 1)
        if s == 'small_int': return float(r.choice([-2, -1, 0, 0, 1, 1, 2]))
        if s == 'zeros': return r.choice([0.0, 0.0, 1.0, r.gauss(0, 1)])
        if s == 'large': return r.uniform(-10, 10)
        if s == 'tiny': return r.choice([1e-3, -1e-3, 1e-7, -1e-9, 1e-5, 0.0, r.gauss(0, 1e-4)])
        if s == 'ties': return r.choice([0.5, -0.5])
        return r.gauss(0, 1)

    def _hinted(self, name, idx):
        h = self.hint.get('vals', {}).get(name)
        if h is None: return None
        return h.get(tuple(idx))

    def near_only(self, x): return x

    def real(self, name, lo=None, hi=None, nonzero=False, pos=False, special=(), **kw):
        v = self._hinted(name, ())
        if name in self.forced: v = self.forced[name]
        if v is None:
            if special and self.rng.random() < 0.5: v = self.rng.choice(special)
            elif lo is not None and hi is not None: v = self.rng.choice([float(lo), float(hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi), self.rng.uniform(lo, hi)])
            elif lo is not None: v = lo + abs(self._sample())
            elif hi is not None: v = hi - abs(self._sample())
            else: v = self._sample()
        if pos: v = abs(v) or 0.7
        if nonzero and v == 0: v = 0.7
        self.chosen[name] = v
        self.inputs[name] = v
        return v

    def tensor(self, name, shape, dtype=None, device='cpu', requires_grad=False, lo=None, hi=None, pos=False, special=(), nonzero=False, **kw):
        t = self.torch
        dt = dtype or t.float64
        shape = tuple(int(d) for d in shape)
        self.style = self.rng.choice(STYLES)
        n = 1
        for d in shape: n *= d
        vals = []
        for k, ix in enumerate(itertools.product(*[range(d) for d in shape])):
            v = self._hinted(name, ix)
            if v is None:
                if dt == t.bool: v = self.rng.random() < 0.5
                elif not dt.is_floating_point: v = self.rng.randrange(lo or 0, hi if hi is not None else (lo or 0) + 4)
                elif special and self.rng.random() < 0.4: v = self.rng.choice(special)
                elif lo is not None and hi is not None: v = self.rng.uniform(lo, hi)
                else:
                    v = self._sample()
                    if lo is not None: v = lo + abs(v)
                    if hi is not None and v > hi: v = hi - abs(v)
            if pos: v = abs(v) or 0.7
            if nonzero and v == 0: v = 0.7
            vals.append(v)
        x = t.tensor(vals, dtype=dt, device=device).reshape(shape)
        if (dt.is_floating_point and len(shape) > 1 and shape[0] > 1 and name not in self.hint.get('vals', {}) and lo is None and hi is None and not (special or pos or nonzero)
                and self.rng.random() < 0.4):
            r = self.rng.randrange(shape[0])            # one row unlike the others: zero, tiny, large, or like another
            x[r] = self.rng.choice([lambda: x[r] * 0, lambda: x[r] * 1e-7, lambda: x[r] * 1e-3, lambda: x[r] * 5, lambda: x[r - 1].clone()])()
        if name in self.forced: x = t.tensor(self.forced[name], dtype=dt, device=device).reshape(shape)
        x = self._layout(x)
        self.inputs[name] = x
        self.originals[name] = x.clone()
        self.chosen[name] = x.tolist()
        if requires_grad: x.requires_grad_(True)
        return x

    def _layout(self, x):
        """the same values, now and then laid out otherwise in memory"""
        if x.dim() == 0 or x.numel() < 2 or self.rng.random() < 0.75: return x
        t = self.torch
        if x.dim() > 1 and self.rng.random() < 0.5:         # column order
            p = list(range(x.dim()))[::-1]
            return x.permute(p).contiguous().permute(p)
        wide = t.full(tuple(x.shape[:-1]) + (2 * x.shape[-1] + 1,), 7, dtype=t.uint8).to(x.dtype).to(x.device)
        y = wide[..., 1::2]
        y.copy_(x)
        return y

    def unit(self, name, batch, n, dtype=None, device='cpu', lead=0, requires_grad=False):
        t = self.torch
        x = self.tensor(name, tuple(batch) + (n,), t.float64)
        if name not in self.forced:
            nr = x.norm(dim=-1, keepdim=True)
            e = t.zeros_like(x); e[..., self.rng.randrange(n)] = self.rng.choice([1.0, -1.0])
            x = t.where(nr < 1e-12, e, x / t.where(nr < 1e-12, t.ones_like(nr), nr))
        x = self._layout(x.to(dtype or t.float64))
        if requires_grad: x.requires_grad_(True)
        self.inputs[name] = x
        self.originals[name] = x.detach().clone()
        self.chosen[name] = x.tolist()
        return x

    def rotation(self, name, batch, dtype=None, device='cpu'):
        from . import spec as S
        t = self.torch
        q = self.unit(name, batch, 4)
        self.names.add(name)
        nb = len(batch)
        x = t.zeros(tuple(batch) + (3, 3), dtype=t.float64)
        for b in itertools.product(*[range(d) for d in batch]):
            M = S.quat_matrix([float(q[b + (c,)]) for c in range(4)])
            for i in range(3):
                for j in range(3): x[b + (i, j)] = M[i][j]
        x = self._layout(x.to(dtype or t.float64))
        self.quats = getattr(self, 'quats', {})
        self.quats[name] = q
        self.inputs[name] = x
        self.originals[name] = x.clone()
        return x

    def rot_quat(self, name, *b): return [float(self.quats[name][tuple(b) + (c,)]) for c in range(4)]

    def make(self, shape, f, dtype=None, device='cpu'):
        t = self.torch
        x = t.zeros(tuple(shape), dtype=dtype or t.float64, device=device)
        for ix in itertools.product(*[range(d) for d in shape]): x[ix] = f(*ix)
        return x

    def array(self, t): return t.numpy()

    def at(self, t, *idx):
        if not hasattr(t, 'detach'): raise Violation('result', 'not a tensor but %s' % type(t).__name__)
        v = t.detach()[tuple(idx)] if idx else t.detach()
        return v.item()

    def all(self, shape, f):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        return all(f(*i) for i in itertools.product(*[range(d) for d in shape]))

    def exists(self, shape, f): return not self.all(shape, lambda *i: not f(*i))
    def sum(self, dim, f): return sum(f(i) for i in range(dim))

    def assume(self, c):
        if not c: raise Reject()

    def idx(self, shape, tag='i'): return itertools.product(*[range(d) for d in shape])

    def one(self, dim, tag='i'):
        self.skolem += 1
        return self.rng.randrange(dim)

    def check(self, label, cond):
        self.n_checks += 1
        if not cond: raise Violation(label, 'condition is false')

    def close(self, a, b, tol):
        if a == b: return True
        if isinstance(a, bool) or isinstance(b, bool): return a == b
        if math.isnan(a) or math.isnan(b): return False
        if math.isinf(a) or math.isinf(b): return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def same(self, label, a, b, tol=None):
        self.n_checks += 1
        if not self.close(a, b, tol or 1e-6): raise Violation(label, 'got %r, expected %r' % (a, b))

    def const(self, s): return float(s)
    def axiom(self, label, cond):
        self.n_checks += 1
        if not cond: raise Violation(label, 'axiom is false')
    def lemma(self, label, cond): self.check(label, cond)
    def precise(self, label): pass
    def nonneg(self, label, shape, expr, squares): pass

    def near(self, label, a, b, tol):
        self.n_checks += 1
        if not abs(a - b) <= tol: raise Violation(label, 'got %r, expected %r within %g' % (a, b, tol))

    def shape(self, label, t, shape):
        self.n_checks += 1
        if not hasattr(t, 'shape'): raise Violation(label, 'not a tensor but %s' % type(t).__name__)
        if tuple(t.shape) != tuple(shape): raise Violation(label, 'shape %s, expected %s' % (tuple(t.shape), tuple(shape)))

    def eq(self, label, got, shape, spec, dtype=None, device=None, tol=None, scale=None):
        if not isinstance(got, self.torch.Tensor): raise Violation(label, 'result is not a tensor')
        self.shape(label + '.shape', got, shape)
        if dtype is not None: self.check(label + '.dtype', got.dtype == dtype)
        if device is not None: self.check(label + '.device', str(got.device) == str(device))
        g = got.detach()
        if tol is None: tol = 1e-6 if g.dtype == self.torch.float64 or not g.dtype.is_floating_point else 2e-3
        for ix in itertools.product(*[range(d) for d in shape]):
            self.n_checks += 1
            x, e = g[ix].item() if ix else g.item(), spec(*ix)
            if isinstance(x, bool): e = bool(e)
            if not self.close(x, e, tol):
                raise Violation('%s%s' % (label, _lab(ix)), 'got %r, expected %r' % (x, e))

    def unchanged(self, label, t, name):
        o = self.originals[name]
        self.n_checks += 1
        if not self.torch.equal(t.detach(), o):
            raise Violation(label, 'input changed from %s to %s' % (o.tolist(), t.tolist()))

    def snapshot(self, t):
        c = t.detach().clone()
        return lambda *i: c[tuple(i)].item()

    def same_tensor(self, label, a, b, tol=None):
        bb = b.detach()
        self.eq(label, a, tuple(bb.shape), lambda *i: bb[tuple(i)].item(), tol=tol)

    def raises(self, label, f, exc=Exception):
        self.n_checks += 1
        try: f()
        except exc: return True
        raise Violation(label, 'no exception was raised')

    def true(self, label, b, detail=''):
        self.n_checks += 1
        if not b: raise Violation(label, detail or 'false')

    def grad(self, out, inp, G): return self.torch.autograd.grad(out, inp, G, allow_unused=True, retain_graph=True)[0]
    def note(self, **k): self.chosen.update({kk: str(v) for kk, v in k.items()})
    @property
    def symbolic(self): return False
    @property
    def concrete(self): return True
