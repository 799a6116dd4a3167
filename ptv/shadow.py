"""Loads /repo/src/pytorch_kinematics, unmodified, against the symbolic torch.

The verified text is the file that runs: every module is read from the working tree, parsed and
executed as it stands.  What differs from a normal import is only the environment the text is
executed in: `torch`, `math`, `numpy`, plotting and MuJoCo are shims, and the builtins that must
accept symbolic numbers (len, range, float, int, isinstance, abs, round) are wrappers that defer
to the originals for ordinary values.
"""
import builtins as _b
import math as _math
import os
import sys
import types
import numpy as _np
from . import terms as tm
from .terms import T, Unsupported, R
from . import symtorch as st

REPO = os.environ.get('PTV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'pytorch_kinematics'

TOKENS = {}     # symbolic numeric tokens appearing in documents -> term


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.float) or (type(x) is T and x.sort == 'R')

    def __eq__(cls, o): return o is cls or o is _b.float
    def __hash__(cls): return hash(_b.float)


class FloatShim(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if type(x) is T: return R(x)
        if isinstance(x, st.Tensor): return R(x.item()) if x.dtype.is_floating_point or True else x
        if isinstance(x, str) and x.strip() in TOKENS: return TOKENS[x.strip()]
        return _b.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.int) or (type(x) is T and x.sort == 'I')

    def __eq__(cls, o): return o is cls or o is _b.int
    def __hash__(cls): return hash(_b.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if type(x) is T:
            if x.sort == 'I': return x
            if x.op == 'c': return _b.int(x.args[0])
            if x.op == 'itor': return x.args[0]
            raise Unsupported('int() of a symbolic real')
        if isinstance(x, st.Tensor): return cls(x.item())
        return _b.int(x, *a)


def s_len(x):
    if isinstance(x, st.Tensor): return x.sym_len()
    f = getattr(type(x), 'sym_len', None)
    if f is not None: return x.sym_len()
    return _b.len(x)


class SymRange:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

    def __iter__(self):
        return st.world().iterate(self, sys._getframe(1))

    def sym_len(self): return tm.isub(self.hi, self.lo)


def s_range(*a):
    a = [x.item() if isinstance(x, st.Tensor) else x for x in a]
    if any(type(x) is T for x in a):
        if len(a) == 1: return SymRange(0, a[0])
        if len(a) == 2: return SymRange(a[0], a[1])
        raise Unsupported('strided symbolic range')
    return _b.range(*a)


def s_isinstance(x, c):
    if type(x) is T:
        cs = c if _b.isinstance(c, tuple) else (c,)
        for k in cs:
            if k is FloatShim or k is _b.float:
                if x.sort == 'R': return True
            elif k is IntShim or k is _b.int:
                if x.sort == 'I': return True
            elif k is _b.bool:
                if x.sort == 'B': return True
            elif k is T or k is object: return True
            elif getattr(k, '__module__', '') == 'numbers': return x.sort in ('R', 'I')
        return False
    if _b.isinstance(c, tuple):
        c = tuple(_b.float if k is FloatShim else _b.int if k is IntShim else k for k in c)
    elif c is FloatShim: c = _b.float
    elif c is IntShim: c = _b.int
    return _b.isinstance(x, c)


def s_abs(x): return tm.absr(R(x)) if type(x) is T and x.sort != 'I' else _b.abs(x)


def s_round(x, *a):
    if type(x) is T: return tm.fn('round', R(x))
    return _b.round(x, *a)


def s_enumerate(x, start=0):
    if getattr(type(x), 'sym_len', None) is not None and type(s_len(x)) is T: return x.enumerate(start)
    return _b.enumerate(x, start)


def s_print(*a, **k): pass


# ------------------------------------------------------------------ math / numpy
def _m(f):
    def g(*a):
        a = [x.item() if isinstance(x, st.Tensor) else x for x in a]
        return f(*[R(x) for x in a])
    return g


math = types.ModuleType('math')
for _n in dir(_math):
    if not _n.startswith('__'): setattr(math, _n, getattr(_math, _n))
math.pi = tm.PI
math.tau = tm.mul(tm.TWO, tm.PI)
math.inf = _math.inf
for _n in ('sin', 'cos', 'tan', 'sqrt', 'acos', 'asin', 'atan2'):
    setattr(math, _n, _m(lambda *a, _n=_n: tm.fn(_n, *a)))
math.fabs = _m(tm.absr)
math.radians = _m(lambda x: tm.mul(x, tm.div(tm.PI, tm.R(180))))
math.degrees = _m(lambda x: tm.mul(x, tm.div(tm.R(180), tm.PI)))
math.isnan = lambda x: tm.isnan(R(x)) if type(x) is T else _math.isnan(x)
math.isfinite = lambda x: tm.isfinite(R(x)) if type(x) is T else _math.isfinite(x)
math.isinf = lambda x: tm.lnot(tm.isfinite(R(x))) if type(x) is T else _math.isinf(x)
math.floor = lambda x: tm.fn('floor', x) if type(x) is T else _math.floor(x)
math.hypot = _m(lambda *a: tm.fn('sqrt', _sumsq(a)))


def _sumsq(a):
    acc = tm.ZERO
    for x in a: acc = tm.add(acc, tm.mul(x, x))
    return acc


class SymArray:
    """stands for a numpy array whose elements are symbolic"""

    def __init__(self, t): self._t = t

    @property
    def shape(self): return tuple(self._t.shape)
    @property
    def ndim(self): return len(self._t.shape)
    @property
    def size(self): return self._t.numel()
    @property
    def dtype(self): return _np.dtype('float64')

    def sym_len(self): return self._t.sym_len()
    def __getitem__(self, k):
        r = self._t[k]
        return r._scalar() if not r.shape else SymArray(r)

    def __iter__(self): return (SymArray(x) if x.shape else x._scalar() for x in self._t)
    def tolist(self): return self._t.tolist()
    def reshape(self, *s): return SymArray(self._t.reshape(*s))
    def astype(self, *a): return SymArray(self._t.clone())
    def copy(self): return SymArray(self._t.clone())
    # numpy itself must not look inside: it would take the whole for one opaque element
    __array_ufunc__ = None
    def __array__(self, *a, **k): raise Unsupported('numpy conversion of a symbolic array')
    @property
    def T(self): return SymArray(self._t.T)
    def flatten(self): return SymArray(self._t.reshape(-1))
    def ravel(self): return SymArray(self._t.reshape(-1))
    def transpose(self, *a): return SymArray(self._t.permute(*(a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)) if a else self._t.T)
    def squeeze(self, *a): return SymArray(self._t.squeeze(*a))
    def item(self, *a): return self._t.reshape(-1)[a[0] if a else 0]._scalar()
    def _un(self, o): return o._t if isinstance(o, SymArray) else o
    def __mul__(self, o): return SymArray(self._t * self._un(o))
    def __rmul__(self, o): return SymArray(self._un(o) * self._t)
    def __add__(self, o): return SymArray(self._t + self._un(o))
    def __radd__(self, o): return SymArray(self._un(o) + self._t)
    def __sub__(self, o): return SymArray(self._t - self._un(o))
    def __truediv__(self, o): return SymArray(self._t / self._un(o))
    def __neg__(self): return SymArray(-self._t)
    def __hash__(self): return id(self)


class _NdMeta(type):
    def __instancecheck__(cls, x): return _b.isinstance(x, (SymArray, _np.ndarray))


class NdShim(metaclass=_NdMeta):
    pass


numpy = types.ModuleType('numpy')


def _symbolic(x, depth=4):
    if isinstance(x, (SymArray, st.Tensor)) or type(x) is T: return True
    if depth and isinstance(x, (list, tuple)): return any(_symbolic(y, depth - 1) for y in x)
    if depth and isinstance(x, dict): return any(_symbolic(y, depth - 1) for y in x.values())
    return False


def _np_tensor(a):
    if isinstance(a, SymArray): return a._t
    return a if isinstance(a, st.Tensor) else st.tensor(_np_unwrap(a) if not isinstance(a, _np.ndarray) else a)


_NP = {
    'array': lambda a, dtype=None, **k: SymArray(_np_tensor(a).clone()),
    'asarray': lambda a, dtype=None, **k: a if isinstance(a, SymArray) else SymArray(_np_tensor(a).clone()),
    'copy': lambda a, **k: SymArray(_np_tensor(a).clone()),
    'shape': lambda a: tuple(_np_tensor(a).shape),
    'ndim': lambda a: len(_np_tensor(a).shape),
    'reshape': lambda a, s: SymArray(_np_tensor(a).reshape(*(s if isinstance(s, (list, tuple)) else (s,)))),
    'atleast_1d': lambda a: SymArray(st.atleast_1d(_np_tensor(a))),
    'atleast_2d': lambda a: SymArray(st.atleast_2d(_np_tensor(a))),
    'expand_dims': lambda a, axis: SymArray(_np_tensor(a).unsqueeze(axis)),
    'transpose': lambda a, axes=None: SymArray(_np_tensor(a)).transpose(*(axes or ())),
    'squeeze': lambda a, *k: SymArray(_np_tensor(a)).squeeze(*k),
    'ravel': lambda a: SymArray(_np_tensor(a).reshape(-1)),
    'stack': lambda a, axis=0: SymArray(st.stack([_np_tensor(x) for x in a], dim=axis)),
    'concatenate': lambda a, axis=0: SymArray(st.cat([_np_tensor(x) for x in a], dim=axis)),
}
_NP['asanyarray'] = _NP['ascontiguousarray'] = _NP['asfarray'] = _NP['require'] = _NP['asarray']


class _NpFunc:
    """a numpy function; over symbolic operands only what _NP says"""

    def __init__(self, n, f): self._n, self._f = n, f
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return _NpFunc(self._n + '.' + n, getattr(self._f, n))

    def __call__(self, *a, **k):
        if not (_symbolic(a) or _symbolic(k)): return self._f(*a, **k)
        if self._n not in _NP: raise Unsupported('numpy.%s of symbolic values' % self._n)
        try: return _NP[self._n](*a, **k)
        except (TypeError, AttributeError) as e: raise Unsupported('numpy.%s: %s' % (self._n, e))


def _np_attr(n):
    v = getattr(_np, n)
    return v if isinstance(v, (type, types.ModuleType)) or not callable(v) else _NpFunc(n, v)


numpy.__getattr__ = _np_attr
numpy.ndarray = NdShim
numpy.pi = tm.PI
for _n in ('sin', 'cos', 'sqrt'): setattr(numpy, _n, getattr(math, _n))
numpy.isfinite = lambda x: math.isfinite(x) if type(x) is T else _np.isfinite(x)
numpy.isinf = lambda x: math.isinf(x) if type(x) is T else _np.isinf(x)

# symtorch.tensor must accept SymArray
_orig_tensor = st.tensor


def _np_unwrap(data):
    if isinstance(data, SymArray): return data._t
    if isinstance(data, (list, tuple)) and any(isinstance(x, SymArray) for x in data):
        return type(data)(_np_unwrap(x) for x in data)
    return data


# ------------------------------------------------------------------ loader
_stub = lambda name: _StubModule(name)


class _StubModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return _Stub(self.__name__ + '.' + n)


class _Stub:
    def __init__(self, n): self._n = n
    def __call__(self, *a, **k): raise Unsupported('call of external %s' % self._n)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return _Stub(self._n + '.' + n)


class Loader:
    """one shadow copy of the package"""

    def __init__(self, transform=None):
        self.modules = {}
        self.torch = st.build_module()
        t0 = self.torch.tensor

        def tensor(data, *a, **k):
            r = _np_unwrap(data)
            if isinstance(data, SymArray):
                dt = k.get('dtype', a[0] if a else None)
                r = r.clone()
                return r.to(dtype=dt or r.dtype, device=k.get('device', 'cpu') or 'cpu')
            return t0(r, *a, **k)
        self.torch.tensor = tensor
        self.torch.as_tensor = lambda d, dtype=None, device=None: (tensor(d, dtype=dtype, device=device) if isinstance(d, SymArray) else st.as_tensor(_np_unwrap(d), dtype, device))
        self.torch.from_numpy = lambda a: a._t if isinstance(a, SymArray) else st.from_numpy(a)
        self.transform = transform
        self.externals = {}
        self.builtins = types.ModuleType('builtins')
        for n in dir(_b): setattr(self.builtins, n, getattr(_b, n))
        bi = self.builtins
        bi.__import__ = self.do_import
        bi.len = s_len; bi.range = s_range; bi.float = FloatShim; bi.int = IntShim
        bi.isinstance = s_isinstance; bi.abs = s_abs; bi.round = s_round; bi.print = s_print; bi.enumerate = s_enumerate
        self.sources = {}

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            base = pkg.split('.')
            if level > 1: base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
            top = None
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            for f in fromlist or ():
                if f != '*' and not hasattr(m, f):
                    try: setattr(m, f, self.load(name + '.' + f))
                    except ModuleNotFoundError: raise ImportError('cannot import name %r from %r' % (f, name))
            if fromlist or level: return m
            return self.load(name.split('.')[0])
        top = name.split('.')[0]
        if name in self.externals or top in self.externals:
            if fromlist:
                m = self.externals.get(name)
                if m is None:
                    m = self.externals[top]
                    for part in name.split('.')[1:]: m = getattr(m, part)
                return m
            return self.externals[top]
        if top == 'torch':
            m = self.torch
            if fromlist:
                for part in name.split('.')[1:]: m = getattr(m, part)
            return m
        if top == 'math': return math
        if top == 'numpy':
            if name != 'numpy': raise Unsupported('import of ' + name)
            return numpy
        if top == 'matplotlib':
            return _stub(name) if fromlist else _stub(top)
        if top == 'arm_pytorch_utilities':
            return _load_external(self, name, fromlist)
        if top == 'mujoco':
            m = sys.modules.get('mujoco') or __import__('mujoco')
            if fromlist:
                for part in name.split('.')[1:]: m = getattr(m, part)
            return m
        return _b.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        m = self.modules.get(name)
        if m is not None: return m
        rel = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            path = os.path.join(rel, '__init__.py'); ispkg = True
        elif os.path.exists(rel + '.py'):
            path = rel + '.py'; ispkg = False
        else:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if '.' in name: self.load(name.rsplit('.', 1)[0])
        if name in self.modules: return self.modules[name]
        return self.exec_file(name, path, ispkg)

    def exec_file(self, name, path, ispkg):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins.__dict__
        self.modules[name] = m
        with open(path, encoding='utf-8') as f: src = f.read()
        self.sources[name] = src
        try:
            import ast
            tree = ast.parse(src, path)
            if self.transform is not None: tree = self.transform(name, tree)
            code = compile(tree, path, 'exec')
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        if '.' in name:
            p, _, c = name.rpartition('.')
            if p in self.modules: setattr(self.modules[p], c, m)
        return m


def _load_external(ld, name, fromlist):
    """arm_pytorch_utilities.linalg is executed against the symbolic torch as well (real text)"""
    import importlib.util
    top = name.split('.')[0]
    spec = importlib.util.find_spec(top)
    root = os.path.dirname(spec.origin)

    def sub(n):
        if n in ld.modules: return ld.modules[n]
        p = os.path.join(root, *n.split('.')[1:])
        path = p + '.py'
        if not os.path.exists(path): raise Unsupported('external module ' + n)
        m = types.ModuleType(n)
        m.__file__ = path; m.__package__ = top
        m.__dict__['__builtins__'] = ld.builtins.__dict__
        ld.modules[n] = m
        with open(path) as f: exec(compile(f.read(), path, 'exec'), m.__dict__)
        return m
    if name == top:
        pk = types.ModuleType(top)
        for f in fromlist or (): setattr(pk, f, sub(top + '.' + f))
        return pk
    m = sub(name)
    return m


_default = [None]


def default_loader():
    if _default[0] is None:
        _default[0] = Loader()
    return _default[0]
