"""A symbolic implementation of the torch operations the library uses.

A Tensor is a (mutable) storage holding a function from index tuples to terms, or a view of
another Tensor.  Dimensions and indices may be symbolic, so one execution covers every batch
size.  Real torch dtypes and devices are carried as tags; values are mathematical reals.
"""
import builtins as _bi
import math as _math
import sys
from fractions import Fraction
import numpy as np
import torch as _rt
from . import terms as tm
from .terms import T, Unsupported, R, Bt, is_int

_state = {'world': None, 'grad': True, 'rand': 0}


def world(): return _state['world']


class SymSize(tuple):
    def numel(self):
        p = 1
        for d in self: p = tm.imul(p, d)
        return p

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return SymSize(r) if isinstance(k, slice) else r

    def __add__(self, o):
        return SymSize(tuple(self) + tuple(o))

    def __radd__(self, o):
        return SymSize(tuple(o) + tuple(self))

    def __eq__(self, o):
        if not isinstance(o, tuple): return False
        if len(self) != len(o): return False
        return _pall(bool(tm.ieq(_dim(a), _dim(b))) for a, b in zip(self, o))

    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None

    def __repr__(self): return 'torch.Size([%s])' % ', '.join(str(x) for x in self)


def _dim(x):
    if is_int(x): return x
    if isinstance(x, bool): return int(x)
    if isinstance(x, Tensor): return _dim(x.item())
    if hasattr(x, '__index__'):
        return x.__index__()
    raise TypeError('not a dimension: %r' % (x,))


def size_of(*args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)): args = args[0]
    return SymSize(_dim(a) for a in args)


def kind(dtype):
    if dtype == _rt.bool: return 'B'
    if dtype.is_floating_point: return 'R'
    if dtype.is_complex: raise Unsupported('complex tensors')
    return 'I'


def default_dtype(): return _rt.get_default_dtype()


def elem(x, k):
    """coerce a scalar to element kind k"""
    if k == 'R': return R(x)
    if k == 'B': return Bt(x)
    if isinstance(x, bool): return int(x)
    if is_int(x): return x
    if isinstance(x, float):
        if x != x or x in (_math.inf, -_math.inf): raise Unsupported('non-finite integer')
        return int(x)
    if type(x) is T:
        if x.sort == 'B': return tm.ite(x, 1, 0)
        if x.op == 'c': return int(x.args[0])
        if x.op == 'itor': return x.args[0]
    if hasattr(x, 'item'): return elem(x.item(), k)
    raise Unsupported('cannot store %r in an integer tensor' % (x,))


def conv(v, k_from, k_to):
    if k_from == k_to: return v
    return elem(v, k_to)


def sel(c, fa, fb):
    if c is tm.TRUE: return fa()
    if c is tm.FALSE: return fb()
    return ite_any(c, fa(), fb())


def ite_any(c, a, b):
    if c is tm.TRUE: return a
    if c is tm.FALSE: return b
    if not type(a) is T and not type(b) is T:
        if a == b: return a
        return tm.ite(c, a, b)
    return tm.ite(c, a, b)


def _ck(idx):
    return tuple([x._k if type(x) is T else x for x in idx])


def memo(f):
    cache = {}

    def g(idx):
        k = _ck(idx)
        r = cache.get(k)
        if r is None:
            r = f(idx)
            cache[k] = r
        return r
    return g


class Storage:
    __slots__ = ('fn', 'version', 'log')

    def __init__(self, fn):
        self.fn = memo(fn)
        self.version = 0


def lift_index(i, f):
    """apply f to an index that may be an if-then-else of integers"""
    if type(i) is T and len(i.args) == 1 and i.op == 'ip' and i.args[0][1] == 1 and len(i.args[0][0]) == 1:
        a = i.args[0][0][0]
        if a.op == 'iite':
            return sel(a.args[0], lambda: lift_index(a.args[1], f), lambda: lift_index(a.args[2], f))
    return f(i)


def pick(n, i, f):
    """f(int) selected by a possibly symbolic index in range(n)"""
    if isinstance(i, int): return f(i)

    def g(j):
        if isinstance(j, int): return f(j)
        acc = f(n - 1)
        for k in range(n - 2, -1, -1):
            acc = ite_any(tm.ieq(j, k), f(k), acc)
        return acc
    return lift_index(i, g)


class Tensor:
    _sym_tensor = True
    __slots__ = ('shape', 'dtype', 'device', 'requires_grad', 'st', 'base', 'fwd', 'inv', 'contig',
                 'masked', 'ghost_inv', 'grad', 'name', 'grad_fn', 'injective', '__weakref__')

    def __new__(cls, *a, **k):
        if a and not isinstance(a[0], _Raw):
            return tensor(*a, **k)
        return object.__new__(cls)

    def __init__(self, raw=None, *a, **k):
        pass

    # ------------------------------------------------------------ plumbing
    def _reader(self):
        if self.base is None: return self.st.fn
        g = self.base._reader(); fwd = self.fwd
        return lambda idx: g(fwd(idx))

    def _write(self, pred, val):
        if self.base is None:
            old = self.st.fn
            self.st.fn = memo(lambda idx: sel(pred(idx), lambda: val(idx), lambda: old(idx)))
            self.st.version += 1
            w = world()
            if w is not None: w.on_write(self)
            return
        if self.inv is None: raise Unsupported('write through a non-invertible view')
        inv = self.inv

        def p2(j):
            c, i = inv(j)
            if c is tm.FALSE: return tm.FALSE
            return tm.land(c, pred(i))
        self.base._write(p2, lambda j: val(inv(j)[1]))

    def _root(self):
        t = self
        while t.base is not None: t = t.base
        return t

    @property
    def _k(self): return kind(self.dtype)

    def at(self, *idx):
        return self._reader()(tuple(idx))

    @property
    def _version(self): return self._root().st.version

    # ------------------------------------------------------------ metadata
    @property
    def ndim(self): return len(self.shape)

    def dim(self): return len(self.shape)
    ndimension = dim

    def size(self, d=None):
        if d is None: return self.shape
        return self.shape[d]

    def numel(self): return self.shape.numel()
    nelement = numel

    def __len__(self):
        d = self.sym_len()
        if isinstance(d, int): return d
        raise Unsupported('len() of a symbolic dimension')

    def sym_len(self):
        if not self.shape: raise TypeError('len() of a 0-d tensor')
        return self.shape[0]

    @property
    def is_cuda(self): return self.device.type == 'cuda'

    @property
    def T(self): return permute(self, tuple(reversed(range(self.ndim))))

    @property
    def mT(self): return transpose(self, -1, -2)

    @property
    def is_leaf(self): return self.grad_fn is None

    @property
    def data(self): return self.detach()

    def is_floating_point(self): return self.dtype.is_floating_point

    def is_contiguous(self, *a, **k): return self.contig

    def get_device(self): return -1 if self.device.type == 'cpu' else (self.device.index or 0)

    def type(self, dtype=None):
        if dtype is None: return 'torch.FloatTensor'
        return self.to(dtype)

    def stride(self, *a): raise Unsupported('stride')

    # ------------------------------------------------------------ python protocol
    def _lazy_iter(self, n):
        i = 0
        while bool(tm.ilt(i, n)):
            yield self[i]
            i += 1

    def __iter__(self):
        if not self.shape: raise TypeError('iteration over a 0-d tensor')
        n = self.shape[0]
        if not isinstance(n, int):
            h = getattr(world(), 'iter_hook', None)
            g = h(self, sys._getframe(1)) if h is not None else None
            return self._lazy_iter(n) if g is None else g
        return iter([self[i] for i in range(n)])

    def _scalar(self):
        for d in self.shape:
            if not bool(tm.ieq(d, 1)):
                raise RuntimeError('a Tensor with %s elements cannot be converted to Scalar' % (self.numel(),))
        return self._reader()((0,) * self.ndim)

    def item(self): return self._scalar()

    def __bool__(self):
        v = self._scalar()
        return bool(Bt(v))

    def __float__(self): return float(self._scalar())
    def __int__(self): return int(self._scalar())

    def __index__(self):
        v = self._scalar()
        if isinstance(v, int): return v
        if type(v) is T: return v.__index__()
        raise TypeError('only integer tensors can be converted to an index')

    def tolist(self):
        r = self._reader()

        def go(pre, dims):
            if not dims: return r(pre)
            if not isinstance(dims[0], int): raise Unsupported('tolist of a symbolic dimension')
            return [go(pre + (i,), dims[1:]) for i in range(dims[0])]
        return go((), tuple(self.shape))

    def numpy(self): raise Unsupported('numpy()')

    def __array__(self, *a, **k): raise Unsupported('numpy conversion')

    def __repr__(self): return 'symtensor(shape=%s, dtype=%s)' % (tuple(self.shape), self.dtype)

    def __format__(self, spec): return repr(self)
    def __hash__(self): return id(self)

    def __deepcopy__(self, m):
        r = self.clone()
        r.requires_grad = self.requires_grad
        r.ghost_inv = self.ghost_inv
        m[id(self)] = r
        return r

    def __contains__(self, x): return bool((self == x).any())

    # ------------------------------------------------------------ arithmetic
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return floor_divide(self, o)
    def __mod__(self, o): return remainder(self, o)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs(self)
    def __pow__(self, o): return pow(self, o)
    def __rpow__(self, o): return pow(o, self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return gt(self, o)
    def __ge__(self, o): return ge(self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return eq(self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return ne(self, o)

    def __and__(self, o): return logical_and(self, o)
    __rand__ = __and__
    def __or__(self, o): return logical_or(self, o)
    __ror__ = __or__
    def __xor__(self, o): return logical_xor(self, o)
    __rxor__ = __xor__
    def __invert__(self): return logical_not(self)

    def _inplace(self, r):
        if not isinstance(r, Tensor): r = tensor(r, dtype=self.dtype, device=self.device)
        if kind(r.dtype) == 'R' and self._k != 'R':
            raise RuntimeError("result type Float can't be cast to the desired output type")
        _check_expand(r.shape, self.shape)
        _assign_all(self, r)
        return self

    def __iadd__(self, o): return self._inplace(add(self, o))
    def __isub__(self, o): return self._inplace(sub(self, o))
    def __imul__(self, o): return self._inplace(mul(self, o))
    def __itruediv__(self, o): return self._inplace(div(self, o))
    def __iand__(self, o): return self._inplace(logical_and(self, o))
    def __ior__(self, o): return self._inplace(logical_or(self, o))
    def __ipow__(self, o): return self._inplace(pow(self, o))

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key): return getitem(self, key)

    def __setitem__(self, key, v): setitem(self, key, v)

    # ------------------------------------------------------------ conversion
    def to(self, *args, **kw):
        dtype = kw.get('dtype'); device = kw.get('device'); copy = kw.get('copy', False)
        for a in args:
            if isinstance(a, _rt.dtype): dtype = a
            elif isinstance(a, Tensor): dtype, device = a.dtype, a.device
            elif isinstance(a, (str, _rt.device)): device = a
            elif isinstance(a, bool): pass
            elif a is None: pass
            else: raise Unsupported('to(%r)' % (a,))
        dtype = dtype or self.dtype
        device = _rt.device(device) if device is not None else self.device
        if dtype == self.dtype and device == self.device and not copy: return self
        narrowing(self, dtype, 'to')
        k0, k1 = self._k, kind(dtype)
        if k0 == 'R' and k1 == 'I':
            rd = self._reader()
            def f(idx):
                v = rd(idx)
                if v.op == 'c': return int(v.args[0])
                if v.op == 'itor': return v.args[0]
                raise Unsupported('float to int conversion of a symbolic value')
            r = new(f, self.shape, dtype, device)
        else:
            rd = self._reader()
            r = new(lambda idx: conv(rd(idx), k0, k1), self.shape, dtype, device)
        r.requires_grad = self.requires_grad and dtype.is_floating_point
        r.grad_fn = self.grad_fn or (self if self.requires_grad else None)
        r.ghost_inv = self.ghost_inv
        return r

    def type_as(self, o): return self.to(dtype=o.dtype, device=o.device)
    def float(self): return self.to(_rt.float32)
    def double(self): return self.to(_rt.float64)
    def half(self): return self.to(_rt.float16)
    def long(self): return self.to(_rt.int64)
    def int(self): return self.to(_rt.int32)
    def bool(self):
        if self._k == 'B': return self
        return ne(self, 0)
    def cpu(self): return self.to(device='cpu')
    def cuda(self, *a, **k): return self.to(device='cuda')

    def clone(self, *a, **k):
        rd = self._reader()
        r = new(rd, self.shape, self.dtype, self.device)
        _g(r, self)
        r.masked = self.masked
        r.ghost_inv = self.ghost_inv
        return r

    def contiguous(self, *a, **k): return self if self.contig else self.clone()

    def detach(self):
        r = _view(self, self.shape, lambda i: i, lambda j: (tm.TRUE, j), self.contig)
        r.requires_grad = False
        r.grad_fn = None
        r.ghost_inv = self.ghost_inv
        return r

    def detach_(self):
        self.requires_grad = False; self.grad_fn = None
        return self

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def backward(self, *a, **k): raise Unsupported('backward()')

    def new_zeros(self, *s, **k): return full(size_of(*s), 0, **_likek(self, k))
    def new_ones(self, *s, **k): return full(size_of(*s), 1, **_likek(self, k))
    def new_empty(self, *s, **k): return empty(size_of(*s), **_likek(self, k))
    def new_full(self, s, v, **k): return full(size_of(s), v, **_likek(self, k))
    def new_tensor(self, data, **k): return tensor(data, **_likek(self, k))

    def fill_(self, v): return self._inplace(full((), v, dtype=self.dtype, device=self.device))
    def zero_(self): return self.fill_(0)
    def copy_(self, o, *a): return self._inplace(o)
    def add_(self, o, alpha=1): return self._inplace(add(self, o, alpha=alpha))
    def sub_(self, o, alpha=1): return self._inplace(sub(self, o, alpha=alpha))
    def mul_(self, o): return self._inplace(mul(self, o))
    def div_(self, o): return self._inplace(div(self, o))
    def neg_(self): return self._inplace(neg(self))
    def clamp_(self, min=None, max=None): return self._inplace(clamp(self, min, max))
    def masked_fill_(self, m, v): return self._inplace(where(m, v, self))
    def abs_(self): return self._inplace(abs(self))
    def sqrt_(self): return self._inplace(sqrt(self))
    def pow_(self, n): return self._inplace(pow(self, n))
    def clamp_min_(self, m): return self._inplace(clamp(self, min=m))
    def clamp_max_(self, m): return self._inplace(clamp(self, max=m))
    def lerp_(self, b, w): return self._inplace(lerp(self, b, w))
    def index_put_(self, idx, v, accumulate=False):
        if accumulate: raise Unsupported('index_put_ with accumulation')
        self[tuple(idx)] = v
        return self
    def index_copy_(self, dim, index, v):
        self[(slice(None),) * (dim % self.ndim) + (index,)] = v
        return self
    index_fill_ = index_copy_
    def fill_diagonal_(self, v): return self._inplace(where(eye(self.shape[-1], dtype=_rt.bool), v, self))

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], _rt.dtype): raise Unsupported('view(dtype)')
        return view(self, *s)

    def unflatten(self, dim, sizes):
        d = dim % self.ndim
        return self.reshape(tuple(self.shape[:d]) + tuple(sizes) + tuple(self.shape[d + 1:]))

    def repeat(self, *s): return repeat(self, size_of(*s))
    def expand(self, *s): return expand(self, size_of2(*s))
    def expand_as(self, o): return expand(self, o.shape)
    def view_as(self, o): return view(self, o.shape)
    def reshape_as(self, o): return reshape(self, o.shape)
    def reshape(self, *s): return reshape(self, *s)
    def permute(self, *d): return permute(self, d[0] if len(d) == 1 and isinstance(d[0], (tuple, list)) else d)
    def apply_(self, f): raise Unsupported('apply_')

    def __getattr__(self, name):
        # method forms of module-level functions
        f = _METHODS.get(name)
        if f is None:
            if name.startswith('__'): raise AttributeError(name)
            if hasattr(_rt.Tensor, name): raise Unsupported('Tensor.%s' % name)
            raise AttributeError(name)
        return lambda *a, **k: f(self, *a, **k)


class _Raw: pass


_RAW = _Raw()


def size_of2(*args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)): args = args[0]
    return tuple(_dim(a) for a in args)


def _mk(shape, dtype, device):
    t = object.__new__(Tensor)
    t.shape = SymSize(shape); t.dtype = dtype
    t.device = _rt.device(device) if device is not None else _rt.device('cpu')
    t.requires_grad = False; t.st = None; t.base = None; t.fwd = None; t.inv = None
    t.contig = True; t.masked = None; t.ghost_inv = None; t.grad = None; t.name = None; t.grad_fn = None
    t.injective = None
    return t


def new(fn, shape, dtype, device):
    t = _mk(shape, dtype, device)
    t.st = Storage(fn)
    return t


def _view(b, shape, fwd, inv, contig):
    t = _mk(shape, b.dtype, b.device)
    t.base = b; t.fwd = fwd; t.inv = inv; t.contig = contig
    t.requires_grad = b.requires_grad and _state['grad']
    t.grad_fn = b.grad_fn or (b if b.requires_grad else None)
    return t


def _g(r, *ops):
    """gradient bookkeeping: result requires grad if an operand does"""
    if _state['grad'] and r.dtype.is_floating_point:
        for o in ops:
            if isinstance(o, Tensor) and o.requires_grad:
                r.requires_grad = True; r.grad_fn = ops
                break
    return r


def _likek(x, k):
    k = dict(k)
    if k.get('dtype') is None: k['dtype'] = x.dtype
    if k.get('device') is None: k['device'] = x.device
    return k


# ------------------------------------------------------------------ creation
def _np_kind(a):
    if a.dtype == np.bool_: return _rt.bool
    if np.issubdtype(a.dtype, np.integer): return _rt.int64
    return _rt.float64 if a.dtype == np.float64 else _rt.float32


def tensor(data, dtype=None, device=None, requires_grad=False, **kw):
    if isinstance(data, Tensor):
        r = data.clone().detach()
        r = r.to(dtype=dtype or data.dtype, device=device or data.device)
        r.requires_grad = requires_grad
        return r
    if isinstance(data, _rt.Tensor): data = data.tolist()
    if hasattr(data, 'sym_tensor'):          # symbolic ndarray
        r = data.sym_tensor.clone().to(dtype=dtype or data.sym_tensor.dtype, device=device or 'cpu')
        r.requires_grad = requires_grad
        return r
    if isinstance(data, (np.ndarray, np.generic)):
        dtype = dtype or _np_kind(data)
        if isinstance(data, np.ndarray) and data.dtype != object: data = data.tolist()
        elif isinstance(data, np.generic): data = data.item()
    flat = {}

    def shape_of(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 0: return (0,)
            s = shape_of(x[0])
            for y in x[1:]:
                if tuple(shape_of(y)) != tuple(s):
                    raise ValueError('expected sequence of equal length')
            return (len(x),) + tuple(s)
        if isinstance(x, np.ndarray): return tuple(x.shape) if x.ndim else ()
        if isinstance(x, Tensor):
            return tuple(x.shape)
        if hasattr(x, 'sym_tensor'): return tuple(x.sym_tensor.shape)
        if x is None: raise TypeError('must be real number, not NoneType')
        if isinstance(x, str): raise TypeError("new(): invalid data type 'str'")
        return ()
    shape = shape_of(data)
    leaves = []

    def get(x, idx):
        for i in idx:
            x = x[i]
        if isinstance(x, Tensor): x = x._scalar()
        return x

    def scan(x):
        if isinstance(x, (list, tuple)):
            for y in x: scan(y)
        elif isinstance(x, np.ndarray):
            for y in x.reshape(-1): leaves.append(y)
        elif isinstance(x, Tensor):
            leaves.append(x)
        else: leaves.append(x)
    scan(data)
    if dtype is None:
        ks = set()
        for x in leaves:
            if isinstance(x, Tensor): ks.add('f64' if x.dtype == _rt.float64 else x._k)
            elif isinstance(x, (bool, np.bool_)) or (type(x) is T and x.sort == 'B'): ks.add('B')
            elif is_int(x) or isinstance(x, np.integer): ks.add('I')
            elif isinstance(x, np.float64) and not isinstance(x, float): ks.add('R')
            else: ks.add('R')
        dtype = _rt.bool if ks == {'B'} else _rt.int64 if ks and ks <= {'B', 'I'} else default_dtype()
    k = kind(dtype)
    if dtype in _BITS and dtype != _rt.float64 and world() is not None:
        for x in leaves:
            if isinstance(x, Tensor): narrowing(x, dtype, 'tensor()')
            elif isinstance(x, (float, T)) and not isinstance(x, bool) and not _representable(elem(x, 'R'), _BITS[dtype]): world().on_narrow('tensor()', 'python number', str(dtype)); break
    if _pany(not isinstance(s, int) for s in shape): raise Unsupported('tensor() of symbolic-size data')

    def conv_leaf(x):
        if isinstance(x, Tensor): x = x._scalar()
        if k == 'I' and type(x) is T and x.sort == 'R' and x.op not in ('c', 'itor'):
            raise Unsupported('float to int conversion')
        return elem(x, k)

    def fn(idx):
        def go(x, ii):
            if not ii:
                return conv_leaf(x)
            if isinstance(x, Tensor): return conv(x.at(*ii), x._k, k)
            return pick(len(x), ii[0], lambda i: go(x[i], ii[1:]))
        return go(data_c, idx)
    data_c = _freeze(data)
    r = new(fn, shape, dtype, device)
    r.requires_grad = requires_grad
    return r


def _freeze(x):
    if isinstance(x, (list, tuple)): return [_freeze(y) for y in x]
    if isinstance(x, Tensor): return x.clone()
    if isinstance(x, np.ndarray): return [_freeze(y) for y in x] if x.ndim else x.item()
    return x


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor): return data.to(dtype=dtype or data.dtype, device=device or data.device)
    return tensor(data, dtype=dtype, device=device)


def from_numpy(a): return tensor(a)


def full(size, v, dtype=None, device=None, requires_grad=False, **kw):
    if is_int(size): size = (size,)
    size = size_of(size)
    if isinstance(v, Tensor): v = v._scalar()
    if dtype is None:
        dtype = _rt.bool if isinstance(v, bool) else _rt.int64 if is_int(v) else default_dtype()
    e = elem(v, kind(dtype))
    r = new(lambda idx: e, size, dtype, device)
    r.requires_grad = requires_grad
    return r


def _fill(v):
    def f(*size, dtype=None, device=None, requires_grad=False, out=None, **kw):
        if 'size' in kw: size = (kw['size'],)
        return full(size_of(*size), v, dtype=dtype or default_dtype(), device=device, requires_grad=requires_grad)
    return f


zeros = _fill(0)
ones = _fill(1)


def empty(*size, dtype=None, device=None, **kw):
    """uninitialised memory: arbitrary values"""
    dtype = dtype or default_dtype()
    size = size_of(*size)
    nm = tm.fresh_name('uninit')
    k = kind(dtype)
    mkf = {'R': tm.app, 'B': tm.bapp, 'I': tm.iapp}[k]
    return new(lambda idx: mkf(nm, idx), size, dtype, device)


def zeros_like(x, **k): return full(x.shape, 0, **_likek(x, k))
def ones_like(x, **k): return full(x.shape, 1, **_likek(x, k))
def empty_like(x, **k):
    k.pop('memory_format', None)
    return empty(x.shape, **_likek(x, k))
def full_like(x, v, **k): return full(x.shape, v, **_likek(x, k))


def eye(n, m=None, dtype=None, device=None, requires_grad=False, **kw):
    m = n if m is None else m
    dtype = dtype or default_dtype()
    k = kind(dtype)
    return new(lambda idx: elem(tm.ieq(idx[0], idx[1]), k) if k != 'R' else tm.ite(tm.ieq(idx[0], idx[1]), tm.ONE, tm.ZERO),
               (n, m), dtype, device)


def arange(*a, dtype=None, device=None, **kw):
    start, end, step = 0, None, 1
    if len(a) == 1: end = a[0]
    elif len(a) == 2: start, end = a
    else: start, end, step = a
    if not (is_int(start) and is_int(end) and is_int(step)): raise Unsupported('float arange')
    n = tm.isub(end, start) if step == 1 else (len(range(start, end, step)) if isinstance(end, int) else None)
    if n is None: raise Unsupported('arange')
    dtype = dtype or _rt.int64
    k = kind(dtype)
    return new(lambda idx: elem(tm.iadd(start, tm.imul(step, idx[0])), k), (n,), dtype, device)


def linspace(a, b, n, dtype=None, device=None, **kw):
    a, b = R(a), R(b)
    d = tm.div(tm.sub(b, a), R(n - 1)) if n > 1 else tm.ZERO
    return new(lambda idx: tm.add(a, tm.mul(R(idx[0]), d)), (n,), dtype or default_dtype(), device)


def _random(nm, facts=None):
    def f(*size, dtype=None, device=None, requires_grad=False, generator=None, **kw):
        size = size_of(*size) if size else size_of(kw['size'])
        n = tm.fresh_name(nm)
        w = world()
        if w is not None: w.on_random(n, nm, size)
        r = new(lambda idx: tm.app(n, idx), size, dtype or default_dtype(), device)
        r.requires_grad = requires_grad
        r.name = n
        return r
    return f


randn = _random('randn')
rand = _random('rand')


def randn_like(x, **k): return randn(x.shape, **_likek(x, k))
def rand_like(x, **k): return rand(x.shape, **_likek(x, k))


def manual_seed(*a): return None


# ------------------------------------------------------------------ broadcasting, dtype promotion
_rtc = {}


def result_type(*ops):
    key = []
    for o in ops:
        if isinstance(o, Tensor): key.append((o.dtype, o.ndim > 0))
        elif isinstance(o, (bool, np.bool_)) or (type(o) is T and o.sort == 'B'): key.append('b')
        elif is_int(o) or isinstance(o, np.integer): key.append('i')
        else: key.append('f')
    key = tuple(key)
    r = _rtc.get(key)
    if r is None:
        acc = None
        vals = []
        for k in key:
            if isinstance(k, tuple): vals.append(_rt.empty((1,) if k[1] else (), dtype=k[0]))
            else: vals.append({'b': True, 'i': 1, 'f': 1.0}[k])
        if len(vals) == 1: r = vals[0].dtype if isinstance(vals[0], _rt.Tensor) else _rt.tensor(vals[0]).dtype
        else:
            r = _rt.result_type(vals[0], vals[1])
            for i in range(2, len(vals)):
                dims = _pany(isinstance(v, _rt.Tensor) and v.ndim for v in vals[:i])
                r = _rt.result_type(_rt.empty((1,) if dims else (), dtype=r), vals[i])
        _rtc[key] = r
    return r


def _dev(*ops):
    d = None
    for o in ops:
        if isinstance(o, Tensor):
            if d is None or (o.ndim > 0 and d[1] == 0): 
                if d is not None and d[0] != o.device and not (d[1] == 0 and d[0].type == 'cpu'): _devfail()
                d = (o.device, o.ndim)
            elif o.device != d[0] and not (o.ndim == 0 and o.device.type == 'cpu'):
                _devfail()
    return d[0] if d else _rt.device('cpu')


def _devfail():
    raise RuntimeError('Expected all tensors to be on the same device')


def bdim(a, b):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b): return a
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    if isinstance(a, int) and isinstance(b, int):
        raise RuntimeError('The size of tensor a (%s) must match the size of tensor b (%s)' % (a, b))
    if bool(tm.ieq(a, b)): return b if isinstance(b, int) else a
    if bool(tm.ieq(a, 1)): return b
    if bool(tm.ieq(b, 1)): return a
    raise RuntimeError('The size of tensor a (%s) must match the size of tensor b (%s)' % (a, b))


def broadcast_shapes(*shapes):
    n = _bi.max((len(s) for s in shapes), default=0)
    out = []
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j >= 0: d = bdim(d, s[j])
        out.append(d)
    return SymSize(out)


def _is1(d):
    if isinstance(d, int): return d == 1
    return False


def _bread(x, shape):
    """reader of x broadcast to shape"""
    rd = x._reader()
    if len(x.shape) == len(shape) and _pall((a is b) or (isinstance(a, int) and isinstance(b, int) and a == b) for a, b in zip(x.shape, shape)):
        return rd
    off = len(shape) - len(x.shape)
    ones_ = []
    for i, d in enumerate(x.shape):
        td = shape[off + i]
        if isinstance(d, int) and d == 1: ones_.append(True)
        elif d is td or (isinstance(d, int) and isinstance(td, int)): ones_.append(False)
        else:
            # symbolic: equal or one on this path
            if bool(tm.ieq(d, td)): ones_.append(False)
            elif bool(tm.ieq(d, 1)): ones_.append(True)
            else: raise RuntimeError('broadcast mismatch')
    return lambda idx: rd(tuple([0 if o else i for o, i in zip(ones_, idx[off:])]))


def _check_expand(src, dst):
    s = broadcast_shapes(src, dst)
    if len(src) > len(dst):
        extra = src[:len(src) - len(dst)]
        if _pany(not _is1(d) for d in extra): raise RuntimeError('shape mismatch in assignment')


def _sc(x):
    """python scalar / T operand -> element and kind"""
    if isinstance(x, (bool, np.bool_)): return Bt(bool(x)), 'B'
    if type(x) is T: return x, x.sort
    if isinstance(x, (int, np.integer)): return int(x), 'I'
    return R(x), 'R'


def ew(f, ops, out_dtype=None, in_kind=None, keepdt=False):
    """elementwise operation. f takes element terms of kind in_kind"""
    ops = [o.sym_tensor if hasattr(o, 'sym_tensor') else o for o in ops]
    ops = [tensor(o) if isinstance(o, np.ndarray) else o for o in ops]
    ts = [o for o in ops if isinstance(o, Tensor)]
    shape = broadcast_shapes(*[t.shape for t in ts])
    dev = _dev(*ts)
    dt = out_dtype or result_type(*ops)
    k = in_kind or kind(dt)
    readers = []
    for o in ops:
        if isinstance(o, Tensor):
            readers.append((_bread(o, shape), o._k))
        else:
            e, ek = _sc(o)
            readers.append(((lambda idx, e=e: e), ek))

    def fn(idx):
        return f(*[conv(r(idx), kk, k) for r, kk in readers])
    r = new(fn, shape, dt, dev)
    m = _merge_masked(f, ops, shape, k)
    if m is not None: r.masked = m
    _g(r, *ts)
    return r


def _merge_masked(f, ops, shape, k):
    ms = [o for o in ops if isinstance(o, Tensor) and o.masked is not None]
    if not ms: return None
    m0 = ms[0].masked
    rd = []
    nd = ms[0].ndim
    for o in ops:
        if not isinstance(o, Tensor):
            e, ek = _sc(o)
            rd.append(((lambda idx, e=e: e), ek)); continue
        if o.masked is not None:
            if o.masked['key'] != m0['key'] or o.ndim != nd: return None
            rd.append((o.masked['full'], o._k)); continue
        # ordinary operand: must be broadcast (size 1 / absent) along the masked dimension
        off = nd - o.ndim
        if off < 0: return None
        p = m0['pos'] - off
        if p >= 0 and not _is1(o.shape[p]): return None
        kk = m0['k']
        g = o._reader()
        oshape = o.shape

        def h(idx, g=g, off=off, p=m0['pos'], kk=kk, oshape=oshape):
            red = idx[:p] + (0,) + idx[p + kk:]
            red = red[off:]
            return g(tuple(0 if _is1(d) else i for d, i in zip(oshape, red)))
        rd.append((h, o._k))
    return dict(m0, full=memo(lambda idx: f(*[conv(r(idx), kk2, k) for r, kk2 in rd])))


_BITS = {_rt.float64: 52, _rt.float32: 23, _rt.float16: 10, _rt.bfloat16: 7}


def _representable(v, bits):
    if not (type(v) is T and v.op == 'c'): return type(v) is T and v.op in ('inf', 'nan', 'itor')
    d = v.args[0].denominator
    return d & (d - 1) == 0 and _bi.abs(v.args[0].numerator).bit_length() <= bits + 1


def narrowing(src, dtype, what):
    """a conversion to a less precise floating type of values that are not exactly representable there is an event"""
    w = world()
    if w is None or not (src.dtype in _BITS and dtype in _BITS) or _BITS[dtype] >= _BITS[src.dtype]: return
    rd = src._reader()
    ix = tuple(0 if isinstance(d, int) else tm.ivar('any', 0, d) for d in src.shape)
    import itertools
    dims = [range(d) if isinstance(d, int) else [ix[k]] for k, d in enumerate(src.shape)]
    for i in itertools.islice(itertools.product(*dims), 64):
        if not _representable(rd(tuple(i)), _BITS[dtype]):
            w.on_narrow(what, str(src.dtype), str(dtype))
            return


def _assign_all(dst, src):
    narrowing(src, dst.dtype, 'assignment')
    rd = _bread_to(src, dst.shape)
    k0, k1 = src._k, dst._k
    dst._write(lambda idx: tm.TRUE, lambda idx: conv(rd(idx), k0, k1))
    if dst.masked is not None:
        dst.masked = src.masked


def _bread_to(src, shape):
    """broadcast reader allowing extra leading 1-dims on src"""
    while len(src.shape) > len(shape):
        src = src[0]
    return _bread(src, shape)


# ------------------------------------------------------------------ elementwise functions
def _float_dt(*ops):
    dt = result_type(*ops)
    return dt if dt.is_floating_point else default_dtype()


def _scale_alpha(o, alpha):
    if isinstance(alpha, (int, float)) and alpha == 1: return o
    return mul(o, alpha)


def _arith(fr, fi):
    def op(a, b):
        dt = result_type(a, b)
        k = kind(dt)
        if k == 'B':
            raise Unsupported('arithmetic on booleans') if fi is None else None
        return dt, k
    return op


def add(a, b, alpha=1, out=None):
    b = _scale_alpha(b, alpha) if not (isinstance(alpha, int) and alpha == 1) else b
    dt = result_type(a, b)
    k = kind(dt)
    if k == 'B': return ew(lambda x, y: tm.lor(x, y), (a, b), dt)
    return ew(tm.add if k == 'R' else tm.iadd, (a, b), dt)


def sub(a, b, alpha=1, out=None):
    b = _scale_alpha(b, alpha) if not (isinstance(alpha, int) and alpha == 1) else b
    dt = result_type(a, b)
    k = kind(dt)
    if k == 'B': raise RuntimeError('Subtraction, the `-` operator, with two bool tensors is not supported')
    return ew(tm.sub if k == 'R' else tm.isub, (a, b), dt)


subtract = sub


def rsub(a, b): return sub(b, a)


def mul(a, b, out=None):
    dt = result_type(a, b)
    k = kind(dt)
    if k == 'B': return ew(lambda x, y: tm.land(x, y), (a, b), dt)
    return ew(tm.mul if k == 'R' else tm.imul, (a, b), dt)


multiply = mul


def div(a, b, rounding_mode=None, out=None):
    dt = _float_dt(a, b)
    if rounding_mode == 'floor': return floor_divide(a, b)
    if rounding_mode is not None: raise Unsupported('rounding_mode')
    return ew(tm.div, (a, b), dt, 'R')


divide = true_divide = div


def floor_divide(a, b):
    dt = result_type(a, b)
    if kind(dt) == 'I': return ew(tm.idiv, (a, b), dt)
    return ew(lambda x, y: tm.fn('floor', tm.div(x, y)), (a, b), dt)


def remainder(a, b):
    dt = result_type(a, b)
    if kind(dt) == 'I': return ew(tm.imod, (a, b), dt)
    return ew(lambda x, y: tm.sub(x, tm.mul(y, tm.fn('floor', tm.div(x, y)))), (a, b), dt)


def neg(a): return ew(tm.neg if a._k == 'R' else (lambda x: tm.imul(-1, x)), (a,), a.dtype)


negative = neg


def _unary(f):
    def op(a, out=None):
        if not isinstance(a, Tensor): a = tensor(a)
        return ew(f, (a,), _float_dt(a), 'R')
    return op


sqrt = _unary(lambda x: tm.fn('sqrt', x))
rsqrt = _unary(lambda x: tm.div(tm.ONE, tm.fn('sqrt', x)))
sin = _unary(lambda x: tm.fn('sin', x))
cos = _unary(lambda x: tm.fn('cos', x))
tan = _unary(lambda x: tm.fn('tan', x))
acos = arccos = _unary(lambda x: tm.fn('acos', x))
asin = arcsin = _unary(lambda x: tm.fn('asin', x))
atan = arctan = _unary(lambda x: tm.fn('atan2', x, tm.ONE))
reciprocal = _unary(lambda x: tm.div(tm.ONE, x))
deg2rad = _unary(lambda x: tm.mul(x, tm.div(tm.PI, R(180))))
rad2deg = _unary(lambda x: tm.mul(x, tm.div(R(180), tm.PI)))
sinc = _unary(lambda x: tm.ite(tm.eq(x, tm.ZERO), tm.ONE, tm.div(tm.fn('sin', tm.mul(tm.PI, x)), tm.mul(tm.PI, x))))


def round(a, decimals=0): return ew(lambda x: tm.fn('round', x), (a,), a.dtype) if a._k == 'R' else a.clone()
def floor(a): return ew(lambda x: tm.fn('floor', x), (a,), a.dtype) if a._k == 'R' else a.clone()
def ceil(a): return ew(lambda x: tm.neg(tm.fn('floor', tm.neg(x))), (a,), a.dtype) if a._k == 'R' else a.clone()


def square(a): return ew(lambda x: tm.mul(x, x), (a,), a.dtype)


def abs(a):
    if a._k == 'R': return ew(tm.absr, (a,), a.dtype)
    return ew(lambda x: x if tm.prove_nonneg(x) else tm.ite(tm.ilt(x, 0), tm.imul(-1, x), x), (a,), a.dtype)


absolute = abs


def sign(a): return ew(tm.signr, (a,), a.dtype)


sgn = sign


def copysign(a, b):
    b_ = b
    return ew(lambda x, y: tm.ite(tm.lt(y, tm.ZERO), tm.neg(tm.absr(x)), tm.absr(x)), (a, b_), _float_dt(a, b_))


def atan2(a, b): return ew(lambda y, x: tm.fn('atan2', y, x), (a, b), _float_dt(a, b), 'R')


arctan2 = atan2


def hypot(a, b): return ew(lambda y, x: tm.fn('sqrt', tm.add(tm.mul(x, x), tm.mul(y, y))), (a, b), _float_dt(a, b), 'R')


def pow(a, n):
    if isinstance(n, Tensor): raise Unsupported('tensor exponent')
    if not isinstance(a, Tensor): raise Unsupported('pow')
    if isinstance(n, float) and n == int(n): n = int(n)
    if isinstance(n, int):
        if a._k == 'R': return ew(lambda x: tm.power(x, n), (a,), a.dtype)
        if n >= 0:
            r = ones_like(a)
            for _ in range(n): r = r * a
            return r
    if n == 0.5: return sqrt(a)
    if n == -0.5: return rsqrt(a)
    raise Unsupported('pow exponent %r' % (n,))


def float_power(a, n): return pow(a.double(), n)


def clamp(a, min=None, max=None, out=None):
    r = a
    if min is not None: r = _max2(r, min, a)
    if max is not None: r = _min2(r, max, a)
    if r is a: raise ValueError("torch.clamp: At least one of 'min' or 'max' must not be None")
    return r


clip = clamp


def _max2(a, b, like=None):
    dt = result_type(a, b)
    k = kind(dt)
    return ew(tm.maxr if k == 'R' else (lambda x, y: ite_any(tm.ilt(x, y), y, x)), (a, b), dt)


def _min2(a, b, like=None):
    dt = result_type(a, b)
    k = kind(dt)
    return ew(tm.minr if k == 'R' else (lambda x, y: ite_any(tm.ilt(y, x), y, x)), (a, b), dt)


maximum = _max2
minimum = _min2
fmax = _max2
fmin = _min2


def clamp_min(a, m): return clamp(a, min=m)
def clamp_max(a, m): return clamp(a, max=m)


def relu(a): return clamp(a, min=0)


def where(c, a=None, b=None):
    if a is None: raise Unsupported('where(cond) indices')
    if not isinstance(c, Tensor): c = tensor(c)
    ab = [a, b]
    dt = result_type(a, b)
    k = kind(dt)
    ts = [o for o in (c, a, b) if isinstance(o, Tensor)]
    shape = broadcast_shapes(*[t.shape for t in ts])
    _dev(*ts)
    rc = _bread(c, shape)
    rs = []
    for o in ab:
        if isinstance(o, Tensor): rs.append((_bread(o, shape), o._k))
        else:
            e, ek = _sc(o)
            rs.append(((lambda idx, e=e: e), ek))
    (ra, ka), (rb, kb) = rs

    def fn(idx):
        return sel(Bt(rc(idx)), lambda: conv(ra(idx), ka, k), lambda: conv(rb(idx), kb, k))
    return _g(new(fn, shape, dt, _dev(*ts)), *[o for o in ab if isinstance(o, Tensor)])


def _compare(fr, fi):
    def op(a, b):
        if not isinstance(a, Tensor): a = tensor(a)
        dt = result_type(a, b)
        k = kind(dt)
        if k == 'B':
            if fr is tm.eq: return ew(lambda x, y: tm.lor(tm.land(x, y), tm.land(tm.lnot(x), tm.lnot(y))), (a, b), _rt.bool, 'B')
            k = 'I'
        return ew(fr if k == 'R' else fi, (a, b), _rt.bool, k)
    return op


lt = less = _compare(tm.lt, tm.ilt)
le = less_equal = _compare(tm.le, tm.ile)
gt = greater = _compare(lambda a, b: tm.lt(b, a), lambda a, b: tm.ilt(b, a))
ge = greater_equal = _compare(lambda a, b: tm.le(b, a), lambda a, b: tm.ile(b, a))
eq = _compare(tm.eq, tm.ieq)


def ne(a, b): return logical_not(eq(a, b))


not_equal = ne


def _log(f):
    def op(a, b):
        if isinstance(a, Tensor) and isinstance(b, Tensor) and (a._k == 'I' and b._k == 'I'): raise Unsupported('bitwise')
        return ew(f, (a, b), _rt.bool, 'B')
    return op


logical_and = bitwise_and = _log(lambda x, y: tm.land(x, y))
logical_or = bitwise_or = _log(lambda x, y: tm.lor(x, y))
logical_xor = bitwise_xor = _log(lambda x, y: tm.lor(tm.land(x, tm.lnot(y)), tm.land(tm.lnot(x), y)))


def logical_not(a): return ew(tm.lnot, (a,), _rt.bool, 'B')


bitwise_not = logical_not


def isnan(a): return ew(tm.isnan, (a,), _rt.bool, 'R')
def isfinite(a): return ew(tm.isfinite, (a,), _rt.bool, 'R')
def isinf(a): return ew(lambda x: tm.land(tm.lnot(tm.isfinite(x)), tm.lnot(tm.isnan(x))), (a,), _rt.bool, 'R')


def nan_to_num(a, nan=0.0, posinf=None, neginf=None):
    return ew(lambda x: tm.ite(tm.isnan(x), R(nan), x), (a,), a.dtype)


def lerp(a, b, w): return a + w * (b - a)
def addcmul(a, b, c, value=1): return a + value * b * c


def masked_fill(a, m, v): return where(m, v, a)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return le(abs(sub(a, b)), add(mul(abs(b), rtol), atol))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False): return bool(isclose(a, b, rtol, atol).all())


def equal(a, b):
    if a.ndim != b.ndim: return False
    if a.shape != b.shape: return False
    return bool(eq(a, b).all())


# ------------------------------------------------------------------ reductions
def _dims(x, dim):
    if dim is None: return tuple(range(x.ndim))
    if isinstance(dim, int): dim = (dim,)
    return tuple(sorted(d % x.ndim if x.ndim else 0 for d in dim))


def _norm_dim(d, n):
    if not -n <= d < n: raise IndexError('Dimension out of range (expected to be in range of [%d, %d], but got %d)' % (-n, n - 1, d))
    return d % n


def reduce_(x, dims, keepdim, combine, dtype, in_kind=None):
    """combine(dim, f): fold over one dimension"""
    if x.ndim == 0:
        rd0 = x._reader()
        return new(lambda idx: conv(rd0(()), x._k, in_kind or x._k), (), dtype, x.device)
    dims = tuple(sorted(_norm_dim(d, x.ndim) for d in dims))
    shape = x.shape
    rd = x._reader()
    kin = in_kind or x._k
    out_shape = [1 if i in dims else d for i, d in enumerate(shape)] if keepdim else [d for i, d in enumerate(shape) if i not in dims]

    def fn(idx):
        if keepdim: base = list(idx)
        else:
            it = iter(idx)
            base = [None if i in dims else next(it) for i in range(len(shape))]

        def go(k, cur):
            if k == len(dims): return conv(rd(tuple(cur)), x._k, kin)
            d = dims[k]

            def f(i):
                c2 = list(cur); c2[d] = i
                return go(k + 1, c2)
            return combine(shape[d], f)
        return go(0, base)
    return _g(new(fn, out_shape, dtype, x.device), x)


def isum(n, f):
    if isinstance(n, int):
        acc = 0
        for i in range(n): acc = tm.iadd(acc, f(i))
        return acc
    nm = tm.lam([n], lambda i: R(f(i)))
    r = tm._imk1(tm.mkt('iapp', 'isum', (nm,), 'I'))
    return r


def sum(x, dim=None, keepdim=False, dtype=None, axis=None):
    if axis is not None: dim = axis
    if dtype is not None: x = x.to(dtype)
    dims = _dims(x, dim)
    if x._k == 'R': return reduce_(x, dims, keepdim, tm.rsum, x.dtype)
    return reduce_(x, dims, keepdim, isum, _rt.int64, 'I')


def mean(x, dim=None, keepdim=False, dtype=None, axis=None):
    if axis is not None: dim = axis
    dims = _dims(x, dim)
    n = 1
    for d in dims: n = tm.imul(n, x.shape[d])
    s = sum(x, dim, keepdim)
    return ew(lambda v: tm.div(v, R(n)), (s,), x.dtype)


def prod(x, dim=None, keepdim=False):
    def comb(n, f):
        if not isinstance(n, int): raise Unsupported('product over a symbolic dimension')
        acc = tm.ONE
        for i in range(n): acc = tm.mul(acc, f(i))
        return acc
    return reduce_(x, _dims(x, dim), keepdim, comb, x.dtype, 'R')


def all(x, dim=None, keepdim=False): return reduce_(x, _dims(x, dim), keepdim, tm.forall, _rt.bool, 'B')
def any(x, dim=None, keepdim=False): return reduce_(x, _dims(x, dim), keepdim, tm.exists, _rt.bool, 'B')


def count_nonzero(x, dim=None): return sum(x.bool(), dim)


class _NT(tuple):
    @property
    def values(self): return self[0]
    @property
    def indices(self): return self[1]


def _ext(op):
    def f(x, dim=None, keepdim=False, out=None, axis=None):
        if axis is not None: dim = axis
        if isinstance(dim, Tensor): return (_max2 if op == 'rmax' else _min2)(x, dim)
        if x._k != 'R':
            return _iext(op, x, dim, keepdim)
        if dim is None:
            return reduce_(x, _dims(x, None), False, lambda n, g: tm.rext(op, n, g), x.dtype)
        v = reduce_(x, (dim,), keepdim, lambda n, g: tm.rext(op, n, g), x.dtype)
        return _NT((v, (argmax if op == 'rmax' else argmin)(x, dim, keepdim)))
    return f


def _iext(op, x, dim, keepdim):
    def comb(n, g):
        if not isinstance(n, int): raise Unsupported('integer max over a symbolic dimension')
        acc = g(0)
        for i in range(1, n):
            v = g(i)
            acc = ite_any(tm.ilt(acc, v) if op == 'rmax' else tm.ilt(v, acc), v, acc)
        return acc
    if x._k == 'B': x = x.long()
    r = reduce_(x, _dims(x, dim), keepdim, comb, x.dtype, 'I')
    return r if dim is None else _NT((r, None))


max = _ext('rmax')
min = _ext('rmin')


def amax(x, dim=None, keepdim=False): return reduce_(x, _dims(x, dim), keepdim, lambda n, g: tm.rext('rmax', n, g), x.dtype)
def amin(x, dim=None, keepdim=False): return reduce_(x, _dims(x, dim), keepdim, lambda n, g: tm.rext('rmin', n, g), x.dtype)


def _arg(gtf):
    def f(x, dim=None, keepdim=False):
        if dim is None:
            x = x.reshape(-1); dim = 0
        d = _norm_dim(dim, x.ndim)
        n = x.shape[d]
        if not isinstance(n, int): raise Unsupported('argmax over a symbolic dimension')
        rd = x._reader()

        def fn(idx):
            def at(i):
                ii = (idx[:d] + (i,) + idx[d + 1:]) if keepdim else (idx[:d] + (i,) + idx[d:])
                return R(rd(ii))
            # first index attaining the extremum
            best_v, best_i = at(0), 0
            for i in range(1, n):
                v = at(i)
                c = gtf(v, best_v)
                best_i = ite_any(c, i, best_i)
                best_v = tm.ite(c, v, best_v)
            return best_i
        shape = list(x.shape)
        if keepdim: shape[d] = 1
        else: del shape[d]
        return new(fn, shape, _rt.int64, x.device)
    return f


argmax = _arg(lambda v, b: tm.lt(b, v))
argmin = _arg(lambda v, b: tm.lt(v, b))


def norm(x, p=2, dim=None, keepdim=False, dtype=None, ord=None, axis=None):
    if axis is not None: dim = axis
    if ord is not None: p = ord
    if p is None or p == 'fro' or p == 2 or p == 2.0:
        s = sum(mul(x, x), dim, keepdim)
        return sqrt(s)
    if p == 1: return sum(abs(x), dim, keepdim)
    if p == _math.inf: return amax(abs(x), dim, keepdim)
    raise Unsupported('norm p=%r' % (p,))


def cumsum(x, dim):
    d = _norm_dim(dim, x.ndim)
    if not isinstance(x.shape[d], int): raise Unsupported('cumsum')
    rd = x._reader()

    def fn(idx):
        return pick(x.shape[d], idx[d], lambda n: tm.rsum(n + 1, lambda i: rd(idx[:d] + (i,) + idx[d + 1:])))
    return _g(new(fn, x.shape, x.dtype, x.device), x)


# ------------------------------------------------------------------ shape operations
def unsqueeze(x, dim):
    n = x.ndim + 1
    d = _norm_dim(dim, n)
    return _view(x, tuple(x.shape[:d]) + (1,) + tuple(x.shape[d:]),
                 lambda i: i[:d] + i[d + 1:], lambda j: (tm.TRUE, j[:d] + (0,) + j[d:]), x.contig)


def squeeze(x, dim=None):
    if dim is None: ds = [i for i in range(x.ndim) if _is1sym(x.shape[i])]
    else:
        dd = (dim,) if isinstance(dim, int) else dim
        ds = [_norm_dim(d, x.ndim) for d in dd]
        ds = [d for d in ds if _is1sym(x.shape[d])]
    if not ds: return _view(x, x.shape, lambda i: i, lambda j: (tm.TRUE, j), x.contig)
    keep = [i for i in range(x.ndim) if i not in ds]
    n = x.ndim

    def fwd(i):
        it = iter(i)
        return tuple(0 if k in ds else next(it) for k in range(n))
    return _view(x, [x.shape[k] for k in keep], fwd, lambda j: (tm.TRUE, tuple(j[k] for k in keep)), x.contig)


def _is1sym(d):
    if isinstance(d, int): return d == 1
    return bool(tm.ieq(d, 1))


def permute(x, dims):
    n = x.ndim
    if len(dims) != n: raise RuntimeError('permute: number of dimensions mismatch')
    p = [_norm_dim(d, n) for d in dims]
    if sorted(p) != list(range(n)): raise RuntimeError('permute: repeated dim')
    if p == list(range(n)): return _view(x, x.shape, lambda i: i, lambda j: (tm.TRUE, j), x.contig)
    inv = [p.index(k) for k in range(n)]
    contig = x.contig and [d for d in p if not _is1(x.shape[d])] == [d for d in range(n) if not _is1(x.shape[d])]
    return _view(x, [x.shape[d] for d in p], lambda i: tuple(i[inv[k]] for k in range(n)),
                 lambda j: (tm.TRUE, tuple(j[d] for d in p)), contig)


def transpose(x, a, b):
    n = x.ndim
    a, b = _norm_dim(a, n), _norm_dim(b, n)
    p = list(range(n)); p[a], p[b] = p[b], p[a]
    return permute(x, p)


swapaxes = swapdims = transpose


def t(x): return x if x.ndim < 2 else transpose(x, 0, 1)


def movedim(x, s, d):
    n = x.ndim
    s, d = _norm_dim(s, n), _norm_dim(d, n)
    p = [i for i in range(n) if i != s]
    p.insert(d, s)
    return permute(x, p)


moveaxis = movedim


def expand(x, shape):
    shape = list(shape)
    off = len(shape) - x.ndim
    if off < 0: raise RuntimeError('expand: too few dimensions')
    bc = []
    for i, d in enumerate(x.shape):
        td = shape[off + i]
        if isinstance(td, int) and td == -1:
            shape[off + i] = d; bc.append(False); continue
        if d is td or (isinstance(d, int) and isinstance(td, int) and d == td): bc.append(False); continue
        if isinstance(d, int) and d == 1: bc.append(True); continue
        if isinstance(d, int) and isinstance(td, int):
            raise RuntimeError('The expanded size of the tensor (%s) must match the existing size (%s)' % (td, d))
        if bool(tm.ieq(d, td)): bc.append(False)
        elif bool(tm.ieq(d, 1)): bc.append(True)
        else: raise RuntimeError('The expanded size of the tensor (%s) must match the existing size (%s)' % (td, d))
    if off == 0 and not _pany(bc):
        return _view(x, shape, lambda i: i, lambda j: (tm.TRUE, j), x.contig)
    return _view(x, shape, lambda i: tuple(0 if b else k for b, k in zip(bc, i[off:])), None, False)


def _pany(l):
    for x in l:
        if x: return True
    return False


def broadcast_to(x, s): return expand(x, size_of2(s))


def broadcast_tensors(*xs):
    s = broadcast_shapes(*[x.shape for x in xs])
    return tuple(expand(x, s) for x in xs)


def repeat(x, reps):
    reps = tuple(reps)
    off = len(reps) - x.ndim
    if off < 0: raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
    src = (1,) * off + tuple(x.shape)
    shape = [tm.imul(a, b) for a, b in zip(src, reps)]
    rd = x._reader()

    def fn(idx):
        ii = []
        for i, s, r in zip(idx[off:], src[off:], reps[off:]):
            if isinstance(r, int) and r == 1: ii.append(i)
            elif isinstance(s, int) and s == 1: ii.append(0)
            else: ii.append(tm.imod(i, s))
        return rd(tuple(ii))
    return _g(new(fn, shape, x.dtype, x.device), x)


tile = repeat


def repeat_interleave(x, n, dim=None):
    if dim is None:
        x = x.reshape(-1); dim = 0
    d = _norm_dim(dim, x.ndim)
    rd = x._reader()
    shape = list(x.shape); shape[d] = tm.imul(shape[d], n)
    return _g(new(lambda idx: rd(idx[:d] + (tm.idiv(idx[d], n),) + idx[d + 1:]), shape, x.dtype, x.device), x)


def _div_exact(p, q):
    if isinstance(p, int) and isinstance(q, int):
        if q == 0 or p % q: return None
        return p // q
    a, r = tm._try_divide(p, q)
    return a if isinstance(r, int) and r == 0 else None


def _resolve(shape, x):
    shape = [_dim(s) for s in shape]
    if _pany([isinstance(s, int) and s == -1 for s in shape]):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(k) > 1: raise RuntimeError('only one dimension can be inferred')
        known = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1): known = tm.imul(known, s)
        tot = x.numel()
        q = _div_exact(tot, known)
        if q is None:
            if isinstance(tot, int) and isinstance(known, int):
                raise RuntimeError("shape '%s' is invalid for input of size %s" % (shape, tot))
            # symbolic: floor quotient, must be exact
            if not bool(tm.ieq(tm.imul(known, tm.idiv(tot, known)), tot)):
                raise RuntimeError("shape '%s' is invalid for input of size %s" % (shape, tot))
            q = tm.idiv(tot, known)
        shape[k[0]] = q
    return shape


def _groups(a, b):
    """match dimension lists a and b into groups of equal product"""
    out = []
    i = j = 0
    while i < len(a) or j < len(b):
        ia, jb = i, j
        pa = pb = 1
        if i < len(a): pa = a[i]; i += 1
        if j < len(b): pb = b[j]; j += 1
        while not tm.int_eq(pa, pb):
            da = _div_exact(pb, pa)
            db = _div_exact(pa, pb)
            if da is not None and i < len(a):
                pa = tm.imul(pa, a[i]); i += 1
            elif db is not None and j < len(b):
                pb = tm.imul(pb, b[j]); j += 1
            elif i < len(a) and j < len(b):
                pa = tm.imul(pa, a[i]); i += 1
                pb = tm.imul(pb, b[j]); j += 1
            elif i < len(a): pa = tm.imul(pa, a[i]); i += 1
            elif j < len(b): pb = tm.imul(pb, b[j]); j += 1
            else:
                # total mismatch: either a real error or an equality only known on this path
                if bool(tm.ieq(pa, pb)): break
                return None
        out.append((list(range(ia, i)), list(range(jb, j))))
    return out


def reshape(x, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)): s = s[0]
    shape = _resolve(s, x)
    if len(shape) == x.ndim and _pall(tm.int_eq(p, q) for p, q in zip(shape, x.shape)):
        return _view(x, x.shape, lambda i: i, lambda j: (tm.TRUE, j), x.contig)
    if not x.contig: x = x.clone()
    return _reshape(x, shape)


def _pall(it):
    for v in it:
        if not v: return False
    return True


def _reshape(x, shape):
    src = tuple(x.shape)
    g = _groups(src, tuple(shape))
    if g is None:
        raise RuntimeError("shape '%s' is invalid for input of size %s" % (list(shape), x.numel()))

    def mapper(gs, dims_from, dims_to):
        def f(idx):
            out = [None] * len(dims_to)
            for fi, ti in gs:
                if len(fi) == 1 and len(ti) == 1:
                    out[ti[0]] = idx[fi[0]]; continue
                flat = 0
                for k in fi:
                    flat = tm.iadd(tm.imul(flat, dims_from[k]), idx[k])
                rem = flat
                for n, k in enumerate(reversed(ti)):
                    if n == len(ti) - 1: out[k] = rem
                    elif isinstance(dims_to[k], int) and dims_to[k] == 1: out[k] = 0
                    else:
                        out[k] = tm.imod(rem, dims_to[k])
                        rem = tm.idiv(rem, dims_to[k])
            return tuple(out)
        return f
    fw = mapper([(b, a) for a, b in g], tuple(shape), src)
    bw = mapper([(a, b) for a, b in g], src, tuple(shape))
    return _view(x, shape, fw, lambda j: (tm.TRUE, bw(j)), True)


def view(x, *s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)): s = s[0]
    shape = _resolve(s, x)
    if not x.contig:
        # torch allows views that only split/merge untouched dims; accept pure same-shape or
        # insertion/removal of 1-dims, otherwise leave it to the bounded check
        a = [d for d in x.shape if not _is1(d)]
        b = [d for d in shape if not _is1(d)]
        if len(a) == len(b) and _pall(tm.int_eq(p, q) for p, q in zip(a, b)):
            return _reshape(x, shape)
        raise Unsupported('view of a possibly non-contiguous tensor')
    return _reshape(x, shape)


def flatten(x, start_dim=0, end_dim=-1):
    if x.ndim == 0: return x.reshape(1)
    s, e = _norm_dim(start_dim, x.ndim), _norm_dim(end_dim, x.ndim)
    p = 1
    for d in x.shape[s:e + 1]: p = tm.imul(p, d)
    return reshape(x, tuple(x.shape[:s]) + (p,) + tuple(x.shape[e + 1:]))


ravel = flatten


def atleast_1d(x): return x if x.ndim >= 1 else x.reshape(1)
def atleast_2d(x): return x if x.ndim >= 2 else (x.reshape(1, 1) if x.ndim == 0 else x.unsqueeze(0))
def atleast_3d(x):
    if x.ndim >= 3: return x
    if x.ndim == 2: return x.unsqueeze(-1)
    return x.reshape(1, -1, 1)


def select(x, dim, i):
    d = _norm_dim(dim, x.ndim)
    return x[(slice(None),) * d + (i,)]


def narrow(x, dim, start, length):
    d = _norm_dim(dim, x.ndim)
    return x[(slice(None),) * d + (slice(start, start + length),)]


def unbind(x, dim=0):
    d = _norm_dim(dim, x.ndim)
    n = x.shape[d]
    if not isinstance(n, int): raise Unsupported('unbind of a symbolic dimension')
    return tuple(select(x, d, i) for i in range(n))


def split(x, sz, dim=0):
    d = _norm_dim(dim, x.ndim)
    n = x.shape[d]
    if not isinstance(n, int): raise Unsupported('split of a symbolic dimension')
    if isinstance(sz, int):
        sz = [sz] * (n // sz) + ([n % sz] if n % sz else [])
    out = []
    p = 0
    for s in sz:
        out.append(narrow(x, d, p, s)); p += s
    return tuple(out)


def chunk(x, k, dim=0):
    n = x.shape[_norm_dim(dim, x.ndim)]
    if not isinstance(n, int): raise Unsupported('chunk')
    return split(x, -(-n // k), dim)


tensor_split = chunk


def stack(ts, dim=0, out=None):
    ts = list(ts)
    if not ts: raise RuntimeError('stack expects a non-empty TensorList')
    n = ts[0].ndim + 1
    d = _norm_dim(dim, n)
    for x in ts[1:]:
        if x.ndim != ts[0].ndim or x.shape != ts[0].shape:
            raise RuntimeError('stack expects each tensor to be equal size')
    dt = result_type(*ts) if len(ts) > 1 else ts[0].dtype
    k = kind(dt)
    rds = [(x._reader(), x._k) for x in ts]
    shape = tuple(ts[0].shape[:d]) + (len(ts),) + tuple(ts[0].shape[d:])

    def fn(idx):
        rest = idx[:d] + idx[d + 1:]
        return pick(len(rds), idx[d], lambda i: conv(rds[i][0](rest), rds[i][1], k))
    return _g(new(fn, shape, dt, _dev(*ts)), *ts)


def cat(ts, dim=0, out=None, axis=None):
    if axis is not None: dim = axis
    ts = list(ts)
    if not ts: raise RuntimeError('torch.cat(): expected a non-empty list of Tensors')
    ts = [x for x in ts if not (x.ndim == 1 and isinstance(x.shape[0], int) and x.shape[0] == 0)] or ts[:1]
    n = ts[0].ndim
    d = _norm_dim(dim, n)
    shape = list(ts[0].shape)
    for x in ts[1:]:
        if x.ndim != n: raise RuntimeError('Tensors must have same number of dimensions')
        for k in range(n):
            if k != d:
                a, b = x.shape[k], shape[k]
                if not tm.int_eq(a, b):
                    if isinstance(a, int) and isinstance(b, int) or not bool(tm.ieq(a, b)):
                        raise RuntimeError('Sizes of tensors must match except in dimension %d' % d)
                    if isinstance(a, int): shape[k] = a
    tot = 0
    offs = []
    for x in ts:
        offs.append(tot); tot = tm.iadd(tot, x.shape[d])
    shape[d] = tot
    dt = result_type(*ts) if len(ts) > 1 else ts[0].dtype
    k = kind(dt)
    rds = [(x._reader(), x._k) for x in ts]

    def fn(idx):
        def at(j, i):
            return conv(rds[j][0](idx[:d] + (i,) + idx[d + 1:]), rds[j][1], k)
        i = idx[d]

        def go(i):
            if isinstance(i, int):
                for j in range(len(ts)):
                    c = tm.ilt(i, tm.iadd(offs[j], ts[j].shape[d]))
                    if c is tm.TRUE: return at(j, tm.isub(i, offs[j]))
                    if c is not tm.FALSE: break
            j = 0

            def chain(j):
                if j == len(ts) - 1: return at(j, tm.isub(i, offs[j]))
                c = tm.ilt(i, tm.iadd(offs[j], ts[j].shape[d]))
                if c is tm.TRUE: return at(j, tm.isub(i, offs[j]))
                if c is tm.FALSE: return chain(j + 1)
                # one-element segments have a known local index
                li = 0 if _is1(ts[j].shape[d]) else tm.isub(i, offs[j])
                return ite_any(c, at(j, li), chain(j + 1))
            return chain(0)
        return lift_index(i, go)
    return _g(new(fn, shape, dt, _dev(*ts)), *ts)


concat = concatenate = cat


def hstack(ts): return cat([atleast_1d(x) for x in ts], 0 if ts[0].ndim == 1 else 1)
def vstack(ts): return cat([atleast_2d(x) for x in ts], 0)


def column_stack(ts): return cat([x.unsqueeze(1) if x.ndim == 1 else x for x in ts], 1)


def flip(x, dims):
    ds = [_norm_dim(d, x.ndim) for d in ((dims,) if isinstance(dims, int) else dims)]
    rd = x._reader()
    shp = x.shape
    return _g(new(lambda idx: rd(tuple(tm.isub(tm.isub(shp[k], 1), i) if k in ds else i for k, i in enumerate(idx))), shp, x.dtype, x.device), x)


def roll(x, shifts, dims=None):
    if isinstance(shifts, (tuple, list)): raise Unsupported('roll tuple')
    d = _norm_dim(dims if isinstance(dims, int) else dims[0], x.ndim)
    n = x.shape[d]
    rd = x._reader()
    return _g(new(lambda idx: rd(idx[:d] + (tm.imod(tm.isub(idx[d], shifts), n),) + idx[d + 1:]), x.shape, x.dtype, x.device), x)


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    if offset: raise Unsupported('diag_embed offset')
    n = x.ndim + 1
    d1, d2 = _norm_dim(dim1, n), _norm_dim(dim2, n)
    rd = x._reader()
    m = x.shape[-1]
    rest = [k for k in range(n) if k not in (d1, d2)]
    shape = [None] * n
    shape[d1] = shape[d2] = m
    for k, s in zip(rest, x.shape[:-1]): shape[k] = s
    zero = elem(0, x._k)

    def fn(idx):
        return sel(tm.ieq(idx[d1], idx[d2]), lambda: rd(tuple(idx[k] for k in rest) + (idx[d1],)), lambda: zero)
    return _g(new(fn, shape, x.dtype, x.device), x)


def diagonal(x, offset=0, dim1=0, dim2=1):
    if offset: raise Unsupported('diagonal offset')
    n = x.ndim
    d1, d2 = _norm_dim(dim1, n), _norm_dim(dim2, n)
    rest = [k for k in range(n) if k not in (d1, d2)]

    def fwd(i):
        out = [None] * n
        for k, v in zip(rest, i[:-1]): out[k] = v
        out[d1] = out[d2] = i[-1]
        return tuple(out)

    def inv(j): return tm.ieq(j[d1], j[d2]), tuple(j[k] for k in rest) + (j[d1],)
    return _view(x, [x.shape[k] for k in rest] + [x.shape[d1]], fwd, inv, False)


def diag(x):
    return diag_embed(x) if x.ndim == 1 else diagonal(x)


def trace(x): return sum(diagonal(x), -1)


def triu(x, diagonal=0): return where(ge(sub(arange(x.shape[-1]).unsqueeze(0), arange(x.shape[-2]).unsqueeze(1)), diagonal), x, zeros_like(x))
def tril(x, diagonal=0): return where(le(sub(arange(x.shape[-1]).unsqueeze(0), arange(x.shape[-2]).unsqueeze(1)), diagonal), x, zeros_like(x))


# ------------------------------------------------------------------ indexing
def _norm_key(x, key):
    if not isinstance(key, tuple): key = (key,)
    out = []
    for k in key:
        if isinstance(k, list): k = tensor(k)
        if isinstance(k, np.ndarray): k = tensor(k)
        if isinstance(k, _rt.Tensor): k = tensor(k.tolist(), dtype=k.dtype)
        if isinstance(k, np.integer): k = int(k)
        if isinstance(k, range): k = tensor(list(k))
        out.append(k)
    key = out

    def consumed(k):
        if k is None or isinstance(k, bool): return 0
        if isinstance(k, Tensor) and k._k == 'B': return k.ndim
        return 1
    n = 0
    for k in key:
        if k is not Ellipsis: n += consumed(k)
    if n > x.ndim: raise IndexError('too many indices for tensor of dimension %d' % x.ndim)
    ne = 0
    for k in key:
        if k is Ellipsis: ne += 1
    if ne == 0: key = key + [Ellipsis]
    out = []
    for k in key:
        if k is Ellipsis: out.extend([slice(None)] * (x.ndim - n)); n = x.ndim
        else: out.append(k)
    return out


def _slice_bounds(s, n):
    start, stop, step = s.start, s.stop, s.step
    if step is None: step = 1
    if isinstance(step, Tensor): step = int(step)
    if step != 1 and not isinstance(n, int): raise Unsupported('strided slice of a symbolic dimension')
    conv_ = lambda v: v if (v is None or is_int(v)) else _dim(v)
    start, stop = conv_(start), conv_(stop)
    if isinstance(n, int) and (start is None or isinstance(start, int)) and (stop is None or isinstance(stop, int)):
        if step <= 0: raise ValueError('step must be greater than zero')
        r = range(*slice(start, stop, step).indices(n))
        return r.start, step, len(r)
    start = 0 if start is None else start
    stop = n if stop is None else stop
    if isinstance(start, int) and start < 0: start = tm.iadd(n, start)
    if isinstance(stop, int) and stop < 0: stop = tm.iadd(n, stop)
    # clip to [0, n]
    if not bool(tm.ile(stop, n)): stop = n
    if not bool(tm.ile(start, stop)): return start, 1, 0
    return start, 1, tm.isub(stop, start)


def _index_val(i, n):
    """normalise a scalar index against dimension n"""
    if isinstance(i, int):
        if isinstance(n, int):
            if not -n <= i < n: raise IndexError('index %d is out of bounds for dimension with size %d' % (i, n))
            return i % n
        if i < 0: return tm.iadd(n, i)
        if not bool(tm.ilt(i, n)): raise IndexError('index %d is out of bounds for dimension with size %s' % (i, n))
        return i
    if tm.prove_nonneg(i) and tm.prove_nonneg(tm.isub(tm.isub(n, 1), i)): return i
    w = world()
    if w is not None and w.checking_bounds:
        if not bool(tm.ile(0, i)): i = tm.iadd(n, i)
        if not bool(tm.land(tm.ile(0, i), tm.ilt(i, n))):
            raise IndexError('index %s is out of bounds for dimension with size %s' % (i, n))
    return i


def _basic(x, key):
    """basic indexing -> view ; key: list of int / T / slice / None, one per dim (plus Nones)"""
    shape = []
    plan = []      # per source dim: ('i', v) | ('s', start, step, outpos)
    out = 0
    contig = x.contig
    d = 0
    seen_full_only = True
    nones = []
    for k in key:
        if k is None:
            shape.append(1); nones.append(out); out += 1; continue
        n = x.shape[d]
        if isinstance(k, slice):
            st, step, ln = _slice_bounds(k, n)
            if not (isinstance(st, int) and st == 0 and step == 1 and tm.int_eq(ln, n)):
                if not seen_full_only or d > 0: contig = False if not _leading_ones(x, d) else contig
                if step != 1: contig = False
            plan.append(('s', st, step, out, ln))
            shape.append(ln); out += 1
        else:
            v = _index_val(k, n)
            if d > 0 and _pany([p[0] == 's' and not _is1(p[4]) for p in plan]): contig = False
            plan.append(('i', v))
        d += 1
    # slices of inner dims make the view non-contiguous
    nd = len(plan)
    for q in range(nd):
        p = plan[q]
        if p[0] == 's' and not (isinstance(p[1], int) and p[1] == 0 and p[2] == 1 and tm.int_eq(p[4], x.shape[q])):
            if _pany([r[0] == 's' and not _is1(r[4]) for r in plan[:q]]): contig = False
    if nd and _pall(p[0] == 's' and isinstance(p[1], int) and p[1] == 0 and p[2] == 1 and tm.int_eq(p[4], x.shape[q]) for q, p in enumerate(plan)) and not nones:
        return _view(x, x.shape, lambda i: i, lambda j: (tm.TRUE, j), x.contig)

    def fwd(i):
        out_ = []
        for p in plan:
            if p[0] == 'i': out_.append(p[1])
            else:
                v = i[p[3]]
                if not (isinstance(p[2], int) and p[2] == 1): v = tm.imul(v, p[2])
                out_.append(tm.iadd(p[1], v))
        return tuple(out_)

    def inv(j):
        c = tm.TRUE
        ii = [0] * len(shape)
        for p, v in zip(plan, j):
            if p[0] == 'i': c = tm.land(c, tm.ieq(v, p[1]))
            else:
                r = tm.isub(v, p[1])
                if isinstance(p[2], int) and p[2] != 1:
                    c = tm.land(c, tm.ieq(tm.imod(r, p[2]), 0)); r = tm.idiv(r, p[2])
                c = tm.land(c, tm.ile(0, r), tm.ilt(r, p[4]))
                ii[p[3]] = r
            if c is tm.FALSE: return c, None
        return c, tuple(ii)
    return _view(x, shape, fwd, inv, contig)


def _leading_ones(x, d):
    return _pall(_is1(n) for n in x.shape[:d])


def _is_adv(k):
    if isinstance(k, Tensor):
        if k.ndim == 0 and k._k == 'I': return False
        return True
    return False


def _prep_key(x, key):
    key = _norm_key(x, key)
    out = []
    for k in key:
        if isinstance(k, Tensor) and k.ndim == 0 and k._k == 'I': k = k._scalar()
        elif isinstance(k, Tensor) and k._k == 'R': raise IndexError('tensors used as indices must be long, int, byte or bool tensors')
        elif isinstance(k, (bool, np.bool_)): raise Unsupported('boolean scalar index')
        elif not isinstance(k, (Tensor, slice)) and k is not None and not is_int(k):
            if hasattr(k, '__index__'): k = k.__index__()
            else: raise TypeError('unsupported index %r' % (k,))
        out.append(k)
    return out


def _const_mask(m):
    """a boolean mask with concrete shape and constant entries -> list of index tuples"""
    if not _pall(isinstance(d, int) for d in m.shape): return None
    rd = m._reader()
    out = []

    def go(pre, dims):
        if not dims:
            v = rd(pre)
            if v is tm.TRUE: out.append(pre)
            elif v is not tm.FALSE: raise KeyError
            return
        for i in range(dims[0]): go(pre + (i,), dims[1:])
    try:
        go((), tuple(m.shape))
    except KeyError:
        return None
    return out


def _expand_const_masks(key):
    out = []
    for k in key:
        if isinstance(k, Tensor) and k._k == 'B':
            c = _const_mask(k)
            if c is not None:
                for d in range(k.ndim):
                    out.append(tensor([i[d] for i in c], dtype=_rt.int64))
                continue
        out.append(k)
    return out


def getitem(x, key):
    key = _expand_const_masks(_prep_key(x, key))
    if not _pany([_is_adv(k) for k in key]): return _basic(x, key)
    # apply the basic part first (advanced positions kept whole)
    pre = []
    adv = []
    pos = 0
    for k in key:
        if isinstance(k, Tensor):
            if k._k == 'B':
                for _ in range(k.ndim): pre.append(slice(None))
                adv.append((pos, k)); pos += k.ndim
            else:
                pre.append(slice(None)); adv.append((pos, k)); pos += 1
        else:
            pre.append(k)
            if not is_int(k): pos += 1
    v = _basic(x, pre)
    if _pany([k._k == 'B' for _, k in adv]):
        if len(adv) > 1: raise Unsupported('several masks')
        return _mask_get(v, *adv[0])
    return _adv_get(v, adv)


def _mask_key(m):
    vs = [tm.ivar('$m%d' % i, 0, d) for i, d in enumerate(m.shape)]
    for q in vs: tm._bv_depth_table.setdefault(q.args[0][0][0].id, -1)
    t = m._reader()(tuple(vs))
    return (tuple(d if isinstance(d, int) else d.id for d in m.shape), t.id)


def _mask_get(v, pos, m):
    for a, b in zip(v.shape[pos:pos + m.ndim], m.shape):
        if not tm.int_eq(a, b) and not bool(tm.ieq(a, b)): raise IndexError('The shape of the mask does not match')
    key = _mask_key(m)
    tot = 1
    for d in m.shape: tot = tm.imul(tot, d)
    cnt = tm._imk1(tm.mk('count', (str(key), tm.iadd(tot, 1)), 'I'))
    rd = v._reader()
    k = m.ndim
    nm = 'sel%s' % (key,)
    for j, d in enumerate(m.shape): tm.iapp_bounds[nm + str(j)] = (0, d)

    def fn(idx):
        return rd(idx[:pos] + tuple(tm.iapp(nm + str(j), (idx[pos],)) for j in range(k)) + idx[pos + 1:])
    r = new(fn, tuple(v.shape[:pos]) + (cnt,) + tuple(v.shape[pos + k:]), v.dtype, v.device)
    r.masked = {'key': key, 'pos': pos, 'k': k, 'full': rd, 'mask': m._reader()}
    return _g(r, v)


def _adv_get(v, adv):
    bshape = broadcast_shapes(*[k.shape for _, k in adv])
    rks = [(p, _bread(k, bshape), v.shape[p]) for p, k in adv]
    ps = [p for p, _ in adv]
    nb = len(bshape)
    adjacent = ps == list(range(ps[0], ps[0] + len(ps)))
    at = ps[0] if adjacent else 0
    rest = [i for i in range(v.ndim) if i not in ps]
    rshape = [v.shape[i] for i in rest]
    shape = rshape[:at] + list(bshape) + rshape[at:]
    rd = v._reader()
    for p, k in adv: _oblige_bounds(k, v.shape[p])

    def fn(idx):
        b = idx[at:at + nb]
        r = idx[:at] + idx[at + nb:]
        src = [None] * v.ndim
        for i, q in zip(rest, r): src[i] = q

        def fill(n):
            if n == len(rks): return rd(tuple(src))
            p, rk, dn = rks[n]

            def f(i):
                if isinstance(i, int) and i < 0: i = tm.iadd(dn, i)
                src[p] = i
                return fill(n + 1)
            return lift_index(rk(b), f)
        return fill(0)
    return _g(new(fn, shape, v.dtype, v.device), v)


def _oblige_bounds(k, n):
    """index tensor entries must address the dimension"""
    if _pall(isinstance(d, int) for d in k.shape):
        rd = k._reader()

        def go(pre, dims):
            if not dims:
                i = rd(pre)
                if isinstance(i, int) and isinstance(n, int) and not -n <= i < n:
                    raise IndexError('index %d is out of bounds for dimension with size %d' % (i, n))
                return
            for i in range(dims[0]): go(pre + (i,), dims[1:])
        if k.numel() <= 512: go((), tuple(k.shape))
    w = world()
    if w is not None: w.on_index(k, n)


def setitem(x, key, val):
    if hasattr(val, 'sym_tensor'): val = val.sym_tensor
    key = _expand_const_masks(_prep_key(x, key))
    k1 = x._k
    if isinstance(val, Tensor) and val.masked is None: narrowing(val, x.dtype, 'assignment')
    if not _pany([_is_adv(k) for k in key]):
        v = _basic(x, key)
        if not isinstance(val, Tensor):
            if isinstance(val, (list, tuple, np.ndarray)): val = tensor(val, dtype=x.dtype)
            else:
                e = elem(val, k1)
                v._write(lambda idx: tm.TRUE, lambda idx: e)
                return
        if val._k == 'R' and k1 == 'I': val = val.to(x.dtype)
        _check_expand(val.shape, v.shape)
        rd = _bread_to(val, v.shape)
        k0 = val._k
        v._write(lambda idx: tm.TRUE, lambda idx: conv(rd(idx), k0, k1))
        if _state['grad'] and val.requires_grad: _mark_grad(x)
        return
    pre = []
    adv = []
    pos = 0
    for k in key:
        if isinstance(k, Tensor):
            if k._k == 'B':
                for _ in range(k.ndim): pre.append(slice(None))
                adv.append((pos, k)); pos += k.ndim
            else:
                pre.append(slice(None)); adv.append((pos, k)); pos += 1
        else:
            pre.append(k)
            if not is_int(k): pos += 1
    v = _basic(x, pre)
    if _pany([k._k == 'B' for _, k in adv]):
        if len(adv) > 1: raise Unsupported('several masks')
        pos, m = adv[0]
        for a, b in zip(v.shape[pos:pos + m.ndim], m.shape):
            if not tm.int_eq(a, b) and not bool(tm.ieq(a, b)): raise IndexError('The shape of the mask does not match')
        rm = m._reader()
        kk = m.ndim
        if not isinstance(val, Tensor):
            e = elem(val, k1)
            v._write(lambda idx: Bt(rm(idx[pos:pos + kk])), lambda idx: e)
            return
        if val.masked is not None and val.masked['key'] == _mask_key(m) and val.masked['pos'] == pos and val.ndim == v.ndim - kk + 1:
            f = val.masked['full']; k0 = val._k
            v._write(lambda idx: Bt(rm(idx[pos:pos + kk])), lambda idx: conv(f(idx), k0, k1))
            return
        if val.ndim == 0 or (val.ndim <= v.ndim - kk - pos):
            # broadcast along the masked dimension
            rd = val._reader(); k0 = val._k; vs = val.shape
            v._write(lambda idx: Bt(rm(idx[pos:pos + kk])),
                     lambda idx: conv(rd(tuple(0 if _is1(d) else i for d, i in zip(vs, idx[len(idx) - len(vs):]))), k0, k1))
            return
        raise Unsupported('masked assignment of an unrelated tensor')
    # integer index tensors
    if len(adv) == 1:
        pos, kt = adv[0]
        _oblige_bounds(kt, v.shape[pos])
        if not isinstance(val, Tensor): val = full((), val, dtype=x.dtype, device=x.device)
        tshape = tuple(v.shape[:pos]) + tuple(kt.shape) + tuple(v.shape[pos + 1:])
        _check_expand(val.shape, tshape)
        rd = _bread_to(val, tshape); k0 = val._k
        n = kt.ndim
        if kt.ghost_inv is not None and n == 1:
            pred, inv = kt.ghost_inv
            v._write(lambda idx: pred(idx[pos]),
                     lambda idx: conv(rd(idx[:pos] + (inv(idx[pos]),) + idx[pos + 1:]), k0, k1))
            return
        if _pall(isinstance(d, int) for d in kt.shape):
            rk = kt._reader()
            import itertools
            for ki in itertools.product(*[range(d) for d in kt.shape]):
                tgt = rk(ki)
                if isinstance(tgt, int) and tgt < 0: tgt = tm.iadd(v.shape[pos], tgt)
                v._write(lambda idx, tgt=tgt: tm.ieq(idx[pos], tgt),
                         lambda idx, ki=ki: conv(rd(idx[:pos] + ki + idx[pos + 1:]), k0, k1))
            return
        raise Unsupported('scatter through a symbolic index tensor')
    if _pall(isinstance(d, int) for _, kt in adv for d in kt.shape):
        ps = [p for p, _ in adv]
        bshape = broadcast_shapes(*[k.shape for _, k in adv])
        nb = len(bshape)
        adjacent = ps == list(range(ps[0], ps[0] + len(ps)))
        at = ps[0] if adjacent else 0
        rest = [i for i in range(v.ndim) if i not in ps]
        rshape = [v.shape[i] for i in rest]
        tshape = rshape[:at] + list(bshape) + rshape[at:]
        if not isinstance(val, Tensor): val = full((), val, dtype=x.dtype, device=x.device)
        rd = _bread_to(val, tshape); k0 = val._k
        rks = [(p, _bread(k, bshape)) for p, k in adv]
        import itertools
        for b in itertools.product(*[range(d) for d in bshape]):
            tg = {p: rk(b) for p, rk in rks}

            def pred(idx, tg=tg):
                return tm.land(*[tm.ieq(idx[p], tm.iadd(v.shape[p], g) if isinstance(g, int) and g < 0 else g) for p, g in tg.items()])

            def vv(idx, b=b):
                r = tuple(idx[i] for i in rest)
                return conv(rd(r[:at] + b + r[at:]), k0, k1)
            v._write(pred, vv)
        return
    raise Unsupported('scatter with several index tensors')


def _mark_grad(x):
    x.requires_grad = True
    r = x._root()
    r.requires_grad = True


def gather(x, dim, index):
    d = _norm_dim(dim, x.ndim)
    rd = x._reader(); ri = index._reader()

    def fn(idx):
        return lift_index(ri(idx), lambda i: rd(idx[:d] + (i,) + idx[d + 1:]) if isinstance(i, int) or not isinstance(x.shape[d], int)
                          else pick(x.shape[d], i, lambda n: rd(idx[:d] + (n,) + idx[d + 1:])))
    return _g(new(fn, index.shape, x.dtype, x.device), x)


def take_along_dim(x, index, dim):
    d = _norm_dim(dim, x.ndim)
    s = list(broadcast_shapes(tuple(1 if i == d else n for i, n in enumerate(x.shape)), tuple(1 if i == d else n for i, n in enumerate(index.shape))))
    s1 = list(s); s1[d] = x.shape[d]
    s2 = list(s); s2[d] = index.shape[d]
    return gather(expand(x, s1), d, expand(index, s2))


def index_select(x, dim, index):
    d = _norm_dim(dim, x.ndim)
    return x[(slice(None),) * d + (index,)]


def masked_select(x, m): return x[m]
def index_copy(x, dim, index, v): return x.clone().index_copy_(dim, index, v)
def index_fill(x, dim, index, v): return x.clone().index_fill_(dim, index, v)
def index_put(x, idx, v, accumulate=False): return x.clone().index_put_(idx, v, accumulate)
def unflatten(x, dim, sizes): return x.unflatten(dim, sizes)
def scalar_tensor(v, dtype=None, device=None): return tensor(v, dtype=dtype, device=device)
def asarray(v, dtype=None, device=None, **k): return as_tensor(v, dtype=dtype, device=device)
def positive(x): return x
def signbit(x): return lt(x, 0)
def trunc(x): return where(lt(x, 0), neg(floor(neg(x))), floor(x)) if x._k == 'R' else x.clone()
def frac(x): return sub(x, trunc(x))
def fmod(a, b): return sub(a, mul(b, trunc(div(a, b))))
def addcdiv(a, b, c, value=1): return a + value * b / c
def aminmax(x, dim=None, keepdim=False): return amin(x, dim, keepdim), amax(x, dim, keepdim)
def promote_types(a, b): return _rt.promote_types(a, b)
def scatter_add(*a, **k): raise Unsupported('scatter_add')


def nonzero(*a, **k): raise Unsupported('nonzero')


# ------------------------------------------------------------------ linear algebra
def matmul(a, b):
    if not isinstance(a, Tensor) or not isinstance(b, Tensor): raise TypeError('matmul expects tensors')
    if a.dtype != b.dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype, but got: %s != %s' % (a.dtype, b.dtype))
    _dev(a, b)
    if a.ndim == 0 or b.ndim == 0: raise RuntimeError('both arguments to matmul need to be at least 1D')
    sa = a.ndim == 1; sb = b.ndim == 1
    if sa: a = a.unsqueeze(0)
    if sb: b = b.unsqueeze(1)
    ka, kb = a.shape[-1], b.shape[-2]
    if not tm.int_eq(ka, kb):
        if (isinstance(ka, int) and isinstance(kb, int)) or not bool(tm.ieq(ka, kb)):
            raise RuntimeError('mat1 and mat2 shapes cannot be multiplied')
    if not isinstance(ka, int): ka = kb
    bs = broadcast_shapes(a.shape[:-2], b.shape[:-2])
    ra = _bread(a, tuple(bs) + tuple(a.shape[-2:]))
    rb = _bread(b, tuple(bs) + tuple(b.shape[-2:]))
    k = a._k

    def fn(idx):
        bi = idx[:-2]; i, j = idx[-2], idx[-1]
        return tm.rsum(ka, lambda n: tm.mul(ra(bi + (i, n)), rb(bi + (n, j))))
    if k != 'R': raise Unsupported('integer matmul')
    r = new(fn, tuple(bs) + (a.shape[-2], b.shape[-1]), a.dtype, a.device)
    _g(r, a, b)
    if sa: r = r.squeeze(-2) if not sb else r.squeeze(-1).squeeze(-1)
    elif sb: r = r.squeeze(-1)
    return r


def bmm(a, b):
    if a.ndim != 3 or b.ndim != 3: raise RuntimeError('batch1 must be a 3D tensor')
    if not tm.int_eq(a.shape[0], b.shape[0]):
        if (isinstance(a.shape[0], int) and isinstance(b.shape[0], int)) or not bool(tm.ieq(a.shape[0], b.shape[0])):
            raise RuntimeError('Expected size for first two dimensions of batch2 tensor to be equal')
    return matmul(a, b)


def mm(a, b): return matmul(a, b)
def mv(a, b): return matmul(a, b)
def dot(a, b): return sum(mul(a, b))
def vdot(a, b): return sum(mul(a, b))
def outer(a, b): return mul(a.unsqueeze(1), b.unsqueeze(0))


ger = outer


def inner(a, b): return sum(mul(a, b), -1)
def vecdot(a, b, dim=-1): return sum(mul(a, b), dim)
def chain_matmul(*a):
    r = a[0]
    for x in a[1:]: r = matmul(r, x)
    return r


def baddbmm(inp, a, b, beta=1, alpha=1): return add(mul(inp, beta), mul(bmm(a, b), alpha))
def addmm(inp, a, b, beta=1, alpha=1): return add(mul(inp, beta), mul(mm(a, b), alpha))
def tensordot(a, b, dims): raise Unsupported('tensordot')


def cross(a, b, dim=None):
    if dim is None: dim = -1
    s = broadcast_shapes(a.shape, b.shape)
    a, b = expand(a, s), expand(b, s)
    d = _norm_dim(dim, a.ndim)
    if not (isinstance(a.shape[d], int) and a.shape[d] == 3): raise RuntimeError('dimension %d does not have size 3' % d)
    ra, rb = a._reader(), b._reader()
    dt = result_type(a, b)

    def fn(idx):
        def g(k):
            i, j = (k + 1) % 3, (k + 2) % 3
            A = lambda n: ra(idx[:d] + (n,) + idx[d + 1:])
            B = lambda n: rb(idx[:d] + (n,) + idx[d + 1:])
            return tm.sub(tm.mul(A(i), B(j)), tm.mul(A(j), B(i)))
        return pick(3, idx[d], g)
    return _g(new(fn, s, dt, _dev(a, b)), a, b)


def det(x):
    n = x.shape[-1]
    if not isinstance(n, int) or n > 4: raise Unsupported('det')
    rd = x._reader()

    def fn(idx):
        def go(rows, cols):
            if not rows: return tm.ONE
            acc = tm.ZERO
            for k, c in enumerate(cols):
                m = tm.mul(rd(idx + (rows[0], c)), go(rows[1:], cols[:k] + cols[k + 1:]))
                acc = tm.add(acc, m) if k % 2 == 0 else tm.sub(acc, m)
            return acc
        return go(list(range(n)), list(range(n)))
    return _g(new(fn, x.shape[:-2], x.dtype, x.device), x)


def einsum(eqn, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)): ops = ops[0]
    eqn = eqn.replace(' ', '')
    if '->' in eqn: lhs, out = eqn.split('->')
    else:
        lhs = eqn
        cnt = {}
        for c in lhs.replace(',', '').replace('...', ''): cnt[c] = cnt.get(c, 0) + 1
        out = ('...' if '...' in lhs else '') + ''.join(sorted(c for c, n in cnt.items() if n == 1))
    ins = lhs.split(',')
    # ellipsis -> fresh uppercase-ish labels
    nell = 0
    for s, x in zip(ins, ops):
        if '...' in s: nell = _pmax(nell, x.ndim - len(s.replace('...', '')))
    ell = [chr(0x3b1 + i) for i in range(nell)]
    ins2 = []
    for s, x in zip(ins, ops):
        if '...' in s:
            k = x.ndim - len(s.replace('...', ''))
            s = s.replace('...', ''.join(ell[nell - k:]))
        if len(s) != x.ndim: raise RuntimeError('einsum: subscripts do not match operand dimensions')
        ins2.append(s)
    out = out.replace('...', ''.join(ell))
    dims = {}
    for s, x in zip(ins2, ops):
        for c, n in zip(s, x.shape):
            dims[c] = bdim(dims[c], n) if c in dims else n
    dts = [o.dtype for o in ops]
    for d in dts[1:]:
        if d != dts[0]: raise RuntimeError('expected scalar type %s but found %s' % (dts[0], d))
    contracted = [c for c in dims if c not in out]
    rds = [(x._reader(), s, x.shape) for s, x in zip(ins2, ops)]

    def fn(idx):
        env = dict(zip(out, idx))

        def go(k):
            if k == len(contracted):
                acc = tm.ONE
                for rd, s, sh in rds:
                    acc = tm.mul(acc, rd(tuple(0 if _is1(n) else env[c] for c, n in zip(s, sh))))
                return acc
            c = contracted[k]

            def f(i):
                env[c] = i
                return go(k + 1)
            return tm.rsum(dims[c], f)
        return go(0)
    return _g(new(fn, [dims[c] for c in out], ops[0].dtype, _dev(*ops)), *ops)


def _pmax(a, b): return a if a > b else b


def solve(A, B, left=True):
    """A^-1 B as an uninterpreted function of the rows of A and B (torch.linalg.solve contract)"""
    h = world().hooks.get('solve') if world() is not None else None
    if h is not None: return h(A, B)
    n = A.shape[-1]
    if not isinstance(n, int): raise Unsupported('solve of symbolic size')
    vec = B.ndim == 1 or (B.ndim == A.ndim - 1 and tuple(B.shape[:-1]) == ())
    ra, rb = A._reader(), B._reader()
    if A.ndim != B.ndim: raise Unsupported('solve broadcasting')
    bs = broadcast_shapes(A.shape[:-2], B.shape[:-2])
    rA = _bread(A, tuple(bs) + (n, n)); rB = _bread(B, tuple(bs) + tuple(B.shape[-2:]))

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        args = tuple(rA(bi + (p, q)) for p in range(n) for q in range(n)) + tuple(rB(bi + (p, j)) for p in range(n))
        if not isinstance(i, int): return pick(n, i, lambda k: tm.uf('solve%d_%d' % (n, k), args))
        return tm.uf('solve%d_%d' % (n, i), args)
    return _g(new(fn, tuple(bs) + tuple(B.shape[-2:]), A.dtype, A.device), A, B)


def inv(A):
    n = A.shape[-1]
    if not isinstance(n, int): raise Unsupported('inverse of symbolic size')
    if n > 4: return solve(A, expand(eye(n, dtype=A.dtype, device=A.device), A.shape))
    rd = A._reader()
    dt = det(A)._reader()

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]

        def minor(r, c):
            def go(rows, cols):
                if not rows: return tm.ONE
                acc = tm.ZERO
                for k, cc in enumerate(cols):
                    m = tm.mul(rd(bi + (rows[0], cc)), go(rows[1:], cols[:k] + cols[k + 1:]))
                    acc = tm.add(acc, m) if k % 2 == 0 else tm.sub(acc, m)
                return acc
            return go([x for x in range(n) if x != r], [x for x in range(n) if x != c])

        def el(i, j):
            m = minor(j, i)
            if (i + j) % 2: m = tm.neg(m)
            return tm.div(m, dt(bi))
        return pick(n, i, lambda a: pick(n, j, lambda b: el(a, b)))
    return _g(new(fn, A.shape, A.dtype, A.device), A)


inverse = inv


# ------------------------------------------------------------------ autograd, misc
class no_grad:
    def __init__(self, *a): pass

    def __enter__(self):
        self.prev = _state['grad']; _state['grad'] = False

    def __exit__(self, *a):
        _state['grad'] = self.prev

    def __call__(self, f):
        def g(*a, **k):
            with no_grad(): return f(*a, **k)
        return g


class enable_grad(no_grad):
    def __enter__(self):
        self.prev = _state['grad']; _state['grad'] = True


inference_mode = no_grad


class set_grad_enabled(no_grad):
    def __init__(self, v): self.prev = _state['grad']; _state['grad'] = v
    def __enter__(self): pass


def is_grad_enabled(): return _state['grad']


class _FnCtx:
    def __init__(self): self.saved_tensors = (); self.needs_input_grad = ()

    def save_for_backward(self, *ts): self.saved_tensors = ts
    def mark_non_differentiable(self, *a): pass
    def mark_dirty(self, *a): pass
    def set_materialize_grads(self, v): pass


class Function:
    @classmethod
    def apply(cls, *args):
        ctx = _FnCtx()
        ctx.needs_input_grad = tuple(isinstance(a, Tensor) and a.requires_grad for a in args)
        with no_grad():
            if 'setup_context' in cls.__dict__:
                out = cls.forward(*args)
                cls.setup_context(ctx, args, out)
            else:
                out = cls.forward(ctx, *args)
        need = _state['grad'] and _pany(ctx.needs_input_grad)
        if isinstance(out, Tensor):
            for a in args:
                if a is out:
                    out = _view(out, out.shape, lambda i: i, lambda j: (tm.TRUE, j), out.contig)
                    break
            if need:
                out.requires_grad = True
                out.grad_fn = ('Function', cls, ctx, args)
        return out


def is_tensor(x): return isinstance(x, Tensor)
def is_floating_point(x): return x.dtype.is_floating_point
def numel(x): return x.numel()
def clone(x): return x.clone()
def detach(x): return x.detach()


def get_default_dtype(): return default_dtype()


class _NS:
    def __init__(self, name, **k):
        self.__dict__.update(k); self.__dict__['_nsname'] = name

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s' % (self._nsname, n))


def normalize(x, p=2.0, dim=1, eps=1e-12, out=None):
    n = clamp(norm(x, p, dim, True), min=eps)
    return div(x, expand(n, x.shape))


def one_hot(x, num_classes=-1):
    if not isinstance(num_classes, int) or num_classes < 0: raise Unsupported('one_hot without a number of classes')
    rd = x._reader()
    return new(lambda idx: lift_index(rd(idx[:-1]), lambda i: tm.ite(tm.Bt(tm.ieq(i, idx[-1])), 1, 0)), tuple(x.shape) + (num_classes,), _rt.int64, x.device)


def pad(x, pad, mode='constant', value=None):
    if mode != 'constant': raise Unsupported('pad mode ' + mode)
    v = 0 if value is None else value
    for k in range(len(pad) // 2):
        d = x.ndim - 1 - k
        for n, front in ((pad[2 * k], True), (pad[2 * k + 1], False)):
            if not isinstance(n, int) or n < 0: raise Unsupported('pad width %r' % (n,))
            if n == 0: continue
            blk = full(tuple(x.shape[:d]) + (n,) + tuple(x.shape[d + 1:]), v, dtype=x.dtype, device=x.device)
            x = cat([blk, x] if front else [x, blk], dim=d)
    return x


def _lnorm(x, ord=None, dim=None, keepdim=False, dtype=None): return norm(x, 2 if ord is None else ord, dim, keepdim)


def svd(*a, **k):
    h = world().hooks.get('svd') if world() is not None else None
    if h is None: raise Unsupported('svd')
    return h(*a, **k)


linalg = _NS('torch.linalg', multi_dot=lambda ts: chain_matmul(*ts), solve=solve, inv=inv, norm=_lnorm, vector_norm=lambda x, ord=2, dim=None, keepdim=False, dtype=None: norm(x, ord, dim, keepdim),
             det=det, svd=svd, cross=lambda a, b, dim=-1: cross(a, b, dim=dim), matmul=matmul, vecdot=vecdot, diagonal=lambda A, offset=0, dim1=-2, dim2=-1: diagonal(A, offset, dim1, dim2),
             matrix_norm=lambda x, ord='fro', dim=(-2, -1), keepdim=False: norm(x, 2, dim, keepdim) if ord == 'fro' else svd())
functional = _NS('torch.nn.functional', normalize=normalize, relu=relu, one_hot=one_hot, pad=pad,
                 cosine_similarity=lambda a, b, dim=1, eps=1e-8: div(sum(mul(a, b), dim), clamp(mul(norm(a, 2, dim), norm(b, 2, dim)), min=eps)))
nn = _NS('torch.nn', functional=functional, Module=object)
autograd = _NS('torch.autograd', Function=Function)
def _compiling(): return _state.get('compiling') is True


compiler = _NS('torch.compiler', is_compiling=_compiling, is_dynamo_compiling=_compiling, is_exporting=lambda: False, reset=lambda: None, disable=lambda f=None, **k: f if f else (lambda g: g))
jit = _NS('torch.jit', script=lambda f=None, **k: f, is_scripting=lambda: False, is_tracing=lambda: False)
cuda = _NS('torch.cuda', is_available=lambda: False)


def compile(f=None, **k):
    """assumed contract of torch.compile: the result computes what f computes while torch.compiler.is_compiling() holds"""
    if f is None: return lambda g: compile(g, **k)

    def compiled(*a, **kw):
        old = _state.get('compiling')
        _state['compiling'] = True
        try: return f(*a, **kw)
        finally: _state['compiling'] = old
    compiled.__wrapped__ = f
    return compiled


_NOT_METHODS = {'tensor', 'as_tensor', 'from_numpy', 'full', 'zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'eye',
                'arange', 'linspace', 'randn', 'rand', 'stack', 'cat', 'einsum', 'where', 'result_type', 'ew', 'new', 'memo',
                'world', 'kind', 'elem', 'conv', 'sel', 'pick', 'getitem', 'setitem', 'compile', 'is_tensor', 'full_like',
                'reduce_', 'isum', 'default_dtype', 'one_hot', 'pad', 'scalar_tensor', 'asarray', 'promote_types'}
_METHODS = {}
for _n, _f in list(globals().items()):
    if callable(_f) and not _n.startswith('_') and _n not in _NOT_METHODS and not isinstance(_f, type) and hasattr(_rt.Tensor, _n):
        _METHODS[_n] = _f
_METHODS['where'] = lambda self, c, o: where(c, self, o)
_METHODS['masked_fill'] = masked_fill


def build_module():
    """module object standing for `torch`"""
    import types
    m = types.ModuleType('torch')
    g = globals()
    for n, v in g.items():
        if n.startswith('_') or n in ('np', 'tm', 'T', 'R', 'Bt', 'Fraction', 'Unsupported', 'is_int', 'world', 'memo', 'Storage', 'SymSize', 'build_module'):
            continue
        setattr(m, n, v)
    for n in dir(_rt):
        v = getattr(_rt, n)
        if isinstance(v, _rt.dtype): setattr(m, n, v)
    m.Tensor = Tensor
    m.FloatTensor = Tensor
    m.Size = SymSize
    m.device = _rt.device
    m.dtype = _rt.dtype
    m.__version__ = _rt.__version__
    m.nan = tm.NAN
    m.inf = tm.INF
    m.pi = tm.PI
    m.strided = _rt.strided
    m.preserve_format = _rt.preserve_format
    m.contiguous_format = _rt.contiguous_format
    m.Generator = _rt.Generator
    m.finfo = _rt.finfo
    m.iinfo = _rt.iinfo
    m.__getattr__ = lambda n: _missing(n)
    return m


def _missing(n):
    if n.startswith('__'): raise AttributeError(n)
    if hasattr(_rt, n): raise Unsupported('torch.%s' % n)
    raise AttributeError('module torch has no attribute %r' % n)
