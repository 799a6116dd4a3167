"""Python sequences of symbolic length, for proofs about code that fills tables in loops (symbolic world).

A second shadow copy of the package is loaded in which list comprehensions and generator expressions with one `for` clause are
written as calls, so that a comprehension over a symbolic sequence can be evaluated at an arbitrary element; nothing else of the text
changes, and over ordinary sequences the calls do what the comprehension does.  `len`, `max` and `torch.stack` accept the stand-ins.
"""
import ast
import builtins as _b
import sys
from . import shadow, symtorch as st, terms as tm
from .terms import T, Unsupported
from .induct import Opaque, refusing, _tree


# ------------------------------------------------------------------ the transformation
class Lift(ast.NodeTransformer):
    def _comp(self, n, how, inner=True):
        if inner: self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].is_async: return n
        g = n.generators[0]
        names = [g.target] if isinstance(g.target, ast.Name) else list(g.target.elts) if isinstance(g.target, ast.Tuple) else None
        if names is None or not all(isinstance(x, ast.Name) for x in names): return n
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)): return n
        star = isinstance(g.target, ast.Tuple)

        def lam(body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x.id) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        cond = None if not g.ifs else g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
        call = ast.Call(func=ast.Name(id='__comp__', ctx=ast.Load()),
                        args=[ast.Constant(how), g.iter, ast.Constant(star), lam(n.elt), lam(cond) if cond is not None else ast.Constant(None)], keywords=[])
        return ast.fix_missing_locations(ast.copy_location(call, n))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        m = self._comp(ast.copy_location(ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), generators=n.generators), n), 'dict', False)
        return n if isinstance(m, ast.ListComp) else m

    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'generator')
    def visit_ClassDef(self, n):
        # a class body is not an enclosing scope of a lambda: only the functions in it are rewritten
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


def __comp__(how, it, star, elt, cond):
    m = getattr(type(it), 'sym_map', None)
    if m is not None: return m(it, (lambda x: elt(*x)) if star else elt, None if cond is None else (lambda x: cond(*x)) if star else cond)
    gen = ((elt(*x) if star else elt(x)) for x in it if cond is None or (cond(*x) if star else cond(x)))
    if type(it) is st.Tensor and it.shape and type(it.sym_len()) is T and cond is None and not star:
        return SymList('elements', it.sym_len(), lambda k: elt(it[k]))
    return list(gen) if how == 'list' else dict(gen) if how == 'dict' else gen


_loader = [None]


def loader():
    if _loader[0] is None:
        l = shadow.Loader(transform=lambda name, tree: Lift().visit(tree) if name.endswith('.chain') else tree)
        bi = l.builtins
        bi.__comp__ = __comp__

        def s_len(x):
            h = getattr(st.world(), 'len_hook', None)
            if h is not None and type(x) is list:
                r = h(x, sys._getframe(1))
                if r is not None: return r
            return shadow.s_len(x)
        bi.len = s_len
        bi.max = lambda *a, **k: a[0].sym_max() if len(a) == 1 and not k and hasattr(type(a[0]), 'sym_max') else _b.max(*a, **k)
        bi.set = _SetShim
        bi.list = _ListShim
        bi.isinstance = lambda x, c: x.sym_isinstance(c if isinstance(c, tuple) else (c,)) if hasattr(type(x), 'sym_isinstance') else shadow.s_isinstance(x, c)
        bi.filter = lambda f, x: x.sym_filter(f) if hasattr(type(x), 'sym_filter') else _b.filter(f, x)
        bi.zip = lambda *a: _zip(a) if any(hasattr(type(x), 'sym_len') for x in a) else _b.zip(*a)
        t0 = l.torch.tensor
        l.torch.tensor = lambda data, *a, **k: data.sym_tensor(*a, **k) if hasattr(type(data), 'sym_tensor') else t0(data, *a, **k)
        k0 = l.torch.stack

        def stack(ts, dim=0):
            if isinstance(ts, SymList): return ts.sym_stack(dim)
            h = getattr(st.world(), 'stack_hook', None)
            if h is not None and type(ts) is list and any(isinstance(x, Opaque) for x in ts): return h(ts, dim)
            return k0(ts, dim)
        l.torch.stack = stack
        _loader[0] = l
    return _loader[0]


def _zip(a):
    """a loop over a zip of symbolic sequences that only builds a message: no or one arbitrary round"""
    fr = sys._getframe(1)
    w = st.world()
    l = loop_at(fr)
    subs, apps, attrs, names = written(l)
    if subs or apps or attrs: raise Unsupported('loop frame condition: zip')
    if any(type(fr.f_locals[n]) is not str for n in carried(fr, l, names)): raise Unsupported('loop frame condition: zip')
    if w.choose('rounds of the zip', [0, 1]): yield tuple('<element>' for _ in a)


class _ListMeta(type):
    def __instancecheck__(cls, x): return _b.isinstance(x, _b.list)


class _ListShim(metaclass=_ListMeta):
    def __class_getitem__(cls, k): return _b.list[k]

    def __new__(cls, *a):
        if len(a) == 1 and hasattr(type(a[0]), 'sym_list'): return a[0].sym_list()
        return _b.list(*a)


class _SetMeta(type):
    def __instancecheck__(cls, x): return _b.isinstance(x, _b.set)


class _SetShim(metaclass=_SetMeta):
    def __new__(cls, *a):
        if len(a) == 1 and hasattr(type(a[0]), 'sym_set'): return a[0].sym_set()
        return _b.set(*a)


# ------------------------------------------------------------------ sequences
class SymList:
    """a list of symbolic length n whose element k is elem(k), plus what has been appended to it"""

    def __init__(self, name, n, elem, top=None):
        self.name, self.n, self.elem, self.extra, self.top = name, n, elem, [], top

    def append(self, v): self.extra.append(v)
    def sym_len(self): return tm.iadd(self.n, len(self.extra)) if self.extra else self.n

    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported('slice of %s' % self.name)
        if isinstance(k, st.Tensor): k = k.item()
        for i, v in enumerate(self.extra):
            if bool(tm.ieq(k, tm.iadd(self.n, i))): return v
        if type(k) is int and k < 0: k = tm.iadd(self.sym_len(), k)
        if not (bool(tm.ile(0, k)) and bool(tm.ilt(k, self.n))): raise IndexError('list index out of range')
        return self.elem(k)

    def __bool__(self): return bool(tm.ilt(0, self.sym_len()))

    def __iter__(self):
        h = getattr(st.world(), 'iter_hook', None)
        g = h(self, sys._getframe(1)) if h is not None and not self.extra else None
        if g is None: raise Unsupported('loop over %s' % self.name)
        return g

    def sym_list(self): return self
    def sym_isinstance(self, cs): return any(c is _ListShim or c is list for c in cs)
    def sym_filter(self, f): return Filtered(self.n, lambda k: f(self.elem(k)), self.elem)
    def enumerate(self, start=0):
        if start != 0 or self.extra: raise Unsupported('enumeration of %s' % self.name)
        return SymEnum(self)

    def sym_map(self, elt, cond):
        if self.extra: raise Unsupported('comprehension over %s while it grows' % self.name)
        if cond is not None: return Filtered(self.n, lambda k: cond(self.elem(k)), lambda k: elt(self.elem(k)))
        return SymList(self.name, self.n, lambda k: elt(self.elem(k)))

    def sym_tensor(self, dtype=None, device=None, **k):
        import torch as rt
        if k or self.extra: raise Unsupported('tensor of %s' % self.name)
        x = self.elem(tm.ivar('probe', 0, self.n))
        isint = type(x) is int or type(x) is T and x.sort == 'I'
        if not isint and not (type(x) is T or isinstance(x, float)): raise Unsupported('tensor of %s' % self.name)
        dt = dtype or (rt.int64 if isint else st.default_dtype())
        return st.new(lambda ix: st.elem(self.elem(ix[0]), st.kind(dt)), (self.n,), dt, device)

    def sym_stack(self, dim):
        x = self.elem(tm.ivar('probe', 0, self.n))
        if dim != 0 or self.extra or not getattr(x, '_sym_tensor', False): raise Unsupported('stack of %s' % self.name)
        if not bool(tm.ilt(0, self.n)): raise RuntimeError('stack expects a non-empty TensorList')
        return st.new(lambda ix: self.elem(ix[0])._reader()(tuple(ix[1:])), (self.n,) + tuple(x.shape), x.dtype, x.device)

    def sym_max(self):
        if self.top is None or self.extra: raise Unsupported('max of %s' % self.name)
        return self.top

    def __repr__(self): return '<%s>' % self.name


refusing(SymList)


class SymEnum:
    def __init__(self, l): self.l = l

    def sym_map(self, elt, cond):
        l = self.l
        if cond is None: return SymList(l.name, l.n, lambda k: elt((k, l.elem(k))))
        return Filtered(l.n, lambda k: cond((k, l.elem(k))), lambda k: elt((k, l.elem(k))))


refusing(SymEnum)


class Filtered:
    """[elt(k) for k in range(n) if cond(k)], in order"""

    def __init__(self, n, cond, elt): self.n, self.cond, self.elt = n, cond, elt
    def sym_tensor(self, dtype=None, device=None): return FilteredTensor(self, dtype, device)
    def sym_list(self):
        h = getattr(st.world(), 'list_hook', None)
        if h is None: raise Unsupported('a filtered sequence as a list')
        return h(self)


refusing(Filtered)


class FilteredTensor:
    def __init__(self, f, dtype, device): self.f, self.dtype, self.device = f, dtype, device


refusing(FilteredTensor)


class SymDict:
    """a dictionary of which only the new entries are known"""

    def __init__(self, name): self.name, self.extra = name, []
    def __setitem__(self, k, v): self.extra.append((k, v))


_o = SymDict.__dict__['__setitem__']
refusing(SymDict)


# ------------------------------------------------------------------ loops over symbolic ranges
def loop_at(fr):
    loops = [n for n in ast.walk(_tree(fr.f_code.co_filename)) if isinstance(n, ast.For) and n.lineno <= fr.f_lineno <= n.end_lineno]
    if not loops: raise Unsupported('symbolic range outside a for statement')
    return max(loops, key=lambda n: (n.lineno, n.col_offset))


def written(loop):
    """expressions whose elements the loop writes (subscript stores) and expressions it appends to, as source text"""
    subs, apps, attrs, names = set(), set(), set(), set()
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)): subs.add(ast.unparse(n.value))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)): attrs.add(ast.unparse(n))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend', 'insert', 'pop', 'add', 'update', 'remove', 'clear', 'setdefault'): apps.add(ast.unparse(n.func.value))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith('_') and not n.func.attr.startswith('_'): subs.add(ast.unparse(n.func.value))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
            elif isinstance(n, (ast.Break, ast.Return, ast.While, ast.Global, ast.Nonlocal, ast.Try)): raise Unsupported('%s in a loop over a symbolic range' % type(n).__name__)
    return subs, apps, attrs, names


def value(fr, text):
    """the object a name or `self.attribute` denotes in the frame"""
    p = text.split('.')
    if not all(x.isidentifier() for x in p) or p[0] not in fr.f_locals: raise Unsupported('loop writes %s' % text)
    v = fr.f_locals[p[0]]
    for x in p[1:]: v = getattr(v, x)
    return v


def loop_names(loop):
    t = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    return t


def carried(fr, loop, names):
    """locals bound before the loop and assigned in it"""
    inner = set()
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, ast.For): inner |= loop_names(n)
    c = {n for n in names - loop_names(loop) - inner if n in fr.f_locals}
    return {n for n in c if not reassigned(loop, n)}


def reassigned(loop, name):
    """the first statement of the body that mentions the name assigns it without reading it"""
    for s in loop.body:
        ms = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name]
        if not ms: continue
        return isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and not any(isinstance(n.ctx, ast.Load) for n in ms)
    return True
