"""Structural induction over trees and lists of arbitrary size (symbolic world).

`Each` is a sequence of unknown length.  A `for` loop over it is executed for no element, or for one arbitrary element in the middle:
every list the surrounding function accumulates into then starts and ends with an opaque part that stands for what the other
iterations appended, and which the code cannot look into.  The result's arbitrary element is what the contract specifies.  The rule is
sound when iterations communicate only by appending to those lists, which is checked: other local variables bound before the loop may
not be assigned in it (AST) nor, for lists, dicts and sets, change (by comparison); attribute, subscript and global writes in the loop are refused.
Anything the rule does not cover raises Unsupported, so that the contract counts as sampled.
"""
import ast
import sys
from .terms import Unsupported

_src = {}


def _tree(fn):
    if fn not in _src: _src[fn] = ast.parse(open(fn).read())
    return _src[fn]


class Opaque:
    """what the other iterations contributed to a list"""

    def __init__(self, name, part): self.__dict__.update(name=name, part=part)
    def __repr__(self): return '<%s of %s>' % (self.part, self.name)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('loop frame condition: the loop looks into what it accumulated (%s)' % n)
    def __eq__(self, o):
        if o is self: return True
        raise Unsupported('loop frame condition: the loop compares what it accumulated')
    def __hash__(self): raise Unsupported('loop frame condition: the loop hashes what it accumulated')
    def __bool__(self): raise Unsupported('loop frame condition: the loop tests what it accumulated')


class Name:
    """an arbitrary name; two names may or may not be the same string"""

    def __init__(self, w, label): self.w, self.label, self.known = w, label, {}

    def __eq__(self, o):
        if o is self: return True
        if not isinstance(o, Name):
            if o is None: return False
            raise Unsupported('comparison of an arbitrary name with %r' % (o,))
        if id(o) not in self.known:
            v = self.w.choose('%s == %s' % (self.label, o.label), [True, False])
            self.known[id(o)] = v
            o.known[id(self)] = v
        return self.known[id(o)]

    def __ne__(self, o): return not self == o
    def __hash__(self): return 7
    def __repr__(self): return '<name %s>' % self.label
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation %s on an arbitrary name' % n)


def _refuse(cls, names, what):
    for n in names:
        if n not in cls.__dict__:
            def f(self, *a, _n=n): raise Unsupported('%s of %s' % (_n, what))
            setattr(cls, n, f)


OPERATORS = ['__%s__' % n for n in 'add radd sub rsub mul rmul truediv floordiv mod rmod and or xor lt le gt ge neg pos abs len iter next getitem setitem contains call '
             'int float index bool enter exit'.split()]


def refusing(cls):
    """operations the class does not define are out of the contract's reach"""
    _refuse(cls, OPERATORS, 'an arbitrary ' + cls.__name__)
    return cls


class Derived:
    """a name made from an arbitrary name"""

    def __init__(self, *parts): self.parts = parts
    def __repr__(self): return '<derived name>'


_refuse(Opaque, OPERATORS, 'what a loop accumulated')
Name.__add__ = lambda self, o: Derived(self, o)
Name.__radd__ = lambda self, o: Derived(o, self)
_refuse(Name, OPERATORS, 'an arbitrary name')
refusing(Derived)


class Each:
    """an arbitrary finite sequence; element() makes its arbitrary element"""

    def __init__(self, w, element, label='element', assume_empty=None, index=False):
        self.__dict__.update(w=w, element=element, label=label, made=[], done=0, index=index)

    def __iter__(self):
        fr = sys._getframe(1)
        self.done += 1
        if self.done > 1: raise Unsupported('second loop over the same sequence')
        before, loop = self.entry(fr)
        if self.w.choose('elements of ' + self.label, ['none', 'some']) == 'none': return
        acc = {}
        for n, v in before.items():
            if isinstance(v, list):
                acc[n] = (v, len(v))
                v.append(Opaque(n, 'before'))
        keep = {n: (list(v.items()) if isinstance(v, dict) else set(v)) for n, v in before.items() if isinstance(v, (dict, set))}
        e = self.element()
        self.made.append(e)
        yield e
        for n, k in keep.items():
            v = before[n]
            if (list(v.items()) if isinstance(v, dict) else v) != k: raise Unsupported('loop frame condition: %s changes in the loop' % n)
        for n, (v, k) in acc.items():
            if len(v) <= k or not isinstance(v[k], Opaque): raise Unsupported('loop frame condition: %s is not only appended to' % n)
            v.append(Opaque(n, 'after'))

    def entry(self, fr):
        """the mutable locals at loop entry, and the loop"""
        loops = [n for n in ast.walk(_tree(fr.f_code.co_filename)) if isinstance(n, (ast.For, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp))
                 and n.lineno <= fr.f_lineno <= n.end_lineno]
        if not loops: raise Unsupported('the sequence is used outside a loop')
        loop = max(loops, key=lambda n: (n.lineno, n.col_offset))
        if not isinstance(loop, ast.For): return {}, loop
        if loop.orelse: raise Unsupported('for-else over an arbitrary sequence')
        stores, target = set(), {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
        for s in loop.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, (ast.Attribute, ast.Subscript)): b = b.value
                    if not (isinstance(b, ast.Name) and self.fresh(b.id, loop)): raise Unsupported('loop frame condition: the loop writes an attribute or element of something older than the iteration')
                if isinstance(n, (ast.Global, ast.Nonlocal)): raise Unsupported('global in a loop')
                if isinstance(n, (ast.Break, ast.While)): raise Unsupported('%s in a loop over an arbitrary sequence' % type(n).__name__)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in fr.f_locals and not isinstance(fr.f_locals[n.target.id], list):
                    raise Unsupported('loop frame condition: %s is accumulated in the loop' % n.target.id)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): stores.add(n.id)
        aug = {n.target.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        for n in stores - target - aug:
            if n in fr.f_locals: raise Unsupported('loop frame condition: %s is bound before the loop and assigned in it' % n)
        mut = {n: v for n, v in fr.f_locals.items() if isinstance(v, (list, dict, set))}
        written = {n.func.value.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)} | aug
        return {n: v for n, v in mut.items() if n in written}, loop

    @staticmethod
    def fresh(name, loop):
        """assigned in the loop from a call before it is used: an object made by this iteration"""
        return any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets) and isinstance(n.value, ast.Call)
                   for s in loop.body for n in ast.walk(s))

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of an arbitrary sequence' % n)
    def __len__(self): raise Unsupported('length of an arbitrary sequence')
    def __getitem__(self, k): raise Unsupported('element %s of an arbitrary sequence' % (k,))
    def __bool__(self): raise Unsupported('truth of an arbitrary sequence')
    def __add__(self, o): raise Unsupported('concatenation with an arbitrary sequence')
    __radd__ = __add__


refusing(Each)


def parts(got, prefix, made, step, suffix=()):
    """got is prefix + [before] + step + [after] + suffix (prefix + suffix when there was no element; without the opaque parts for a comprehension)"""
    got = list(got)
    ops = [x for x in got if isinstance(x, Opaque)]
    plain = [x for x in got if not isinstance(x, Opaque)]
    want = list(prefix) + (list(step) if made else []) + list(suffix)
    if len(plain) != len(want) or any(a is not b for a, b in zip(plain, want)): return False
    if not made or not ops: return not ops
    n = len(prefix)
    return len(ops) == 2 and got[n] is ops[0] and got[n + 1 + len(step)] is ops[1] and ops[0].part == 'before' and ops[1].part == 'after' and ops[0].name == ops[1].name


def range_each(w, rng, fr, elements, made, accumulator):
    """a loop over a symbolic range whose iterations add to one list held in an attribute: no iteration, or an arbitrary one.
    elements: id of the range's end -> (label, the arbitrary index); accumulator: (object, attribute)"""
    if id(rng.hi) not in elements: return None
    if type(rng.lo) is not int or rng.lo != 0: raise Unsupported('the range does not start at zero')
    label, key = elements[id(rng.hi)]
    if label in made: raise Unsupported('second loop over the ' + label)
    loops = [n for n in ast.walk(_tree(fr.f_code.co_filename)) if isinstance(n, ast.For) and n.lineno <= fr.f_lineno <= n.end_lineno]
    if not loops: raise Unsupported('the range is used outside a for statement')
    loop = max(loops, key=lambda n: (n.lineno, n.col_offset))
    obj, attr = accumulator
    if loop.orelse: raise Unsupported('for-else over an arbitrary range')
    for s in loop.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.While, ast.Return, ast.Global, ast.Nonlocal, ast.Subscript)) and (not isinstance(n, ast.Subscript) or isinstance(n.ctx, (ast.Store, ast.Del))):
                raise Unsupported('%s in a loop over an arbitrary range' % type(n).__name__)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if n.attr != attr or not isinstance(n.value, ast.Name) or fr.f_locals.get(n.value.id) is not obj: raise Unsupported('loop frame condition: the loop writes another attribute')
    target = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    stores = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - target
    carried = {n for n in stores if n in fr.f_locals}
    if carried: raise Unsupported('loop frame condition: %s bound before the loop and assigned in it' % sorted(carried))
    return _range_each(w, label, key, obj, attr, made, {n: (id(v), len(v)) for n, v in fr.f_locals.items() if isinstance(v, (list, dict, set))}, fr)


def _range_each(w, label, key, obj, attr, made, before, fr):
    if w.choose('elements of ' + label, ['none', 'some']) == 'none': return
    made[label] = key
    a, b = Opaque(label, 'before'), Opaque(label, 'after')
    start = list(getattr(obj, attr)) + [a]
    setattr(obj, attr, start)
    n = len(start)
    yield key
    got = getattr(obj, attr)
    if not isinstance(got, list) or len(got) < n or any(x is not y for x, y in zip(got, start)): raise Unsupported('loop frame condition: %s is not only appended to' % attr)
    for k, (i, l) in before.items():
        v = fr.f_locals.get(k)
        if id(v) != i or len(v) != l: raise Unsupported('loop frame condition: %s changes in the loop' % k)
    setattr(obj, attr, list(got) + [b])
