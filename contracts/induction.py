"""Unbounded arguments over trees, lists of joints and documents: the induction step of each recursion, with the recursive call
replaced by its contract and sequences of arbitrary length (ptv/induct.py).  Concretely: random large trees."""
from ptv.runner import contract
from ptv.terms import Unsupported
from ptv.induct import Each, Name, Opaque, parts
from ptv.world import *
from contracts import robots as rb

CH = 'chain'


def need(w, label, ok):
    """an obligation of the induction step; when the code is organised differently the step does not apply, and the bounded contracts decide"""
    if not ok: raise Unsupported('induction step: %s' % label)
    w.true(label, True)


def abstract_frame(w, tag, children=True):
    """an arbitrary frame: any joint type, any number of children, arbitrary names"""
    fr = w.module('frame')
    kind = w.choose('type of ' + tag, ['fixed', 'revolute', 'prismatic'])
    f = fr.Frame(Name(w, tag), link=fr.Link(Name(w, tag + '.link')), joint=fr.Joint(Name(w, tag + '.joint'), joint_type=kind, dtype=w.torch.float64))
    sub = Each(w, lambda: shallow_frame(w, tag + '.child'), tag + '.children') if children else None
    f.children = sub
    return f, sub


def shallow_frame(w, tag):
    """a frame whose subtree is known only through the contract of the recursive call"""
    fr = w.module('frame')
    f = fr.Frame(Name(w, tag), link=fr.Link(Name(w, tag + '.link')), joint=fr.Joint(Name(w, tag + '.joint'), dtype=w.torch.float64))
    f.children = Each(w, lambda: None, tag + '.children')
    f.children.__dict__['done'] = 1         # may not be looped over: its subtree is the recursive call's business
    return f


class Swap:
    """the recursive function of a class replaced by its contract for the time of a call"""

    def __init__(self, w, cls, name, stub):
        if name not in cls.__dict__: raise Unsupported('no function %s' % name)
        self.cls, self.name, self.old = cls, name, cls.__dict__[name]
        self.stub = staticmethod(stub) if isinstance(self.old, staticmethod) else stub
        self.body = self.old.__func__ if isinstance(self.old, staticmethod) else self.old
        w.calls.add('%s:%s.%s' % (cls.__module__.split('.')[-1], cls.__name__, name))

    def __enter__(self):
        setattr(self.cls, self.name, self.stub)
        return self.body

    def __exit__(self, *a): setattr(self.cls, self.name, self.old)


LOOKUPS = [('_find_frame_recursive', 'find_frame', lambda f: f, lambda f: f.name), ('_find_link_recursive', 'find_link', lambda f: f.link, lambda f: f.link.name),
           ('_find_joint_recursive', 'find_joint', lambda f: f.joint, lambda f: f.joint.name)]


@contract(('C23', 'C06'), samples=30, standins=True)
def lookup_induction(w):
    """lookups in trees of any size.  Contract of the recursion: the first element below the frame with that name in tree order, or nothing.
    Step: for a frame with any number of children, given the contract for the children"""
    if w.concrete: return big_tree_lookups(w)
    Chain = w.module(CH).Chain
    rec, pub, what, name_of = LOOKUPS[w.choose('lookup', [0, 1, 2])]
    top, kids = abstract_frame(w, 'top')
    wanted = Name(w, 'wanted')
    below = {}

    def contract_(name, f):
        if name is not wanted or f not in [k for k in kids.made]: raise Unsupported('the recursive call is for something else')
        r = w.choose('found below', ['found', 'nothing'])
        below[id(f)] = object() if r == 'found' else None
        return below[id(f)]
    if w.choose('level', ['recursion', 'public']) == 'recursion':
        with Swap(w, Chain, rec, contract_) as body: got = body(wanted, top)
        if not kids.made: need(w, rec + ': nothing below a leaf', got is None)
        else:
            k = kids.made[0]
            if name_of(k) == wanted: need(w, rec + ': a child', got is what(k))
            elif id(k) not in below: raise Unsupported('a subtree was not searched')
            else: need(w, rec + ': below a child', got is below[id(k)])
        return
    res = object() if w.choose('below the root', ['found', 'nothing']) == 'found' else None
    asked = []
    ch = Chain.__new__(Chain)
    ch._root = top
    with Swap(w, Chain, rec, lambda name, f: (asked.append((name, f)), res)[1]):
        got = getattr(ch, pub)(wanted)
    w.calls.add('chain:Chain.' + pub)
    if name_of(top) == wanted: need(w, pub + ': the root', got is what(top))
    else: need(w, pub + ': below the root', len(asked) == 1 and asked[0][0] is wanted and asked[0][1] is top and got is res)


def big_tree_lookups(w):
    root = rb.random_tree(w, n=w.rng.choice([1, 2, 7, 20, 45]))
    ch = w.module(CH).Chain(rb.build_frames(w, root), dtype=w.torch.float64)
    nodes = list(root.walk())
    for n in nodes:
        f = ch.find_frame(n.name)
        w.true('find_frame', f is not None and f.name == n.name and f.joint.name == n.joint_name)
        l, j = ch.find_link(n.link_name), ch.find_joint(n.joint_name)
        w.true('find_link', l is f.link)
        w.true('find_joint', j is f.joint)
    w.true('unknown', ch.find_frame('x!') is None and ch.find_link('x!') is None and ch.find_joint('x!') is None)


LISTS = [('_get_joints', True, lambda f: f.joint), ('_get_joint_parent_frame_names', True, lambda f: f.name), ('_get_frame_names', True, lambda f: f.name),
         ('_get_links', False, lambda f: f.link), ('_get_link_names', False, lambda f: f.link.name)]


@contract(('C23', 'C02', 'C01'), samples=30, standins=True)
def listing_induction(w):
    """lists of joints, frames and links of trees of any size.  Contract of the recursion: the frame's own element (left out for a fixed
    joint if so asked), then the lists of its children in order"""
    if w.concrete: return big_tree_lists(w)
    Chain = w.module(CH).Chain
    rec, filtered, own = LISTS[w.choose('list', list(range(5)))]
    top, kids = abstract_frame(w, 'top')
    excl = w.choose('exclude_fixed', [True, False]) if filtered else None
    result = {}

    def contract_(f, *a, **k):
        if f not in [x for x in kids.made]: raise Unsupported('the recursive call is for something else')
        if filtered and (a[0] if a else k.get('exclude_fixed', True)) is not excl: raise Unsupported('the recursive call asks for something else')
        result[id(f)] = [object(), object()]
        return list(result[id(f)])
    with Swap(w, Chain, rec, contract_) as body:
        got = body(top, excl) if filtered else body(top)
    mine = [] if filtered and excl and top.joint.joint_type == 'fixed' else [own(top)]
    if kids.made and id(kids.made[0]) not in result: raise Unsupported('a subtree was left out')
    need(w, rec + ': own element, then the children in order', parts(got, mine, kids.made, result[id(kids.made[0])] if kids.made else ()))


def big_tree_lists(w):
    root = rb.random_tree(w, n=w.rng.choice([1, 2, 7, 20, 45]))
    ch = w.module(CH).Chain(rb.build_frames(w, root), dtype=w.torch.float64)
    nodes = list(root.walk())
    mv = rb.dofs(root)
    for ex, ns in ((True, mv), (False, nodes)):
        w.true('joints', [j.name for j in ch.get_joints(exclude_fixed=ex)] == [n.joint_name for n in ns])
        w.true('joint names', list(ch.get_joint_parameter_names(exclude_fixed=ex)) == [n.joint_name for n in ns])
        w.true('frames', list(ch.get_frame_names(exclude_fixed=ex)) == [n.name for n in ns])
        w.true('joint parents', list(ch.get_joint_parent_frame_names(exclude_fixed=ex)) == [n.name for n in ns])
    w.true('links', [l.name for l in ch.get_links()] == [n.link_name for n in nodes])
    w.true('link names', list(ch.get_link_names()) == [n.link_name for n in nodes])


@contract(('C23', 'C16'), samples=30, standins=True)
def joint_list_maps(w):
    """names and limits of any number of joints: one entry per joint, in the order of the joints, unlimited joints by infinities"""
    if w.concrete: return big_tree_limits(w)
    fr, ch_ = w.module('frame'), w.module(CH)
    Chain = ch_.Chain
    ch = Chain.__new__(Chain)
    kind = w.choose('type', ['revolute', 'prismatic'])
    which = w.choose('which', ['names', 'limits', 'velocity_limits', 'effort_limits'])
    lim = w.choose('given', [True, False])
    lo, hi = w.real('lo'), w.real('hi')

    def joint():
        j = fr.Joint(Name(w, 'joint'), joint_type=kind, dtype=w.torch.float64)
        for i, a in enumerate(('limits', 'velocity_limits', 'effort_limits')): setattr(j, a, (object(), object()))
        if which != 'names': setattr(j, which, (lo, hi) if lim else None)
        return j
    js = Each(w, joint, 'joints')
    ch.get_joints = lambda exclude_fixed=True: js
    if which == 'names':
        got = ch.get_joint_parameter_names()
        w.calls.add('chain:Chain.get_joint_parameter_names')
        need(w, 'joint names', parts(got, [], js.made, [j.name for j in js.made]))
        return
    m = dict(limits='get_joint_limits', velocity_limits='get_joint_velocity_limits', effort_limits='get_joint_effort_limits')[which]
    w.calls.add('chain:Chain.' + m)
    l, h = getattr(ch, m)()
    if not js.made: need(w, m + ': no joints', list(l) == [] and list(h) == [])
    elif lim: need(w, m, parts(l, [], js.made, [lo]) and parts(h, [], js.made, [hi]))
    else:
        inf = float('inf')
        v = [[x for x in y if not isinstance(x, Opaque)] for y in (l, h)]
        need(w, m + ': unlimited', len(v[0]) == len(v[1]) == 1 and v[0][0] == -inf and v[1][0] == inf and parts(l, [], js.made, v[0]) and parts(h, [], js.made, v[1]))


def big_tree_limits(w):
    root = rb.random_tree(w, n=w.rng.choice([1, 2, 7, 20, 45]))
    forms = ['both', 'both', 'low', 'high', 'none']
    for n in root.walk(): n.limits, n.vel, n.eff = (rb.any_limits(w, '', w.rng.choice(forms)) for _ in range(3))
    fr = rb.build_frames(w, root)

    def more(f, n):
        f.joint.velocity_limits, f.joint.effort_limits = n.vel, n.eff
        for a, b in zip(f.children, n.children): more(a, b)
    more(fr, root)
    ch = w.module(CH).Chain(fr, dtype=w.torch.float64)
    inf = float('inf')
    for name, attr in (('get_joint_limits', 'limits'), ('get_joint_velocity_limits', 'vel'), ('get_joint_effort_limits', 'eff')):
        lo, hi = getattr(ch, name)()
        w.true('count', len(lo) == len(hi) == len(rb.dofs(root)))
        for k, n in enumerate(rb.dofs(root)):
            L = getattr(n, attr) or (-inf, inf)
            w.true(name + ' low', lo[k] == L[0], '%s for %s' % (lo[k], L))
            w.true(name + ' high', hi[k] == L[1], '%s for %s' % (hi[k], L))


@contract(('C23',), samples=20, standins=True)
def child_links_induction(w):
    """joints with the links that move with them, for trees of any size"""
    if w.concrete:
        root = rb.random_tree(w, n=w.rng.choice([1, 2, 7, 20, 45]))
        ch = w.module(CH).Chain(rb.build_frames(w, root), dtype=w.torch.float64)
        got = {j.name: sorted(l.name for l in ls) for j, ls in ch.get_joints_and_child_links()}
        w.true('joints and links', got == {n.joint_name: sorted(x.link_name for x in n.walk()) for n in root.walk() if n.kind != 'fixed'})
        return
    Chain = w.module(CH).Chain
    top, kids = abstract_frame(w, 'top')
    out, links = {}, {}

    def contract_(f):
        if f not in [x for x in kids.made]: raise Unsupported('the recursive call is for something else')
        out[id(f)], links[id(f)] = object(), [object(), object()]
        yield out[id(f)]
        return list(links[id(f)])
    with Swap(w, Chain, '_get_joints_and_child_links', contract_) as body:
        g, ys = body(top), []
        while True:
            try: ys.append(next(g))
            except StopIteration as e: ret = e.value; break
    k = kids.made[0] if kids.made else None
    need(w, 'links of the subtree', parts(ret, [top.link], kids.made, links[id(k)] if k else ()))
    if k is not None: need(w, 'what the children report', ys and ys[0] is out[id(k)]); ys = ys[1:]
    if top.joint.joint_type == 'fixed': need(w, 'a fixed joint is not reported', not ys)
    else: need(w, 'own joint with all links', len(ys) == 1 and ys[0][0] is top.joint and ys[0][1] is ret)


@contract(('C14',), samples=20, standins=True)
def move_induction(w):
    """Frame.to for trees of any size: joint, link and every child are moved with the same arguments, in place of the old ones, in order"""
    if w.concrete:
        t = w.torch
        root = rb.random_tree(w, n=w.rng.choice([1, 2, 7, 20]))
        f = rb.build_frames(w, root, dtype=t.float64)
        g = f.to(dtype=t.float32, device="cpu")

        def walk(a, n):
            w.true('axis', a.joint.axis.dtype == t.float32)
            w.true('offsets', all(o is None or o.get_matrix().dtype == t.float32 for o in (a.joint.offset, a.link.offset)))
            w.true('children', [c.name for c in a.children] == [c.name for c in n.children])
            for x, y in zip(a.children, n.children): walk(x, y)
        return walk(g, root)
    fr = w.module('frame')
    top, kids = abstract_frame(w, 'top')
    args, moved = (object(),), {}
    kw = dict(device=object())

    class Part:
        def __init__(self): self.new = object()
        def to(self, *a, **k):
            if a != args or k != kw: raise Unsupported('moved to somewhere else')
            return self.new

    class Child(Part): pass
    kids.__dict__['element'] = Child
    j, l = Part(), Part()
    top.joint, top.link = j, l
    w.calls.add('frame:Frame.to')
    r = top.to(*args, **kw)
    need(w, 'returns the frame', r is top)
    need(w, 'joint and link', top.joint is j.new and top.link is l.new)
    if isinstance(top.children, Each): raise Unsupported('the children are not replaced')
    need(w, 'children', parts(top.children, [], kids.made, [k.new for k in kids.made]))
