"""C18, C19, C20: the recursions that turn a parsed description into frames, for any number of joints, bodies and sites: the induction step,
with the recursive call replaced by its contract.  The elements of the description are arbitrary: any names, types, numbers, any of the optional
parts present or not.  Concretely: large documents through the public functions."""
import math
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported
from ptv.induct import Each, Name, Opaque, parts, range_each, refusing
from ptv.world import *
from contracts.induction import need
from contracts import parsers as pa


class Rec:
    """a record of the parsed description; any other field is out of the contract's reach"""

    def __init__(self, **k): self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('field %s of the description' % n)


refusing(Rec)


class SwapFunction:
    """a recursive module function replaced by its contract for the time of a call"""

    def __init__(self, w, mod, name, stub):
        self.m = w.module(mod)
        if not hasattr(self.m, name): raise Unsupported('no function %s' % name)
        self.name, self.old, self.stub = name, getattr(self.m, name), stub
        w.calls.add('%s:%s' % (mod, name))

    def __enter__(self):
        setattr(self.m, self.name, self.stub)
        return self.old

    def __exit__(self, *a): setattr(self.m, self.name, self.old)


class Links:
    """the links by name; the same link every time"""

    def __init__(self, make): self.make, self.known = make, []

    def __getitem__(self, name):
        for n, l in self.known:
            if n is name: return l
        l = self.make(name)
        self.known.append((name, l))
        return l


def reals(w, tag, n=3): return [w.real('%s%d' % (tag, k)) for k in range(n)]


def direction(w, tag):
    v = reals(w, tag)
    w.assume(S.dot(v, v) > w.const(DEGENERATE))
    return v


@contract(('C18',), samples=12, budget=100, weight=2, functions=('urdf:build_chain_from_urdf',), standins=True)
def urdf_recursion(w):
    """the children of a frame, for any number of joints: one child frame per joint whose parent is this frame's link, in document order, with the
    declared name, joint type, origin, axis, limits, velocity and effort limits, and below it what the recursion gives for that frame"""
    if w.concrete: return big_document(w, 'urdf')
    t = w.torch
    fr = w.module('frame')
    top_name = Name(w, 'top')
    top = fr.Frame(Name(w, 'frame'), link=fr.Link(top_name))
    asked, below = [], object()
    spec = {}

    def joint():
        kind = w.choose('type', ['revolute', 'continuous', 'prismatic', 'fixed'])
        j = Rec(name=Name(w, 'joint'), parent=Name(w, 'parent'), child=Name(w, 'child'), type=kind)
        how = w.choose('origin', ['none', 'given'])
        spec['xyz'], spec['rpy'] = [0, 0, 0], [0, 0, 0]
        j.origin = None
        if how == 'given':
            spec['xyz'], spec['rpy'] = reals(w, 'xyz'), reals(w, 'rpy')
            j.origin = Rec(xyz=list(spec['xyz']), rpy=list(spec['rpy']), position=list(spec['xyz']), rotation=list(spec['rpy']))
        spec['axis'] = j.axis = direction(w, 'axis') if kind != 'fixed' or w.choose('axis', [True, False]) else None
        lim = reals(w, 'lim', 4)
        have = kind in ('revolute', 'prismatic') or w.choose('limit', [True, False])
        j.limit = Rec(lower=lim[0], upper=lim[1], velocity=lim[2], effort=lim[3]) if have else None
        spec['lim'] = lim if have else None
        return j
    js = Each(w, joint, 'joints')
    lmap = Links(lambda name: Rec(name=name, origin=None, visual=None, visuals=[]))

    def contract_(f, l, j):
        if l is not lmap or j is not js: raise Unsupported('the recursive call is for another description')
        asked.append(f)
        return below
    with SwapFunction(w, 'urdf', '_build_chain_recurse', contract_) as body: got = body(top, lmap, js)
    if not js.made: return need(w, 'no joints, no children', list(got) == [])
    j = js.made[0]
    if not j.parent == top_name:
        need(w, 'a joint of another link', parts(got, [], js.made, []) and not asked)
        return
    plain = [x for x in got if not isinstance(x, Opaque)]
    need(w, 'one child', len(plain) == 1 and parts(got, [], js.made, plain))
    c = plain[0]
    need(w, 'below the child', asked == [c] and c.children is below)
    need(w, 'names', c.name is j.child and c.link.name is j.child and c.joint.name is j.name)
    w.true('joint type', c.joint.joint_type == pa.URDF_KIND[j.type])
    pa.check_offset(w, 'origin', c, S.homog(S.rpy_matrix(*spec['rpy']), spec['xyz']))
    if j.type == 'fixed': return
    pa.check_axis(w, c, spec['axis'])
    lm = spec['lim']
    pa.check_limits(w, 'limits', c.joint.limits, None if lm is None or j.type == 'continuous' else lm[:2])
    pa.check_limits(w, 'velocity limits', c.joint.velocity_limits, None if lm is None else (-lm[2], lm[2]))
    pa.check_limits(w, 'effort limits', c.joint.effort_limits, None if lm is None else (-lm[3], lm[3]))


@contract(('C19',), samples=12, budget=150, weight=2, functions=('sdf:build_chain_from_sdf',), standins=True)
def sdf_recursion(w):
    """the children of a frame, for any number of joints: one child frame per joint whose parent is this frame's link, in document order, with the
    declared name and joint type, placed by the poses of the two links, with the axis in the frame of the child and the declared limits, and below
    it what the recursion gives for that frame"""
    if w.concrete: return big_document(w, 'sdf')
    fr = w.module('frame')
    top_name = Name(w, 'top')
    top = fr.Frame(Name(w, 'frame'), link=fr.Link(top_name))
    asked, below = [], object()
    spec = {}
    pose = Links(lambda name: reals(w, 'pose_%s_' % name.label, 6) if w.choose('pose of ' + name.label, [True, False]) else None)
    lmap = Links(lambda name: Rec(name=name, pose=pose[name] and list(pose[name]), visuals=[]))

    def joint():
        kind = w.choose('type', ['revolute', 'prismatic', 'fixed'])
        j = Rec(name=Name(w, 'joint'), parent=Name(w, 'parent'), child=Name(w, 'child'), type=kind, axis=None)
        if j.parent == top_name: j.parent = top_name
        spec['lim'] = None
        if kind != 'fixed':
            spec['axis'] = direction(w, 'axis')
            spec['model'] = w.choose('axis frame', [False, True])
            j.axis = Rec(xyz=list(spec['axis']), use_parent_model_frame=spec['model'], limit=None)
            how = w.choose('limit', ['none', 'both', 'lower', 'upper', 'neither'])
            lo, hi = w.real('lower'), w.real('upper')
            if how != 'none':
                lo, hi = lo if how in ('both', 'lower') else None, hi if how in ('both', 'upper') else None
                j.axis.limit = Rec(lower=lo, upper=hi)
                if how != 'neither': spec['lim'] = (pa.bound(lo, -1), pa.bound(hi, 1))
        return j
    js = Each(w, joint, 'joints')

    def contract_(f, l, j):
        if l is not lmap or j is not js: raise Unsupported('the recursive call is for another description')
        asked.append(f)
        return below
    with SwapFunction(w, 'sdf', '_build_chain_recurse', contract_) as body: got = body(top, lmap, js)
    if not js.made: return need(w, 'no joints, no children', list(got) == [])
    j = js.made[0]
    if j.parent is not top_name:
        need(w, 'a joint of another link', parts(got, [], js.made, []) and not asked)
        return
    plain = [x for x in got if not isinstance(x, Opaque)]
    need(w, 'one child', len(plain) == 1 and parts(got, [], js.made, plain))
    c = plain[0]
    need(w, 'below the child', asked == [c] and c.children is below)
    need(w, 'names', c.name is j.child and c.link.name is j.child and c.joint.name is j.name)
    w.true('joint type', c.joint.joint_type == j.type)
    W = lambda n: S.eye(4) if pose[n] is None else S.homog(S.rpy_matrix(*pose[n][3:]), pose[n][:3])
    P, C = W(top_name), W(j.child)
    pa.check_offset(w, 'pose', c, S.matmul(S.rigid_inv(P), C))
    if j.type == 'fixed': return
    pa.check_axis(w, c, S.matvec([[C[k][r] for k in range(3)] for r in range(3)], spec['axis']) if spec['model'] else spec['axis'])
    pa.check_limits(w, 'limits', c.joint.limits, spec['lim'])


def big_document(w, what):
    """a document with up to 40 links through the public function"""
    old = pa.tree, pa.NAMES
    n = w.rng.choice([12, 20, 40])
    try:
        pa.NAMES = ['n%d' % i for i in range(n)]
        pa.tree = lambda rng, symbolic, k: [-1] + [rng.randrange(max(0, i - rng.choice([1, 2, 5])), i) for i in range(1, n)]
        getattr(pa, what + '_chain')(w)
    finally: pa.tree, pa.NAMES = old


@contract(('C20',), samples=12, budget=150, weight=2, functions=('mjcf:build_chain_from_mjcf',), standins=True)
def mjcf_recursion(w):
    """the children added to a frame, for any number of bodies and sites: one per body whose parent is this frame's body, except that body itself
    (the world is its own parent), with the declared name, pose and joint, several joints being rejected, and the recursion carried on below it;
    then one fixed frame per site of the body"""
    if w.concrete: return big_document(w, 'mjcf')
    import mujoco
    import numpy as np
    from ptv import shadow
    fr = w.module('frame')
    arr = lambda xs: shadow.SymArray(w.make((len(xs),), lambda i: tm.R(xs[i]), dtype=w.torch.float64))
    one = lambda x: np.array([x], dtype=np.int32)
    T = {'revolute': mujoco.mjtJoint.mjJNT_HINGE, 'prismatic': mujoco.mjtJoint.mjJNT_SLIDE}
    top = fr.Frame(Name(w, 'top'), link=fr.Link(Name(w, 'top.link')))
    top_id = Name(w, 'top.id')
    parent = Rec(id=top_id, name=top.name)
    asked = []
    body_id, site_id = Name(w, 'body.id'), Name(w, 'site.id')
    unit = lambda tag, n: (lambda u: [w.at(u, k) for k in range(n)])(w.unit(tag, (), n))
    spec = dict(pos=reals(w, 'pos'), quat=unit('quat', 4), spos=reals(w, 'spos'), squat=unit('squat', 4))
    nj = w.choose('joints of the body', [0, 1, 2])
    kind = w.choose('type', ['revolute', 'prismatic']) if nj == 1 else None
    limited = w.choose('limited', [True, False]) if nj == 1 else None
    ref = 0
    if nj == 1:
        spec['axis'] = unit('axis', 3)
        spec['range'] = reals(w, 'range', 2)
        if w.choose('reference value', [True, False]):
            ref = w.real('ref')
            w.assume(absv(ref) > w.const('0.001'))
    child = Rec(id=body_id, name=Name(w, 'body'), parentid=Name(w, 'body.parent'), jntnum=one(nj), jntadr=one(17 if nj else -1), pos=arr(spec['pos']), quat=arr(spec['quat']))
    joint = Rec(id=17, name=Name(w, 'joint'), type=one(int(T[kind or 'revolute'])), axis=nj == 1 and arr(spec['axis']), pos=arr([0.0, 0.0, 0.0]),
                range=nj == 1 and arr(spec['range']), limited=np.array([1 if limited else 0], dtype=np.uint8), qpos0=arr([ref]))
    site = Rec(id=site_id, name=Name(w, 'site'), bodyid=Name(w, 'site.body'), pos=arr(spec['spos']), quat=arr(spec['squat']))

    def view(x, key):
        def get(i):
            if i is key or type(i) is not Name and type(key) is int and int(i) == key: return x
            raise Unsupported('an element of the model other than the one of this iteration')
        return get
    nb, ns = tm.ivar('nbody', 1), tm.ivar('nsite', 0)
    model = Rec(nbody=nb, nsite=ns, ngeom=0, body=view(child, body_id), joint=view(joint, 17), jnt=view(joint, 17), site=view(site, site_id))
    made = {}
    w.loop(lambda rng, fr_: range_each(w, rng, fr_, {id(nb): ('bodies', body_id), id(ns): ('sites', site_id)}, made, (top, 'children')))

    def contract_(m, f, b):
        if m is not model or b is not child: raise Unsupported('the recursive call is for something else')
        asked.append((f, list(f.children)))
    expect = None
    with SwapFunction(w, 'mjcf', '_build_chain_recurse', contract_) as body:
        try: body(model, top, parent)
        except ValueError as e: expect = e
    mine = 'bodies' in made and child.parentid == top_id and not body_id == top_id
    if mine and nj > 1:
        w.true('several joints rejected', expect is not None)
        return
    w.true('not rejected', expect is None)
    kids = [c for c in top.children if not isinstance(c, Opaque)]
    want = ([child.name] if mine else []) + ([site.name] if 'sites' in made and site.bodyid == top_id else [])
    need(w, 'one child per body and site', [id(c.name) for c in kids] == [id(n) for n in want])
    if mine:
        c = kids.pop(0)
        need(w, 'below the body', [(x[0] is c, x[1]) for x in asked] == [(True, [])])
        need(w, 'name', c.name is child.name and c.link.name is child.name)
        E = S.homog(S.quat_matrix(spec['quat']), spec['pos'])
        if nj:
            w.true('joint type', c.joint.joint_type == kind)
            need(w, 'joint name', c.joint.name is joint.name)
            for i in range(3): w.same('axis[%d]' % i, w.at(c.joint.axis, i), spec['axis'][i])
            pa.check_limits(w, 'limits', c.joint.limits, tuple(spec['range']) if limited else None)
            if type(ref) is not int:
                back = S.homog(S.rodrigues(spec['axis'], -ref), [0, 0, 0]) if kind == 'revolute' else S.homog(S.eye(3), [-ref * a for a in spec['axis']])
                E = S.matmul(E, back)
        else: w.true('joint type', c.joint.joint_type == 'fixed')
        pa.check_offset(w, 'pose', c, E)
    else: need(w, 'no recursion', not asked)
    if kids:
        c = kids[0]
        w.true('site is fixed', c.joint.joint_type == 'fixed')
        need(w, 'site name', c.link.name is site.name and list(c.children) == [])
        pa.check_offset(w, 'site pose', c, S.homog(S.quat_matrix(spec['squat']), spec['spos']))
