"""C01, C02, C03, C05: what surrounds the kernels, for chains of any size: a mapping, list, array or tensor of joint values becomes the
configuration tensor, a serial chain takes the values of its own joints, and the result is keyed by frame.  Joint names are arbitrary distinct names;
the order of a mapping is arbitrary.  Concretely: large random trees."""
from ptv.runner import contract
from ptv import terms as tm
from ptv.terms import Unsupported, R
from ptv.induct import Opaque, refusing
from ptv.world import *
from contracts.tables import sameint, ite_int, CH
from contracts import robots as rb


class Key:
    """the k-th key of a mapping / the name of frame k"""

    def __init__(self, what, k): self.what, self.k = what, k

    def __eq__(self, o):
        if not isinstance(o, Key) or o.what != self.what: return False
        return bool(sameint(self.k, o.k))

    def __hash__(self): return 7
    def __repr__(self): return '<%s>' % self.what
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation %s on an arbitrary name' % n)


refusing(Key)


class Given:
    """a mapping of arbitrary size from joint names to values, in arbitrary order"""

    def __init__(self, G): self.G = G
    def sym_isinstance(self, cs): return dict in cs
    def sym_len(self): return self.G.K

    def keys(self): return self.G.seqs.SymList('keys', self.G.K, lambda k: Key('key', k))
    def items(self): return Items(self.G)

    def __getitem__(self, key):
        if isinstance(key, Key) and key.what == 'key': return self.G.value(key.k)
        if isinstance(key, Key) and key.what == 'joint of': return self.G.value(self.G.pos_of_serial(key.k))
        raise Unsupported('lookup in a mapping')


refusing(Given)


class Items:
    def __init__(self, G): self.G = G

    def __iter__(self):
        import sys
        return self.G.scatter(sys._getframe(1), 0, self.G.K, lambda d: (Key('key', d), self.G.value(d)))


refusing(Items)


class JointNames:
    """the names of the joints of the chain, in order (contract of get_joint_parameter_names)"""

    def __init__(self, G): self.G = G
    def sym_len(self): return self.G.J

    def index(self, key):
        if not isinstance(key, Key) or key.what != 'key': raise Unsupported('index of another name')
        if self.G.unknown and bool(sameint(key.k, self.G.u)): raise ValueError('not in list')
        return self.G.jx(key.k)


refusing(JointNames)


class State:
    def __init__(self, w):
        from ptv import seqs
        self.w, self.seqs = w, seqs
        self.F, self.J = w.dim('F'), w.dim('J')
        self.unknown = False

    # a mapping with K entries
    def mapping(self, form):
        w = self.w
        self.form = form
        self.K = w.dim('K')
        self.B = w.dim('B') if form in ('tensors', 'arrays') else None
        tm.iapp_bounds.update(jx=(0, self.J), pos=(0, self.K))
        return Given(self)

    def jx(self, k):
        j = tm.iapp('jx', (k,))
        self.w.assume(land(tm.bapp('has', (j,)), tm.ieq(tm.iapp('pos', (j,)), k)))       # joint names are distinct: so are the positions
        return j

    def has(self, j):
        h = tm.bapp('has', (j,))
        self.w.assume(implies(h, tm.ieq(tm.iapp('jx', (tm.iapp('pos', (j,)),)), j)))
        return h

    def v(self, k, b): return tm.app('v', (k, b) if self.B is not None else (k,))

    def value(self, k):
        w = self.w
        if self.form == 'floats': return tm.app('v', (k,))
        t = w.make((self.B,) if self.B is not None else (), (lambda b: tm.app('v', (k, b))) if self.B is not None else (lambda: tm.app('v', (k,))))
        return w.array(t) if self.form == 'arrays' else t

    def scatter(self, fr, lo, hi, element):
        """a loop that writes one column of a tensor per element"""
        s = self.seqs
        l = s.loop_at(fr)
        subs, apps, attrs, names = s.written(l)
        if apps or attrs or s.carried(fr, l, names): raise Unsupported('loop frame condition: %s' % sorted(apps | attrs | s.carried(fr, l, names)))
        outer = [(t, s.value(fr, t)) for t in subs if t.split('.')[0] in fr.f_locals]
        if len(outer) != 1 or not getattr(outer[0][1], '_sym_tensor', False): raise Unsupported('loop writes %s' % sorted(subs))
        T = outer[0][1]
        shape = tuple(T.shape)
        if not shape or shape[-1] is not self.J: raise Unsupported('loop writes %s' % outer[0][0])

        def expected(ix, d):
            j = ix[-1]
            p = self.pos(j)
            return ite(land(self.has(j), tm.ilt(p, d)), self.entry(ix, p), self.blank)

        def check(label, T, d):
            if self.unknown: self.w.check(label + ': the unknown name is yet to come', tm.ile(d, self.u))
            rd = T._reader()
            for ix in self.w.idx(shape):
                j = ix[-1]
                known = self.has_bool(j)
                if known:
                    p = self.pos(j)
                    if d is not lo:
                        c = tm.isub(d, 1)
                        self.at_entry(c)
                        if bool(tm.ieq(p, c)): self.w.assume(tm.ieq(self.col(p), self.col(c)))      # congruence
                        else: self.w.assume(lnot(tm.ieq(self.col(c), j)))                            # pos is the inverse of col
                    known = bool(tm.ilt(p, d))
                if known: self.w.same(label + ': joint values', rd(ix), self.entry(ix, p))
                else: self.is_blank(label + ': joints without a value yet', rd(ix))

        def havoc(T, d):
            if self.unknown: self.w.assume(tm.ile(d, self.u))
            T._write(lambda ix: tm.TRUE, lambda ix: expected(ix, d))
        for d in self.w.cut(lo, hi, lambda: T, check, havoc):
            self.at_entry(d)
            yield element(d)

    # where the value of a joint is
    col = jx
    def pos(self, j): return tm.iapp('pos', (j,))
    def has_bool(self, j): return bool(self.has(j))
    def at_entry(self, k): self.jx(k)
    def entry(self, ix, p): return self.v(p, ix[0])
    blank = R(float('nan'))
    def is_blank(self, label, x): self.w.check(label, tm.isnan(x))


def chain_of(w, G, cls='Chain', **methods):
    """a chain object of which only the given methods are known, by their contracts"""
    from ptv import seqs
    base = w.fn(CH, cls)
    C = type('C', (base,), methods)
    c = C.__new__(C)
    c.dtype, c.device, c.n_joints = w.torch.float64, w.torch.device('cpu'), G.J
    return c


@contract(('C02', 'C01'), samples=12, budget=120, weight=2, standins=True, functions=('chain:Chain.ensure_tensor', 'chain:get_dict_elem_shape'))
def mapping_to_tensor(w):
    """ensure_tensor on a mapping, any number of joints: the value of each joint goes to the column of that joint, whatever the order;
    an unknown or missing name is rejected"""
    if w.concrete: return large_mapping(w)
    from ptv import seqs
    w.loader = seqs.loader()
    w.torch = w.loader.torch
    G = State(w)
    ch = chain_of(w, G, get_joint_parameter_names=lambda self, exclude_fixed=True: JointNames(G))
    x = G.mapping(w.choose('values', ['floats', 'scalars', 'tensors', 'arrays']))
    case = w.choose('case', ['complete', 'missing', 'unknown'])
    if case == 'complete':
        w.assume(tm.forall(G.J, lambda j: tm.bapp('has', (j,))))
        th = ch.ensure_tensor(x)
        w.shape('shape', th, (G.B, G.J) if G.B is not None else (G.J,))
        w.true('dtype', th.dtype == ch.dtype)
        for ix in w.idx(tuple(th.shape)):
            w.check('has', tm.bapp('has', (ix[-1],)))
            w.same('joint value', w.at(th, *ix), G.entry(ix, G.pos(ix[-1])))
    elif case == 'missing':
        m = tm.ivar('missing', 0, G.J)
        w.assume(lnot(tm.bapp('has', (m,))))
        w.raises('rejected: missing', lambda: ch.ensure_tensor(x))
    else:
        G.unknown, G.u = True, tm.ivar('unknown', 0, G.K)
        w.raises('rejected: unknown', lambda: ch.ensure_tensor(x))


def large_mapping(w):
    root = rb.random_tree(w, n=w.rng.choice([10, 20, 40]))
    ds = rb.dofs(root)
    if not ds: return
    ch = rb.build_chain(w, root)
    B = w.rng.choice([None, 1, 3])
    th = w.tensor('th', (B, len(ds)) if B else (len(ds),))
    perm = list(range(len(ds))); w.rng.shuffle(perm)
    x = {ds[k].joint_name: th[..., k] for k in perm}
    w.true('distinct names', len(x) == len(ds))
    y = ch.ensure_tensor(x)
    w.shape('shape', y, tuple(th.shape))
    for ix in w.idx(tuple(th.shape)): w.same('joint value', w.at(y, *ix), w.at(th, *ix))
    k = w.rng.choice(perm)
    if len(ds) > 1: w.raises('rejected: missing', lambda: ch.ensure_tensor({n: v for n, v in x.items() if n != ds[k].joint_name}))
    w.raises('rejected: unknown', lambda: ch.ensure_tensor(dict(x, nobody=th[..., 0])))


# ------------------------------------------------------------------ forward kinematics of any chain
class FrameTable:
    """frame_to_idx / idx_to_frame of a chain: frames are numbered (chain_tables_every_tree)"""

    def __init__(self, G, way): self.G, self.way = G, way

    def __getitem__(self, x):
        if self.way == 'name':
            if type(x) is tm.T or type(x) is int: return Key('frame', x)
        elif isinstance(x, Key) and x.what == 'frame': return x.k
        raise Unsupported('lookup in the frame table')

    def __contains__(self, x): return isinstance(x, Key) and x.what == 'frame'


refusing(FrameTable)


def kernel_contract(w, G, B, val):
    """forward_kinematics_tensor, by its contract (fk_kernel): the pose of every frame under the given configuration"""
    def f(self, th, analytical_grad=True):
        w.shape('precondition: configuration', th, (B, G.J))
        w.true('precondition: configuration dtype', th.dtype == self.dtype)
        w.true('precondition: gradients are the default', analytical_grad is True)
        for b, j in w.idx((B, G.J)): w.same('precondition: configuration', w.at(th, b, j), val(b, j))
        return w.make((G.F, B, 4, 4), lambda *i: tm.app('pose', i))
    return f


def values_in(w, G, n, form):
    """n joint values in the given form; batch size and value of joint j"""
    if form in ('batch', 'array batch'):
        B = w.dim('B')
        t = w.tensor('q', (B, n))
        return (w.array(t) if form == 'array batch' else t), B, lambda b, j: tm.app('q', (b, j))
    t = w.tensor('q', (n,))
    x = {'vector': lambda: t, 'array': lambda: w.array(t), 'list': lambda: G.seqs.SymList('values', n, lambda k: tm.app('q', (k,)))}[form]()
    return x, 1, lambda b, j: tm.app('q', (j,))


FORMS = ['batch', 'vector', 'array', 'array batch', 'list']


@contract(('C01', 'C02', 'C03'), samples=12, budget=120, weight=2, standins=True, functions=('chain:Chain.forward_kinematics',))
def fk_every_chain(w):
    """Chain.forward_kinematics, any number of frames and joints: one Transform3d per requested frame, keyed by its name, holding its pose"""
    if w.concrete: return large_fk(w)
    from ptv import seqs
    w.loader = seqs.loader()
    w.torch = t = w.loader.torch
    G = State(w)
    x, B, val = values_in(w, G, G.J, w.choose('form', FORMS))
    K = w.dim('K')
    tm.iapp_bounds['sel'] = (0, G.F)
    sel = w.make((K,), lambda k: tm.iapp('sel', (k,)), dtype=t.int64)
    which = w.choose('frames', ['tensor', 'all'])
    ch = chain_of(w, G, forward_kinematics_tensor=kernel_contract(w, G, B, val),
                  get_all_frame_indices=lambda self: w.make((G.F,), lambda k: k, dtype=t.int64))
    ch.idx_to_frame = FrameTable(G, 'name')
    r = ch.forward_kinematics(x) if which == 'all' else ch.forward_kinematics(x, sel) if w.choose('argument', ['positional', 'keyword']) == 'positional' else ch.forward_kinematics(x, frame_indices=sel)
    if not isinstance(r, seqs.SymList): raise Unsupported('result of forward_kinematics')
    need_len = G.F if which == 'all' else K
    w.check('number of entries', sameint(r.n, need_len))
    for k, in w.idx((need_len,)):
        name, T = r.elem(k)
        f = k if which == 'all' else tm.iapp('sel', (k,))
        w.true('keyed by the name of the frame', isinstance(name, Key) and name.what == 'frame')
        w.check('keyed by the name of the frame', sameint(name.k, f))
        is_pose(w, T, B, f)


def is_pose(w, T, B, f):
    w.true('a transform', type(T).__name__ == 'Transform3d')
    M = T.get_matrix()
    w.shape('pose', M, (B, 4, 4))
    for b, i, j in w.idx((B, 4, 4)): w.same('pose', w.at(M, b, i, j), tm.app('pose', (f, b, i, j)))


def large_fk(w):
    root = rb.random_tree(w, n=w.rng.choice([10, 20, 40]))
    ds = rb.dofs(root)
    if not ds: return
    ch = rb.build_chain(w, root)
    th = w.tensor('th', (2, len(ds)))
    nodes = list(root.walk())
    pick = w.rng.sample(nodes, 3)
    r = ch.forward_kinematics(th, ch.get_frame_indices(*[d.name for d in pick]))
    w.true('requested frames', set(r) == {d.name for d in pick})
    full = ch.forward_kinematics(th)
    w.true('all frames', set(full) == {d.name for d in nodes})
    for d in nodes:
        for b in range(2):
            E = rb.pose_of(d, {x.joint_name: w.at(th, b, k) for k, x in enumerate(ds)}, None)
            for m in [full[d.name]] + ([r[d.name]] if d in pick else []):
                for i in range(4):
                    for j in range(4): w.same('pose', w.at(m.get_matrix(), b, i, j), E[i][j], 1e-8)


class SerialFrame:
    """frame k of a serial chain: numbered k; which of them move is arbitrary"""

    def __init__(self, k): self.name, self.joint, self.k = Key('frame', k), SerialJoint(k), k
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a serial frame' % n)


class SerialJoint:
    def __init__(self, k): self.name, self.joint_type, self.k = Key('joint of', k), JointType(k), k
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a joint' % n)


class JointType:
    def __init__(self, k): self.k = k
    def __ne__(self, o):
        if o == 'fixed': return tm.bapp('movable', (self.k,))
        raise Unsupported('comparison of a joint type')
    def __eq__(self, o): return tm.lnot(self != o)
    __hash__ = None


@contract(('C05', 'C02'), samples=12, budget=120, weight=2, standins=True,
          functions=('chain:SerialChain.forward_kinematics', 'chain:SerialChain.convert_serial_inputs_to_chain_inputs', 'chain:get_batch_size', 'chain:get_n_joints', 'chain:Chain.get_frame_indices'))
def serial_fk_every_chain(w):
    """SerialChain.forward_kinematics, any number of frames and joints: the pose of the last frame (or of every frame, by name); values for a wrong number of joints are rejected"""
    if w.concrete: return large_serial(w)
    from ptv import seqs
    w.loader = seqs.loader()
    w.torch = t = w.loader.torch
    G = State(w)
    form = w.choose('form', FORMS + ['mapping'])
    end_only = w.choose('result', ['end', 'all'])
    n = G.J
    if form == 'mapping':
        x = G.mapping('tensors')
        n, B = G.K, G.B
        val = lambda b, j: G.v(G.pos(j), b)
    else:
        if w.choose('number of values', ['right', 'wrong']) == 'wrong': n = w.dim('N')
        x, B, val = values_in(w, G, n, form)
    if not bool(tm.ieq(n, G.J)): right = False
    else: right = True
    ch = chain_of(w, G, 'SerialChain', forward_kinematics_tensor=kernel_contract(w, G, B, val), get_joint_parameter_names=lambda self, exclude_fixed=True: JointNames(G),
                  get_all_frame_indices=lambda self: w.make((G.F,), lambda k: k, dtype=t.int64))
    G.movable = movable_frames(w, G)
    ch.idx_to_frame, ch.frame_to_idx = FrameTable(G, 'name'), FrameTable(G, 'number')
    ch._serial_frames = seqs.SymList('frames', G.F, SerialFrame)
    if form == 'mapping' and right:
        w.assume(tm.forall(G.J, lambda j: tm.bapp('has', (j,))))
    run = lambda: ch.forward_kinematics(x) if end_only == 'end' else ch.forward_kinematics(x, end_only=False)
    if not right:
        w.raises('rejected: wrong number of values', run)
        return
    r = run()
    if end_only == 'end': is_pose(w, r, B, tm.isub(G.F, 1))
    else:
        if not isinstance(r, seqs.SymList): raise Unsupported('result of forward_kinematics')
        w.check('number of entries', sameint(r.n, G.F))
        for k, in w.idx((G.F,)):
            name, T = r.elem(k)
            w.check('keyed by the name of the frame', isinstance(name, Key) and name.what == 'frame' and sameint(name.k, k))
            is_pose(w, T, B, k)


def movable_frames(w, G):
    """the frames of a serial chain that move, in order: as many as the chain has joints (serial_construction)"""
    def to_list(f):
        k = tm.ivar('anyframe', 0, G.F)
        c = f.cond(k)
        m = tm.bapp('movable', (k,))
        w.check('the frames that move', land(implies(c, m), implies(m, c)))
        e = f.elt(k)
        if not (isinstance(e, SerialFrame) and e.k is k): raise Unsupported('frames that move')
        tm.iapp_bounds['mf'] = (0, G.F)
        return G.seqs.SymList('movable frames', G.J, lambda i: SerialFrame(tm.iapp('mf', (i,))))
    w.list_hook = to_list
    return to_list


def large_serial(w):
    root = rb.random_tree(w, n=w.rng.choice([10, 20, 40]))
    leaf = max(root.walk(), key=lambda d: len(d.path()))
    ds = [d for d in leaf.path()[1:] if d.kind != 'fixed']
    if not ds: return
    ch = w.fn(CH, 'SerialChain')(rb.build_chain(w, root), leaf.name)
    th = w.tensor('th', (2, len(ds) + 2))
    n = len(ds)
    q = th[:, :n]
    end = ch.forward_kinematics(q)
    every = ch.forward_kinematics(q, end_only=False)
    w.true('frames of the path', set(every) == {d.name for d in leaf.path()})
    for d in leaf.path():
        for b in range(2):
            E = rb.pose_of(d, {x.joint_name: w.at(q, b, k) for k, x in enumerate(ds)}, root)
            for m in [every[d.name]] + ([end] if d is leaf else []):
                for i in range(4):
                    for j in range(4): w.same('pose', w.at(m.get_matrix(), b, i, j), E[i][j], 1e-8)
    for k in (n - 1, n + 1, n + 2):
        if k > 0: w.raises('rejected: wrong number of values', lambda: ch.forward_kinematics(th[:, :k]))


# ------------------------------------------------------------------ construction of a serial chain
class Path:
    """frame number anc(k) of the source tree is the k-th frame on the path to the end frame; P of them"""

    def __init__(self, w):
        from ptv import seqs
        self.w, self.seqs = w, seqs
        self.dt = w.torch.float64
        self.F, self.P, self.M = w.dim('F'), w.dim('P'), w.dim('M', lo=0)
        tm.iapp_bounds.update(anc=(0, self.F), mf=(1, self.P))
        self.end = tm.ivar('end', 0, self.F)
        self.copies, self.stage, self.inits = {}, 'tree', []
        self.root = SourceFrame(self, None)
        w.assume(tm.ieq(self.anc(tm.isub(self.P, 1)), self.end))

    def anc(self, k): return tm.iapp('anc', (k,))

    def place(self, k):
        """facts about place k: frames are on the path once"""
        self.w.assume(implies(tm.ieq(self.anc(k), self.end), tm.ieq(k, tm.isub(self.P, 1))))
        return self.anc(k)

    def copy(self, k):
        for c in self.copies.values():
            if bool(sameint(c.k, k)): return c
        c = Copy(self, k)
        self.copies[len(self.copies)] = c
        return c

    # ---- Chain.__init__ by contract
    def init(self, me, root_frame, dtype=None, device='cpu'):
        w = self.w
        n = len(self.inits)
        self.inits.append((root_frame, dtype, device))
        w.true('precondition: precision asked for', dtype == self.want[0] and str(device) == str(self.want[1]))
        me.dtype, me.device, me._root = dtype, w.torch.device(device), root_frame
        if n == 0:
            w.true('precondition: the root frame asked for', root_frame is self.top)
            me.idx_to_frame, me.frame_to_idx = FrameTable(self, 'name'), TreeNumbers(self)
            me.parents_indices = Paths(self)
            me.__dict__['find_frame'] = self.find
        elif n == 1:
            f = me.__dict__.get('_serial_frames')
            w.true('precondition: the frames are linked', self.stage == 'linked')
            w.true('precondition: the chain of the linked copies', isinstance(root_frame, Copy) and sameint(root_frame.k, 0) is True)
            w.true('precondition: the root is the origin', root_frame.link.offset is None and root_frame.joint.is_origin(w))
            me.frame_to_idx, me.idx_to_frame = PathNumbers(self), None
            me.n_joints = self.M
        else: raise Unsupported('more chains')

    def find(self, name):
        if self.given is not None and name is self.given: return self.top
        if isinstance(name, Key) and name.what == 'frame': return SourceFrame(self, name.k)
        raise Unsupported('another frame is looked up')

    # ---- the loops
    def over(self, seq, fr):
        if isinstance(seq, self.seqs.SymList) and seq is self.frames: return self.joints(fr)
        if getattr(seq, '_sym_tensor', False) and seq.ndim == 1 and fr.f_code.co_name == '__init__': return self.copying(seq, fr)
        return None

    def lists(self, fr, allow=()):
        s = self.seqs
        l = s.loop_at(fr)
        subs, apps, attrs, names = s.written(l)
        inner = {t for t in attrs if t.split('.')[0] in names}
        if subs or attrs - inner or s.carried(fr, l, names) - s.loop_names(l): raise Unsupported('loop frame condition: %s' % sorted(subs | attrs))
        r = {t: s.value(fr, t) for t in apps if t.split('.')[0] in fr.f_locals}
        if not all(type(v) is list and not v for v in r.values()): raise Unsupported('loop appends to %s' % sorted(r))
        return r

    def copying(self, seq, fr):
        """first loop: one copy per place"""
        w = self.w
        ls = self.lists(fr)
        if len(ls) != 1: raise Unsupported('loop appends to %s' % sorted(ls))
        (name, v), = ls.items()
        if w.choose('copying', ['iteration', 'exit']) == 'iteration':
            k = tm.ivar('k', 0, self.P)
            self.place(k)
            v.append(Opaque(name, 'before'))
            self.made = []
            yield seq[k]
            if len(v) != 2 or not isinstance(v[1], Copy) or v[1] not in self.made: raise Unsupported('entries per iteration')
            w.check('precondition: one copy per place', sameint(v[1].tree, self.anc(k)))
            last = bool(tm.ieq(k, tm.isub(self.P, 1)))
            if last: w.true('precondition: the end frame loses its children', type(v[1].children) is list and v[1].children == [])
            need_untouched(w, v[1])
            raise Stop()
        self.frames = self.seqs.SymList('frames', self.P, self.copy)
        self.stage = 'copied'
        from contracts.ik import set_local
        set_local(fr, **{name: self.frames})

    def linking(self, rng, fr):
        """second loop"""
        w = self.w
        if fr.f_code.co_name != '__init__' or self.stage != 'copied': return None
        l = self.seqs.loop_at(fr)
        subs, apps, attrs, names = self.seqs.written(l)
        if apps or self.seqs.carried(fr, l, names) or any('children' not in a for a in attrs): raise Unsupported('loop frame condition: %s' % sorted(apps | attrs))
        return self.link(rng)

    def link(self, rng):
        w = self.w
        if w.choose('linking', ['iteration', 'exit']) == 'iteration':
            i = tm.ivar('i', rng.lo, rng.hi)
            yield i
            if set(map(id, self.copies.values())) - {id(self.copy(i)), id(self.copy(tm.iadd(i, 1)))}: raise Unsupported('loop frame condition: other frames')
            c = self.copy(i).children
            w.true('precondition: its only child is the next frame', type(c) is list and len(c) == 1 and c[0] is self.copy(tm.iadd(i, 1)))
            need_untouched(w, self.copy(i)); need_untouched(w, self.copy(tm.iadd(i, 1)))
            if self.copy(tm.iadd(i, 1)).children is not None: raise Unsupported('loop frame condition: the next frame')
            raise Stop()
        w.check('precondition: all but the last are linked', land(sameint(rng.lo, 0), sameint(rng.hi, tm.isub(self.P, 1))))
        for c in self.copies.values():
            if c.children is not None: raise Unsupported('frames changed before they are linked')
        self.stage = 'linked'

    def joints(self, fr):
        """third loop: the lists get one entry each for a frame that moves, none otherwise"""
        w = self.w
        ls = self.lists(fr)
        self.m = m = tm.ivar('m', 0, self.M)
        if w.choose('frame', ['fixed', 'moving']) == 'fixed':
            k = tm.ivar('k', 0, self.P)
            w.assume(lnot(tm.bapp('movable', (k,))))
            for n, v in ls.items(): v.append(Opaque(n, 'before'))
            yield self.copy(k)
            w.true('precondition: nothing for a fixed frame', all(len(v) == 1 for v in ls.values()))
            raise Stop()
        w.assume(tm.ilt(0, self.M))
        k = tm.iapp('mf', (m,))
        w.assume(tm.bapp('movable', (k,)))
        for n, v in ls.items(): v.append(Opaque(n, 'before'))
        yield self.copy(k)
        if any(len(v) != 2 for v in ls.values()): raise Unsupported('entries per iteration')
        from contracts.ik import set_local
        set_local(fr, **{n: self.entries(n, v[1]) for n, v in ls.items()})

    def entries(self, n, x):
        """one entry per moving frame; the one at place m is known"""
        def elem(i):
            if bool(sameint(i, self.m)): return x
            if getattr(x, '_sym_tensor', False): return self.w.make(tuple(x.shape), lambda *ix: tm.app('other_' + n, (i,) + ix), dtype=x.dtype)
            if type(x) is int or type(x) is tm.T and x.sort == 'I': return tm.iapp('other_' + n, (i,))
            raise Unsupported('entries of %s' % n)
        return self.seqs.SymList(n, self.M, elem)

    def stack(self, ts, dim):
        raise Unsupported('stack of a list')


class SourceFrame:
    """frame k of the source tree: it must stay as it is"""

    def __init__(self, G, k): self.__dict__.update(G=G, k=k)

    def __deepcopy__(self, memo):
        c = Copy(self.G, None, self.k)
        self.G.made.append(c)
        return c

    def __setattr__(self, n, v): raise Unsupported('the source tree is changed')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a source frame' % n)


class Copy:
    """a copy of frame `tree` of the source tree, at place k of the path"""

    def __init__(self, G, k, tree=None):
        self.G, self.k = G, k
        self.tree = G.anc(k) if tree is None else tree
        self.children = None
        p = k if k is not None else self.tree
        self.name = Key('frame', self.tree)
        self.name.place = k
        self.joint, self.link = CopyJoint(self, p), CopyLink(self)
        self.joint0, self.link0 = self.joint, self.link

    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a copied frame' % n)


def need_untouched(w, c):
    w.true('precondition: joint and link are those of the tree', c.joint is c.joint0 and c.link is c.link0 and 'offset' not in c.link.__dict__ and not c.joint.written)


class CopyLink:
    def __init__(self, f): self.f = f
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a copied link' % n)


class CopyJoint:
    def __init__(self, f, p): self.__dict__.update(f=f, p=p, written=False)

    def __setattr__(self, n, v): raise Unsupported('a copied joint is changed')

    def __getattr__(self, n):
        if n == 'joint_type': return PathJointType(self.p)
        if n == 'axis': return self.f.G.w.make((3,), lambda i: tm.app('axis', (self.p, i)), dtype=self.f.G.dt)
        if n == 'is_origin': return lambda w: False
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of a copied joint' % n)


class PathJointType(JointType):
    def __ne__(self, o):
        if o in ('revolute', 'prismatic'): return tm.lnot(self == o)
        return JointType.__ne__(self, o)

    def __eq__(self, o):
        if o == 'revolute': return land(tm.bapp('movable', (self.k,)), tm.bapp('revolute', (self.k,)))
        if o == 'prismatic': return land(tm.bapp('movable', (self.k,)), lnot(tm.bapp('revolute', (self.k,))))
        return JointType.__eq__(self, o)
    __hash__ = None


class TreeNumbers:
    def __init__(self, G): self.G = G

    def __getitem__(self, x):
        if x is self.G.end_name: return self.G.end
        raise Unsupported('lookup in the frame table')


refusing(TreeNumbers)


class PathNumbers:
    def __init__(self, G): self.G = G

    def __getitem__(self, x):
        if isinstance(x, Key) and getattr(x, 'place', None) is not None: return x.place
        raise Unsupported('lookup in the frame table')


refusing(PathNumbers)


class Paths:
    def __init__(self, G): self.G = G

    def __getitem__(self, i):
        G = self.G
        if hasattr(i, 'item'): i = i.item()
        if not bool(sameint(i, G.end)): raise Unsupported('path to another frame')
        return G.w.make((G.P,), lambda k: G.place(k), dtype=G.w.torch.int64)


refusing(Paths)


@contract(('C05', 'C06'), samples=12, budget=120, weight=2, standins=True, functions=('chain:SerialChain.__init__', 'chain:Chain.get_frame_indices'))
def serial_construction(w):
    """SerialChain.__init__, any number of frames: the chain of copies of the frames on the path, its root as origin, and the tables of the Jacobian kernel:
    the frames, axes and kinds of the moving joints in order, and the end frame"""
    if w.concrete: return large_serial_tables(w)
    from ptv import seqs
    w.loader = seqs.loader()
    w.torch = t = w.loader.torch
    Chain, Serial = w.fn(CH, 'Chain'), w.fn(CH, 'SerialChain')
    w.calls.discard('chain:Chain')
    G = Path(w)
    src = Chain.__new__(Chain)
    src.__dict__['_root'] = G.root
    src.dtype, src.device = t.float64, t.device('cpu')
    G.frames = None
    G.end_name = Key('end', 0)
    case = w.choose('root', ['default', 'given', 'unknown'])
    G.given = None if case == 'default' else Key('root', 0)
    G.top = G.root if case == 'default' else SourceFrame(G, 'given') if case == 'given' else None
    src.__dict__['find_frame'] = G.find
    kw = w.choose('options', [{}, dict(dtype='float32'), dict(dtype='float32', device='cuda')])
    kw = {k: getattr(t, v) if k == 'dtype' else v for k, v in kw.items()}
    G.want = (kw.get('dtype', src.dtype), kw.get('device', src.device))
    w.iter_hook, w.stack_hook = G.over, G.stack
    w.loop(G.linking)
    Joint = w.module('frame').Joint
    old = Chain.__init__, Joint.__dict__.get('is_origin')

    def is_origin(j, w): return j.joint_type == 'fixed' and j.offset is None
    Chain.__init__, Joint.is_origin = (lambda self, *a, **k: G.init(self, *a, **k)), is_origin
    try:
        args = (src, G.end_name) if case == 'default' else (src, G.end_name, G.given)
        if case == 'unknown':
            w.raises('rejected: unknown root frame', lambda: Serial(*args, **kw))
            return
        sc = Serial(*args, **kw)
    finally:
        Chain.__init__ = old[0]
        del Joint.is_origin
    w.true('precondition: frames', sc._serial_frames is G.frames and len(G.inits) == 2)
    w.check('precondition: end frame', sameint(sc._serial_eef_frame_idx, tm.isub(G.P, 1)))
    dt = G.want[0]
    w.shape('precondition: frames of the moving joints', sc._serial_dof_frame_indices, (G.M,))
    w.shape('precondition: axes', sc._serial_dof_axes, (G.M, 3))
    w.shape('precondition: kinds', sc._serial_dof_types, (G.M,))
    w.true('precondition: dtypes', sc._serial_dof_frame_indices.dtype == t.int64 and sc._serial_dof_axes.dtype == dt and sc._serial_dof_types.dtype == t.int64)
    w.true('precondition: devices', all(str(x.device) == str(t.device(G.want[1])) for x in (sc._serial_dof_frame_indices, sc._serial_dof_axes, sc._serial_dof_types)))
    if not bool(tm.ilt(0, G.M)): return
    k = tm.iapp('mf', (G.m,))
    w.check('precondition: frame of a moving joint', sameint(w.at(sc._serial_dof_frame_indices, G.m), k))
    for i in range(3): w.same('precondition: axis of a moving joint', w.at(sc._serial_dof_axes, G.m, i), tm.app('axis', (k, i)))
    rev = bool(tm.bapp('revolute', (k,)))
    ty = w.at(sc._serial_dof_types, G.m)
    w.check('precondition: kind of a moving joint', sameint(ty, 1) if rev else lnot(sameint(ty, 1)))


def large_serial_tables(w):
    from contracts.chains import check_source, check_tables_names, check_jacobian
    root = rb.random_tree(w, n=w.rng.choice([10, 20, 40]))
    ch = rb.build_chain(w, root)
    top, leaf = w.rng.choice([(a, b) for b in root.walk() for a in b.path()])
    sc = w.fn(CH, 'SerialChain')(ch, leaf.name, *((top.name,) if top is not root else ()))
    path = leaf.path(top)
    mv = [(i, d) for i, d in enumerate(path) if i and d.kind != 'fixed']
    check_tables_names(w, sc, path)
    check_source(w, ch, root)
    if not mv: return
    th = w.tensor('th', (1, len(mv)))
    check_jacobian(w, sc.jacobian(th)[0], leaf, top, [d for i, d in mv], {d.joint_name: w.at(th, 0, k) for k, (i, d) in enumerate(mv)})
    M = sc.forward_kinematics(th).get_matrix()
    E = rb.pose_of(leaf, {d.joint_name: w.at(th, 0, k) for k, (i, d) in enumerate(mv)}, top)
    for i in range(4):
        for j in range(4): w.same('end pose', w.at(M, 0, i, j), E[i][j], 1e-8)
