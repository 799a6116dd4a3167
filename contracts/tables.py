"""C01, C04, C05, C06: the tables a chain computes from its tree, for every tree.  Loop rules:

* the worklist loop of Chain.__init__: the first iteration (the root), an arbitrary later iteration started from tables of any length, and the code
  after the loop started from complete tables.  One iteration adds one row to every table and the frame's children to the worklist, so that
  when it is empty every frame has its row (each frame is the child of one frame);
* loops that fill tensors: invariants; loops that append one entry per index: an arbitrary iteration.
Concretely: large random trees."""
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported, R
from ptv.induct import Each, Name, Opaque
from ptv.world import *
from contracts.induction import need
from contracts import robots as rb

CH = 'chain'
KINDS = ['fixed', 'revolute', 'prismatic']


class Anc:
    """the path from the root to frame k, as a list of frame numbers"""

    def __init__(self, G, k, ext=()): self.G, self.k, self.ext = G, k, tuple(ext)

    def __add__(self, o):
        if not isinstance(o, list): raise Unsupported('concatenation of a path')
        return Anc(self.G, self.k, self.ext + tuple(o))

    def sym_tensor(self, dtype=None, device=None):
        if self.ext: raise Unsupported('tensor of a path that is being built')
        return AncTensor(self.G, self.k, dtype, device)


class AncTensor:
    def __init__(self, G, k, dtype, device): self.G, self.k, self.dtype, self.device = G, k, dtype, device

    @staticmethod
    def sym_map(it, elt, cond):
        if cond is not None: raise Unsupported('filter of a path')
        k = tm.ivar('anyframe', 0, it.G.F)
        v = elt(k)
        if v is not k and not (type(v) is tm.T and v == k is True):
            raise Unsupported('a function of the frames of a path')
        return AncSet(it.G, it.k)

    def sym_set(self): return AncSet(self.G, self.k)


class AncSet:
    def __init__(self, G, k): self.G, self.k = G, k
    def sym_set(self): return self
    def __contains__(self, x):
        if hasattr(x, 'item'): x = x.item()
        return bool(tm.bapp('anc', (x, self.k)))


class Offset:
    def __init__(self, m): self.m = m
    def get_matrix(self): return self.m
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s of an offset' % n)


class Names:
    """names of the movable joints, in order"""

    def __init__(self, G): self.G = G
    def sym_len(self): return self.G.J
    def index(self, name):
        if name is not self.G.joint_name: raise Unsupported('index of another joint')
        return self.G.jidx(self.G.N)


class Tables:
    """the state of Chain.__init__"""

    def __init__(self, w, dt, mode):
        from ptv import seqs
        self.w, self.dt, self.mode, self.seqs = w, dt, mode, seqs
        self.calls = 0
        self.F = w.dim('F')
        self.J = w.dim('J', lo=0)
        self.D = w.dim('D')
        self.N = 0 if mode == 'first' else tm.ivar('N', 1, self.F)
        tm.iapp_bounds.update(depth=(0, self.D), types=(0, 3), jidx=(0, self.J), fr=(0, self.F), par=(0, self.F))
        self.done = {}
        self.off = {}
        self.quiet = []

    # ---- the tree
    def par(self, k): return tm.iapp('par', (k,))
    def depth(self, k): return tm.iapp('depth', (k,))
    def types(self, k): return tm.iapp('types', (k,))
    def jidx(self, k): return tm.iapp('jidx', (k,))
    def fr(self, j): return tm.iapp('fr', (j,))
    def jraw(self, k): return ite_int(tm.ieq(self.types(k), 0), -1, self.jidx(k))

    def facts_frame(self, k):
        """a movable frame is the frame of its joint"""
        self.w.assume(implies(lnot(tm.ieq(self.types(k), 0)), tm.ieq(self.fr(self.jidx(k)), k)))

    def facts_joint(self, j):
        self.w.assume(land(tm.ieq(self.jidx(self.fr(j)), j), lnot(tm.ieq(self.types(self.fr(j)), 0))))

    # ---- frames
    def frame(self, tag, kids, full=True):
        fr = self.w.module('frame')
        kind = self.w.choose('type of ' + tag, KINDS if full else KINDS[:1])
        f = fr.Frame.__new__(fr.Frame)
        f.name = Name(self.w, tag)
        Name.strip = lambda self, *a: self
        l, j = fr.Link.__new__(fr.Link), fr.Joint.__new__(fr.Joint)
        f.link, f.joint, f.children = l, j, kids
        l.name, j.name = Name(self.w, tag + '.link'), Name(self.w, tag + '.joint')
        self.joint_name = j.name
        j.joint_type = kind
        j.axis = self.axis = self.w.tensor(tag + '_axis', (3,), dtype=self.dt)
        for a, o in (('link', l), ('joint', j)):
            o.offset = Offset(self.w.tensor('%s_%s' % (tag, a), (1, 4, 4), dtype=self.dt)) if full and self.w.choose('%s offset of %s' % (a, tag), ['given', 'none']) == 'given' else None
        return f

    def child(self):
        self.kid = Kid()
        return self.kid

    def ours(self, fr): return fr.f_code.co_name == '__init__' and fr.f_code.co_filename.endswith('chain.py')

    # ---- the worklist loop
    def len_hook(self, q, fr):
        if not self.ours(fr): return None
        name = [n for n, v in fr.f_locals.items() if v is q]
        if not name: return None
        me = fr.f_locals['self']
        self.calls += 1
        if self.calls == 1:
            if len(q) != 1 or type(q[0]) is not tuple or len(q[0]) != 3 or q[0][0] is not self.root or q[0][1:] != (-1, 0): raise Unsupported('worklist')
            self.queue = name[0]
            self.before = {n: len(v) for n, v in self.state(fr, me).items()}
            return None
        if name[0] != self.queue: return None
        st = self.state(fr, me)
        if self.calls == 2:
            grown = {n for n, v in st.items() if len(v) == 1 and self.before.get(n) == 0}
            if set(st) - grown - {self.queue}: raise Unsupported('worklist loop: tables %s' % sorted(set(st) - grown))
            self.grown = grown
            if self.mode == 'first':
                self.check_row(fr, me, {n: (v if isinstance(v, list) else list(v.items())) for n, v in st.items()}, q, 0, -1, 0)
                raise Stop()
            self.havoc(fr, me, st, q)
            return None if self.mode == 'iteration' else 0
        if self.calls == 3 and self.mode == 'iteration':
            self.check_row(fr, me, {n: v.extra for n, v in self.tabs.items()}, q, self.N, self.p, tm.iadd(self.depth(self.p), 1))
            raise Stop()
        raise Unsupported('worklist loop')

    def state(self, fr, me):
        s = {n: v for n, v in fr.f_locals.items() if type(v) in (list, dict) and n != '__class__'}
        if 'low' in s: del s['low']
        if 'high' in s: del s['high']
        s.update({'self.' + n: v for n, v in me.__dict__.items() if type(v) in (list, dict)})
        return s

    def havoc(self, fr, me, st, q):
        L = self.seqs.SymList
        n = self.N if self.mode == 'iteration' else self.F
        make = {'direct_parents': lambda: L('parents', n, lambda k: self.parent(k)), 'frame_depths': lambda: L('depths', n, lambda k: self.depth(k), top=tm.isub(self.D, 1)),
                'self.parents_indices': lambda: L('paths', n, lambda k: Anc(self, k)), 'self.joint_indices': lambda: L('joint numbers', n, self.jraw),
                'self.link_offsets': lambda: L('link offsets', n, lambda k: self.offset('link', k)), 'self.joint_offsets': lambda: L('joint offsets', n, lambda k: self.offset('joint', k)),
                'self.joint_type_indices': lambda: L('types', n, self.types), 'self.frame_to_idx': lambda: self.seqs.SymDict('frame_to_idx'), 'self.idx_to_frame': lambda: self.seqs.SymDict('idx_to_frame')}
        if self.grown != set(make): raise Unsupported('worklist loop: tables %s' % sorted(self.grown ^ set(make)))
        self.tabs = {k: f() for k, f in make.items()}
        from contracts.ik import set_local
        counters = [k for k, v in fr.f_locals.items() if type(v) is int and v == 1 and k not in ('parent_idx', 'depth')]
        if counters != ['idx']: raise Unsupported('worklist loop: counters %s' % counters)
        if self.mode == 'iteration':
            self.p = tm.ivar('p', 0, self.N)
            f = self.frame('frame', Each(self.w, self.child, 'children'))
            q[:] = [(f, self.p, tm.iadd(self.depth(self.p), 1)), Opaque('worklist', 'rest')]
            self.axes0 = me.axes = self.w.tensor('axes0', (self.J, 3), dtype=self.dt)
            self.facts_frame(self.N)
        else:
            q[:] = []
            me.axes = self.w.tensor('axes', (self.J, 3), dtype=self.dt)
        for k, v in self.tabs.items():
            if k.startswith('self.'): setattr(me, k[5:], v)
        set_local(fr, idx=n, **{k: v for k, v in self.tabs.items() if not k.startswith('self.')})

    def parent(self, k): return ite_int(tm.ieq(k, 0), -1, self.par(k))

    def offset(self, a, k):
        key = (a, k.id if type(k) is tm.T else k)
        if key not in self.off:
            given = self.w.choose('%s offset' % a, ['given', 'none']) == 'given'
            self.off[key] = self.w.make((1, 4, 4), lambda b, i, j: tm.app(a + 'off', (k, i, j)), dtype=self.dt) if given else None
        return self.off[key]

    def check_row(self, fr, me, new, q, idx, parent, depth):
        w = self.w
        f = fr.f_locals.get('root')
        f = self.root if self.mode == 'first' else f
        if f is None or not isinstance(f.children, Each): raise Unsupported('frame of the iteration')
        one = {n: v for n, v in new.items() if n != self.queue}
        if any(len(v) != 1 for v in one.values()): raise Unsupported('worklist loop: rows')
        one = {n: v[0] for n, v in one.items()}
        kind = KINDS.index(f.joint.joint_type)
        w.check('loop invariant: parent', sameint(one['direct_parents'], parent))
        w.check('loop invariant: depth', sameint(one['frame_depths'], depth))
        w.check('loop invariant: type', sameint(one['self.joint_type_indices'], kind))
        if kind: w.true('loop invariant: joint number', sameint(one['self.joint_indices'], self.jidx(idx)))
        else: w.check('loop invariant: joint number', sameint(one['self.joint_indices'], -1))
        for a, o in (('link', f.link.offset), ('joint', f.joint.offset)):
            got = one['self.%s_offsets' % a]
            need(w, a + ' offset', got is None if o is None else got is o.m)
        path = one['self.parents_indices']
        if self.mode == 'first': need(w, 'path', path == [0])
        else: need(w, 'path', isinstance(path, Anc) and path.k is parent and len(path.ext) == 1 and sameint(path.ext[0], idx) is True)
        need(w, 'number of the name', one['self.frame_to_idx'][0] is f.name and sameint(one['self.frame_to_idx'][1], idx) is True)
        need(w, 'name of the number', sameint(one['self.idx_to_frame'][0], idx) is True and one['self.idx_to_frame'][1] is f.name)
        w.check('loop invariant: counter', sameint(fr.f_locals['idx'], tm.iadd(idx, 1)))
        old = 0 if self.mode == 'first' else None
        for j, in w.idx((self.J,)):
            for i in range(3):
                base = tm.ZERO if old == 0 else tm.app('axes0', (j, i))
                w.same('loop invariant: axes', w.at(me.axes, j, i), ite(tm.ieq(j, self.jidx(idx)), w.at(f.joint.axis, i), base) if kind else base)
        items = [x for x in q if not isinstance(x, Opaque)]
        if not f.children.made: need(w, 'no children', items == [])
        else:
            need(w, 'the child is queued', len(items) == 1 and type(items[0]) is tuple and len(items[0]) == 3 and items[0][0] is self.kid)
            w.check('loop invariant: its parent is this frame', sameint(items[0][1], idx))
            w.check('loop invariant: it is one deeper', sameint(items[0][2], tm.iadd(depth, 1)))
        rest = [x for x in q if isinstance(x, Opaque)]
        need(w, 'what was queued stays', len(rest) == (2 if f.children.made else 0) + (self.mode == 'iteration'))

    # ---- loops after the tables are complete
    def loop(self, rng, fr):
        s = self.seqs
        if not self.ours(fr): return None
        l = s.loop_at(fr)
        subs, apps, attrs, names = s.written(l)
        if attrs: raise Unsupported('loop frame condition: %s' % attrs)
        if s.carried(fr, l, names): raise Unsupported('loop frame condition: %s' % s.carried(fr, l, names))
        outer = {t: s.value(fr, t) for t in subs | apps if t.split('.')[0] in fr.f_locals}
        lists = {t: v for t, v in outer.items() if t in apps}
        tens = {t: v for t, v in outer.items() if t in subs}
        if lists and not tens:
            if not all(type(v) is list and not v for v in lists.values()): raise Unsupported('loop appends to %s' % sorted(lists))
            return self.collect(rng, lists)
        if len(tens) == 1 and not lists:
            (t, T), = tens.items()
            if not getattr(T, '_sym_tensor', False): raise Unsupported('loop writes %s' % t)
            if T.ndim == 1: return self.scatter(rng, T)
            if T.ndim == 2: return self.mask(rng, T, fr)
        raise Unsupported('loop writes %s' % sorted(outer))

    def collect(self, rng, lists):
        """one entry per index: an arbitrary iteration is checked; afterwards the list is only known to hold those entries"""
        if len(lists) != 1: raise Unsupported('a loop appends to several lists')
        (n, v), = lists.items()
        if self.w.choose('loop over %s' % n, ['iteration', 'exit']) == 'iteration':
            self.w.skolem += 1
            k = tm.ivar('k%d' % self.w.skolem, rng.lo, rng.hi)
            v.append(Opaque(n, 'before'))
            yield k
            if len(v) != 2: raise Unsupported('entries per iteration')
            (self.level if n.startswith('self.') else self.static)(rng, k, v[1])
            raise Stop()
        v.append(Opaque(n, 'all'))
        self.done[id(v)] = (n, v)

    def level(self, rng, d, lv):
        w = self.w
        need(w, 'levels', isinstance(lv, self.seqs.FilteredTensor))
        need(w, 'one level per depth', rng.lo == 0 and sameint(rng.hi, self.D) is True)
        k = tm.ivar('anyk', 0, self.F)
        c = lv.f.cond(k)
        w.check('loop invariant: a level holds the frames of its depth', land(implies(c, tm.ieq(self.depth(k), d)), implies(tm.ieq(self.depth(k), d), c)))
        w.check('loop invariant: by their numbers', sameint(lv.f.elt(k), k))
        need(w, 'of all frames', sameint(lv.f.n, self.F) is True)
        w.true('loop invariant: integers', lv.dtype == w.torch.long)

    def static(self, rng, i, M):
        w = self.w
        need(w, 'one static offset per frame', rng.lo == 0 and rng.hi is self.F)
        A = S.eye(4)
        for a in ('link', 'joint'):
            if self.offset(a, i) is not None: A = S.matmul(A, [[tm.app(a + 'off', (i, r, c)) for c in range(4)] for r in range(4)])
        w.shape('loop invariant: static offset', M, (4, 4))
        w.true('loop invariant: dtype of the static offset', M.dtype == self.dt)
        for r in range(4):
            for c in range(4): w.same('loop invariant: static[%d,%d]' % (r, c), w.at(M, r, c), A[r][c])

    def scatter(self, rng, T):
        w = self.w

        def check(label, T, d):
            rd = T._reader()
            for j, in w.idx((self.J,)):
                self.facts_joint(j)
                c = tm.isub(d, 1)
                if d is not rng.lo: self.facts_frame(c)
                if not bool(tm.ilt(self.fr(j), d)): continue
                if d is not rng.lo:
                    w.assume(implies(tm.ieq(j, self.jidx(c)), tm.ieq(self.fr(j), self.fr(self.jidx(c)))))      # congruence
                    w.assume(implies(tm.ieq(self.fr(j), c), tm.ieq(self.jidx(self.fr(j)), self.jidx(c))))
                    w.assume(implies(tm.ieq(self.fr(j), c), lnot(tm.ieq(self.types(c), 0))))
                w.check(label + ': frame of a joint', sameint(rd((j,)), self.fr(j)))

        def havoc(T, d): T._write(lambda ix: tm.TRUE, lambda ix: ite_int(tm.ilt(self.fr(ix[0]), d), self.fr(ix[0]), tm.iapp('junk', (d, ix[0]))))
        if rng.hi is not self.F: raise Unsupported('range of the loop over frames')
        return w.cut(rng.lo, rng.hi, lambda: T, check, lambda T, d: self.settled(T) if d is rng.hi else havoc(T, d))

    def settled(self, T):
        """after the loop: the frame of every joint is known"""
        T._write(lambda ix: tm.TRUE, lambda ix: self.fr(ix[0]))

    def mask(self, rng, T, fr):
        w = self.w
        val = lambda j, g, f, jj: ite(lor(tm.ilt(g, f), land(tm.ieq(g, f), tm.ilt(j, jj))), ite(tm.bapp('anc', (self.fr(j), g)), R(1), R(0)), R(0))
        if rng.hi is self.F: pos = lambda d: (d, 0)
        elif rng.hi is self.J:
            f = self.outer
            pos = lambda d: (f, d)
        else: raise Unsupported('range of a loop that fills the mask')

        def check(label, T, d):
            rd = T._reader()
            f, jj = pos(d)
            for j, g in w.idx((self.J, self.F)):
                bool(tm.ilt(g, f)), bool(tm.ieq(g, f))
                if rng.hi is self.J: bool(tm.ilt(j, jj)), bool(tm.ieq(j, tm.isub(jj, 1)))
                else: bool(tm.ieq(g, tm.isub(f, 1)))
                w.same(label + ': mask', rd((j, g)), val(j, g, f, jj))
        havoc = lambda T, d: T._write(lambda ix: tm.TRUE, lambda ix: val(ix[0], ix[1], *pos(d)))
        g = w.cut(rng.lo, rng.hi, lambda: T, check, havoc)
        return self.remember(g) if rng.hi is self.F else g

    def remember(self, g):
        for d in g:
            self.outer = d
            yield d

    def stack(self, ts, dim):
        n, v = self.done.get(id(ts), (None, None))
        if dim != 0 or v is not ts or n.startswith('self.') or len(ts) != 1: raise Unsupported('stack of a list')
        return self.w.tensor('static', (self.F, 4, 4), dtype=self.dt)


class Kid:
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('a child is looked into')


def ite_int(c, a, b):
    if c is tm.TRUE or c is True: return a
    if c is tm.FALSE or c is False: return b
    return tm.ite(c, a, b)


def sameint(a, b):
    if hasattr(a, 'item'): a = a.item()
    if type(a) is int and type(b) is int: return a == b
    r = tm.ieq(a, b)
    return True if r is tm.TRUE else False if r is tm.FALSE else r


@contract(('C01', 'C03', 'C04', 'C05', 'C06'), samples=12, budget=120, weight=3, standins=True, functions=('chain:Chain.__init__',))
def chain_tables_every_tree(w):
    """Chain.__init__, for every tree: parents, depths, levels, paths, joint numbers, axes, static offsets, joint kinds, ancestor mask and limits
    are those of the tree: what the kinematics kernels assume"""
    if w.concrete: return large_tree(w)
    from ptv import seqs
    w.loader = seqs.loader()
    w.torch = t = w.loader.torch
    Chain = w.fn(CH, 'Chain')
    dt = t.float64
    mode = w.choose('mode', ['first', 'iteration', 'after'])
    G = Tables(w, dt, mode)
    w.len_hook, w.stack_hook = G.len_hook, G.stack
    w.loop(G.loop)
    low = seqs.SymList('low', G.J, lambda k: tm.app('low', (k,)))
    high = seqs.SymList('high', G.J, lambda k: tm.app('high', (k,)))

    class C(Chain):
        def get_joint_limits(self): return low, high
        def get_joint_parameter_names(self, exclude_fixed=True):
            if exclude_fixed is not True: raise Unsupported('names of all joints')
            return Names(G)
    G.root = G.frame('root', Each(w, G.child, 'children of the root') if mode == 'first' else [], full=mode == 'first')
    ch = C(G.root, dtype=dt)
    # the tables are complete
    w.true('precondition: frames counted', sameint(ch._num_frames, G.F) is True)
    w.true('precondition: joints counted', sameint(ch.n_joints, G.J) is True)
    n, v = G.done.get(id(ch._bfs_levels), (None, None))
    need(w, 'levels', v is ch._bfs_levels and n.startswith('self.') and len(v) == 1)
    w.shape('precondition: static offsets', ch._static_offsets, (G.F, 4, 4))
    for k, r, c in w.idx((G.F, 4, 4)): w.same('precondition: static offsets', w.at(ch._static_offsets, k, r, c), tm.app('static', (k, r, c)))
    for k, in w.idx((G.F,)):
        w.check('precondition: parent', sameint(w.at(ch._direct_parent_idx, k), G.parent(k)))
        w.check('precondition: type', sameint(w.at(ch.joint_type_indices, k), G.types(k)))
        if not bool(tm.ieq(G.types(k), 0)): w.check('precondition: joint of a frame', sameint(w.at(ch._joint_indices_clamped, k), G.jidx(k)))
        else: w.check('precondition: a valid joint number', tm.ile(0, ch._joint_indices_clamped[k].item()))
    for nm, v in (('_has_revolute', 1), ('_has_prismatic', 2)):
        has = getattr(ch, nm)
        if has is False: w.check(nm, tm.forall(G.F, lambda k: lnot(tm.ieq(G.types(k), v))))
        else: need(w, nm, has is True)
    for j, in w.idx((G.J,)):
        G.facts_joint(j)
        for c in range(3): w.same('precondition: axis', w.at(ch.axes, j, c), tm.app('axes', (j, c)))
        w.check('precondition: frame of a joint', sameint(w.at(ch._dof_frame_indices, j), G.fr(j)))
        rev = w.at(ch._dof_is_revolute, j)
        w.check('precondition: kind of a joint', land(implies(rev, tm.ieq(G.types(G.fr(j)), 1)), implies(tm.ieq(G.types(G.fr(j)), 1), rev)))
        w.same('low', w.at(ch.low, j), tm.app('low', (j,)))
        w.same('high', w.at(ch.high, j), tm.app('high', (j,)))
        for f, in w.idx((G.F,)): w.same('precondition: ancestor mask', w.at(ch._dof_ancestor_mask, j, f), ite(tm.bapp('anc', (G.fr(j), f)), R(1), R(0)))
    p = ch.parents_indices
    need(w, 'paths', isinstance(p, seqs.SymList) and p.n is G.F and isinstance(p[k], AncTensor) and p[k].k is k and p[k].dtype == t.long)


def large_tree(w):
    from contracts.chains import check_tables
    root = rb.random_tree(w, n=w.rng.choice([10, 20, 40]))
    check_tables(w, rb.build_chain(w, root), root)
