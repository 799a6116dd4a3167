"""Chains built from trees: tables, end-to-end kinematics, inputs, serial extraction, moving, queries.
Tree shape bounded (robots.ROBOT_BOUND); joint values, batch size and, where stated, geometry are arbitrary."""
import itertools
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported, R
from ptv.world import *
from contracts import robots as rb
from contracts.kinematics import check_poses, check_jacobian, random_serial

CH = 'chain'
TYPE = {'fixed': 0, 'revolute': 1, 'prismatic': 2}


def pick_robot(w, robots=None, **k):
    """every robot of the bound in the symbolic world, a random one of any size in the concrete world"""
    if w.symbolic:
        rs = robots or rb.ROBOTS
        i = w.choose('robot', list(range(len(rs))))
        return rb.design(w, rs[i][0], rs[i][1], salt=i, **k)
    return rb.random_tree(w)


def symbolic_geometry(w, root):
    """replace every link and joint offset that is present by an arbitrary matrix, every axis by an arbitrary unit vector"""
    if w.concrete: return
    for i, n in enumerate(root.walk()):
        for a in ('link', 'joint'):
            if getattr(n, a) is not None:
                nm = '%s%d' % (a, i)
                setattr(n, a, [[tm.app(nm, (r, c)) for c in range(4)] for r in range(4)])


SMALL = rb.ROBOTS


@contract(('C01', 'C04', 'C03'), bounded='the tree shape: ' + rb.ROBOT_BOUND + '; offsets arbitrary', budget=120, weight=4)
def chain_tables(w):
    """Chain.__init__ establishes the preconditions of the kinematics kernels: parents, levels, joint tables, static offsets, ancestor masks"""
    root = pick_robot(w)
    symbolic_geometry(w, root)
    ch = rb.build_chain(w, root)
    check_tables(w, ch, root)


def check_tables(w, ch, root, axes=True):
    nodes = list(root.walk())
    ds = rb.dofs(root)
    J = len(ds)
    w.true('joint names', list(ch.get_joint_parameter_names()) == [d.joint_name for d in ds], 'joint names %s' % (ch.get_joint_parameter_names(),))
    w.true('n_joints', ch.n_joints == J)
    ix = {n.name: ch.frame_to_idx[n.name] for n in nodes}
    w.true('frame indices', sorted(ix.values()) == list(range(len(nodes))))
    for n in nodes: w.true('idx_to_frame', ch.idx_to_frame[ix[n.name]] == n.name)
    if w.concrete: return check_behaviour(w, ch, nodes, ds)
    # how the tables represent the tree is the code's affair: what the kernels require of them
    for n in nodes:
        i = ix[n.name]
        p = ch._direct_parent_idx[i].item()
        w.true('precondition: parent', feq(p, ix[n.parent.name] if n.parent is not None else -1))
        w.true('precondition: type', feq(ch.joint_type_indices[i].item(), TYPE[n.kind]))
        k = ch._joint_indices_clamped[i].item()
        if n.kind != 'fixed': w.true('precondition: joint of frame', feq(k, ds.index(n)))
        elif J: w.true('precondition: index in range', land(ige(k, 0), ige(J - 1, k)))
        A = S.eye(4)
        for B in (n.link, n.joint):
            if B is not None: A = S.matmul(A, B)
        for r in range(4):
            for c in range(4): w.same('precondition: static[%d,%d]' % (r, c), w.at(ch._static_offsets, i, r, c), A[r][c], tol=1e-9)
    w.true('precondition: has revolute', bool(ch._has_revolute) == any(d.kind == 'revolute' for d in ds))
    w.true('precondition: has prismatic', bool(ch._has_prismatic) == any(d.kind == 'prismatic' for d in ds))
    depth = {}
    for n in nodes: depth.setdefault(len(n.path()) - 1, set()).add(ix[n.name])
    w.true('precondition: levels', [set(conv(x) for x in l) for l in ch._bfs_levels] == [depth[d] for d in range(len(depth))])
    w.true('precondition: levels are disjoint', sum(len(list(l)) for l in ch._bfs_levels) == len(nodes))
    for k, d in enumerate(ds):
        for c in range(3): w.same('precondition: axis', w.at(ch.axes, k, c), d.axis[c], tol=1e-9)
        w.true('precondition: dof frame', feq(ch._dof_frame_indices[k].item(), ix[d.name]))
        w.true('precondition: dof type', bool(ch._dof_is_revolute[k].item()) == (d.kind == 'revolute'))
        for n in nodes: w.same('precondition: ancestor mask', w.at(ch._dof_ancestor_mask, k, ix[n.name]), 1 if d in n.path() else 0)


def check_behaviour(w, ch, nodes, ds):
    """the poses of all frames, and the gradient against ordinary differentiation of the poses"""
    if not ds: return
    t = w.torch
    th = t.tensor([[w.rng.uniform(-2, 2) for _ in ds] for _ in range(2)], dtype=ch.dtype, requires_grad=True)
    A = ch.forward_kinematics_tensor(th)
    w.shape('poses', A, (len(nodes), 2, 4, 4))
    tol = 1e-9 if ch.dtype == t.float64 else 1e-3
    for n in nodes:
        E = rb.pose_of(n, {d.joint_name: th[0, k].item() for k, d in enumerate(ds)})
        for i in range(4):
            for j in range(4): w.same('pose', w.at(A, ch.frame_to_idx[n.name], 0, i, j), E[i][j], tol)
    G = t.randn(A.shape, dtype=ch.dtype, generator=t.Generator().manual_seed(w.rng.randrange(1 << 30)))
    G[..., 3, :] = 0
    g, = t.autograd.grad((G * A).sum(), th)
    h, = t.autograd.grad((G * ch.forward_kinematics_tensor(th, analytical_grad=False)).sum(), th)
    for b in range(2):
        for k in range(len(ds)): w.same('gradient', g[b, k].item(), h[b, k].item(), max(tol, 1e-9) * 100)


def conv(x): return x.item() if hasattr(x, 'item') else x
def ige(a, b): return tm.ile(b, a) if type(a) is T or type(b) is T else a >= b


def qmap(w, ds, th, b): return {d.joint_name: w.at(th, b, k) for k, d in enumerate(ds)}


def same_pose(w, label, M, b, E, tol=1e-9):
    for i in range(4):
        for j in range(4): w.same('%s[%d,%d]' % (label, i, j), w.at(M, b, i, j), E[i][j], tol=tol)


@contract(('C01', 'C03', 'C21'), bounded=rb.ROBOT_BOUND, budget=150, weight=5)
def chain_fk(w):
    """forward_kinematics of a chain: poses of all frames, of a subset, of one frame"""
    root = pick_robot(w)
    ch = rb.build_chain(w, root)
    ds = rb.dofs(root)
    B = w.dim('B')
    th = w.tensor('th', (B, len(ds)))
    nodes = list(root.walk())
    how = w.choose('how', ['all', 'subset', 'one']) if w.concrete or len(nodes) > 2 else 'all'
    if how == 'all':
        w.calls.add('chain:Chain.forward_kinematics')
        r = ch.forward_kinematics(th)
        want = nodes
    else:
        want = nodes[1::2][::-1] if how == 'subset' else nodes[-1:]
        r = ch.forward_kinematics(th, frame_indices=ch.get_frame_indices(*[n.name for n in want]))
    w.true('frames', set(r) == {n.name for n in want} and len(r) == len(want))
    for n in want:
        M = r[n.name].get_matrix()
        w.shape('shape', M, (B, 4, 4))
        for (b,) in w.idx((B,)): same_pose(w, 'pose ' + n.kind, M, b, rb.pose_of(n, qmap(w, ds, th, b)))
    w.unchanged('joint values', th, 'th')


@contract(('C04',), sym=False, samples=120)
def fk_gradient_end_to_end(w):
    """gradient of a function of the poses returned by forward_kinematics equals its numerical derivative (all or one frame, values given as a tensor or by name)"""
    t = w.torch
    root = rb.random_tree(w)
    ch = rb.build_chain(w, root)
    ds = rb.dofs(root)
    if not ds: return
    B = w.dim('B')
    th = w.tensor('th', (B, len(ds)), requires_grad=True)
    names = [n.name for n in root.walk()]
    pick = w.rng.sample(names, w.rng.randrange(1, len(names) + 1))
    wt = {n: t.randn(B, 4, 4, dtype=t.float64) for n in pick}
    pt = t.randn(3, dtype=t.float64)

    form = w.choose('form', ['tensor', 'mapping'])
    order = list(enumerate(ch.get_joint_parameter_names()))
    w.rng.shuffle(order)

    def loss(x):
        r = ch.forward_kinematics(x if form == 'tensor' else {nm: x[:, j] for j, nm in order})
        return sum((r[n].get_matrix() * wt[n]).sum() + (r[n].transform_points(pt[None]) ** 2).sum() for n in pick)
    L = loss(th)
    g, = t.autograd.grad(L, th, allow_unused=True)
    w.true('gradient exists', g is not None and g.shape == th.shape)
    e = 1e-6
    for b in range(B):
        for j in range(len(ds)):
            d = t.zeros_like(th); d[b, j] = e
            x = th.detach()
            fd = (loss(x + d) - loss(x - d)).item() / (2 * e)
            w.near('derivative', g[b, j].item(), fd, 2e-5 * (1 + abs(L.item()) + abs(fd)))


# ------------------------------------------------------------------ Jacobian, serial chains
def serial_paths(root):
    """(top, leaf) pairs worth checking: from the root and from an inner frame, to every frame"""
    nodes = list(root.walk())
    out = [(root, n) for n in nodes]
    out += [(t_, n) for n in nodes for t_ in n.path()[1:]]
    return out


@contract(('C05', 'C06'), bounded=rb.ROBOT_BOUND + '; every root and end frame', budget=200, weight=6)
def serial_chain_kinematics(w):
    """SerialChain: end pose = the tree's pose of the end frame in the root frame; Jacobian = its derivative (obtained by differentiating
    the specification), with columns in joint-name order; source tree unchanged"""
    if w.symbolic:
        root = pick_robot(w, robots=SERIAL)
        pairs = serial_paths(root)
        top, leaf = w.choose('path', pairs)
    else: root, top, leaf = random_serial(w, 1)
    ch = rb.build_chain(w, root)
    names = list(ch.get_joint_parameter_names(exclude_fixed=False))
    sc = w.fn(CH, 'SerialChain')(ch, leaf.name, *((top.name,) if top is not root or w.choose('root given', [False, True]) else ()))
    path = leaf.path(top)
    ds = [d for d in path[1:] if d.kind != 'fixed']
    check_tables_names(w, sc, path)
    B = w.dim('B')
    th = w.tensor('th', (B, len(ds)))
    M = sc.forward_kinematics(th).get_matrix()
    w.shape('shape', M, (B, 4, 4))
    J = sc.jacobian(th)
    w.shape('J shape', J, (B, 6, len(ds)))
    for (b,) in w.idx((B,)):
        q = qmap(w, ds, th, b)
        E = rb.pose_of(leaf, q, top)
        same_pose(w, 'end pose', M, b, E)
        if w.concrete: check_jacobian(w, J[b], leaf, top, ds, q)
        else:
            for k, d in enumerate(ds):
                D = [[tm.diff(R(x), w.at(th, b, k)) for x in r] for r in E]
                Wx = S.matmul([r[:3] for r in D[:3]], S.transpose([r[:3] for r in E[:3]]))
                col = [D[0][3], D[1][3], D[2][3], Wx[2][1], Wx[0][2], Wx[1][0]]
                for i in range(6): w.same('J[%d]' % i, w.at(J, b, i, k), col[i])
    A = sc.forward_kinematics(th, end_only=False)
    w.true('frames of the path', set(A) == {n.name for n in path})
    for n in path:
        for (b,) in w.idx((B,)): same_pose(w, 'path pose', A[n.name].get_matrix(), b, rb.pose_of(n, qmap(w, ds, th, b), top))
    # the source tree
    w.true('source joints unchanged', list(ch.get_joint_parameter_names(exclude_fixed=False)) == names)
    check_tables(w, ch, root)
    check_source(w, ch, root)
    # what is done to the serial chain later does not reach the source
    dt = w.torch.float64
    sc.to(dtype=w.torch.float32)
    for n in root.walk():
        f = ch.find_frame(n.name)
        w.true('source unmoved', all(x is None or x.dtype == dt for x in (f.joint.axis, f.joint.offset and f.joint.offset.get_matrix(), f.link.offset and f.link.offset.get_matrix())),
               'moving the serial chain moved frame %s of its source' % n.name)


def check_tables_names(w, sc, path):
    w.true('serial frames', list(sc.get_frame_names(exclude_fixed=False)) == [n.name for n in path])
    w.true('serial joints', list(sc.get_joint_parameter_names()) == [n.joint_name for n in path[1:] if n.kind != 'fixed'])


def check_source(w, ch, root):
    """the frames of the source tree still hold what the tree was built from"""
    for n in root.walk():
        f = ch.find_frame(n.name)
        w.true('source frame', f is not None and f.joint.name == n.joint_name and f.link.name == n.link_name and f.joint.joint_type == n.kind)
        w.true('source children', [c_.name for c_ in f.children] == [c_.name for c_ in n.children])
        for got, want in ((f.link.offset, n.link), (f.joint.offset, n.joint)):
            w.true('source offset', (got is None) == (want is None))
            if want is not None: same_pose(w, 'source offset', got.get_matrix(), 0, want)


SERIAL = [r for r in rb.ROBOTS if len(r[0]) <= 3] + rb.ROBOTS[-2:]


# ------------------------------------------------------------------ input forms
INPUTS = [r for r in rb.ROBOTS if len(r[0]) <= 3 and any(k != 'fixed' for k in r[1])][::3] + rb.ROBOTS[-2:]


def permutations_for(w, n):
    ps = [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]
    out = []
    for p in ps:
        if p not in out: out.append(p)
    return out


def dtype_free(w): return w.torch.float64


@contract(('C02',), bounded=rb.ROBOT_BOUND + '; three orders of the mapping', budget=150, weight=4)
def input_forms(w):
    """a list, array, tensor or mapping (any order, scalar or batched) of joint values gives the poses of that configuration;
    for a chain and for a serial chain, and for its Jacobian"""
    if w.symbolic: root = pick_robot(w, robots=INPUTS)
    else:
        root = rb.random_tree(w)
        if not rb.dofs(root): return
    ch = rb.build_chain(w, root)
    serial = w.choose('chain', ['tree', 'serial', 'jacobian'])
    leaf = list(root.walk())[-1]
    top = root
    ds = rb.dofs(root)
    if serial != 'tree':
        ch = w.fn(CH, 'SerialChain')(ch, leaf.name)
        ds = [d for d in leaf.path()[1:] if d.kind != 'fixed']
        if not ds: return
    n = len(ds)
    form = w.choose('form', ['list', 'array', 'array batch', 'tensor', 'tensor batch', 'dict float', 'dict scalar', 'dict batch', 'dict array', 'nested list'])
    batch = form in ('array batch', 'tensor batch', 'dict batch', 'dict array')
    B = w.dim('B') if batch else 2 if form == 'nested list' else 1
    th = w.tensor('th', (B, n)) if batch or form == 'nested list' else w.tensor('th', (n,))
    val = (lambda b, k: w.at(th, b, k)) if batch or form == 'nested list' else (lambda b, k: w.at(th, k))
    items = None
    if form == 'list': x = [val(0, k) for k in range(n)]
    elif form == 'nested list': x = [[val(b, k) for k in range(n)] for b in range(2)]
    elif form in ('array', 'array batch'): x = w.array(th)
    elif form in ('tensor', 'tensor batch'): x = th
    else:
        perm = w.choose('order', permutations_for(w, n))
        get = {'dict float': lambda k: val(0, k), 'dict scalar': lambda k: th[k], 'dict batch': lambda k: th[:, k], 'dict array': lambda k: w.array(th)[:, k] if w.concrete else w.array(th[:, k])}[form]
        x = {ds[k].joint_name: get(k) for k in perm}
        items = list(x.items())
    if serial == 'jacobian':
        J = ch.jacobian(x)
        w.shape('J shape', J, (B, 6, n))
        K = ch.jacobian(th if batch or form == 'nested list' else th.reshape(1, n))
        for (b,) in w.idx((B,)):
            for i in range(6):
                for k in range(n): w.same('J', w.at(J, b, i, k), w.at(K, b, i, k))
    else:
        w.calls.add('chain:Chain.ensure_tensor')
        r = ch.forward_kinematics(x) if serial == 'tree' else {leaf.name: ch.forward_kinematics(x)}
        for nd in (list(root.walk()) if serial == 'tree' else [leaf]):
            M = r[nd.name].get_matrix()
            w.shape('shape', M, (B, 4, 4))
            for (b,) in w.idx((B,)): same_pose(w, 'pose', M, b, rb.pose_of(nd, {d.joint_name: val(b, k) for k, d in enumerate(ds)}, None if serial == 'tree' else top))
    if items is not None: w.true('mapping unchanged', list(x.keys()) == [a for a, _ in items] and all(x[a] is v for a, v in items))


@contract(('C02',), bounded=rb.ROBOT_BOUND, budget=90, weight=2)
def input_rejection(w):
    """a mapping that omits a joint or names an unknown one is rejected, and so is a wrong number of values for a serial chain"""
    if w.symbolic: root = pick_robot(w, robots=INPUTS)
    else:
        root = rb.random_tree(w)
        if not rb.dofs(root): return
    ch = rb.build_chain(w, root)
    serial = w.choose('chain', ['tree', 'serial'])
    ds = rb.dofs(root)
    if serial == 'serial':
        leaf = list(root.walk())[-1]
        ch = w.fn(CH, 'SerialChain')(ch, leaf.name)
        ds = [d for d in leaf.path()[1:] if d.kind != 'fixed']
        if not ds: return
    n = len(ds)
    B = w.dim('B')
    th = w.tensor('th', (B, n + 2))
    batched = w.choose('batched', [False, True])
    v = lambda k: th[:, k] if batched else w.at(th, 0, k)
    full = {d.joint_name: v(k) for k, d in enumerate(ds)}
    case = w.choose('case', ['missing', 'unknown', 'swapped', 'few', 'many', 'many list', 'few list'] if serial == 'serial' else ['missing', 'unknown', 'swapped'])
    fk = lambda x: ch.forward_kinematics(x)
    if case == 'missing':
        if n == 1: return
        k = w.one(n)
        x = {d.joint_name: full[d.joint_name] for i, d in enumerate(ds) if i != k}
    elif case == 'unknown': x = dict(full, nobody=v(n))
    elif case == 'swapped':
        k = w.one(n)
        x = {('nobody' if i == k else d.joint_name): full[d.joint_name] for i, d in enumerate(ds)}
    elif case == 'few': x = th[:, :n - 1] if batched else th[0, :n - 1]
    elif case == 'many': x = th[:, :n + 1] if batched else th[0, :n + 1]
    elif case == 'many list': x = [w.at(th, 0, k) for k in range(n + 1 + batched)]
    else: x = [w.at(th, 0, k) for k in range(n - 1)]
    w.raises('rejected: ' + case, lambda: fk(x))


# ------------------------------------------------------------------ precision and device
MOVE = [((-1, 0, 1, 1), ('fixed', 'revolute', 'prismatic', 'revolute')), ((-1, 0), ('fixed', 'fixed')), ((-1, 0, 1), ('revolute', 'revolute', 'revolute')),
        ((-1, 0), ('fixed', 'prismatic')), ((-1, 0, 0), ('fixed', 'prismatic', 'revolute'))]


@contract(('C14',), bounded='five robots; joint values and batch size arbitrary; two precisions, two devices', budget=150, weight=4)
def move_chain(w):
    """a chain or serial chain moved to (or built in) another precision and device computes the same results there, in every entry point"""
    t = w.torch
    f32, f64 = t.float32, t.float64
    if w.symbolic: root = pick_robot(w, robots=MOVE, offsets=[0, 3, 1, 2])
    else: root = rb.random_tree(w, fixed_root=True)
    limited(w, root)
    src = w.choose('from', [f64, f32])
    dst = w.choose('to', [f64, f32])
    kind = w.choose('kind', ['tree', 'serial', 'serial of moved', 'serial built', 'built', 'built and moved'])
    dev = 'cuda:0' if w.symbolic and (src != dst or kind != 'serial built') and w.choose('device', ['same', 'other']) == 'other' else 'cpu'
    how = w.choose('how', ['both', 'dtype', 'device']) if kind in ('tree', 'serial') else w.choose('how', ['both', 'dtype']) if kind in ('built and moved', 'serial built') else 'both'
    if how == 'dtype': dev = 'cpu'
    if how == 'device': dst = src
    kw = {'both': dict(dtype=dst, device=dev), 'dtype': dict(dtype=dst), 'device': dict(device=dev)}[how]
    leaf = list(root.walk())[-1]
    if kind == 'built and moved':           # the frames follow even where the chain's own precision does not change
        ch = w.fn(CH, 'Chain')(rb.build_frames(w, root, src), dtype=dst)
        w.true('to returns the chain', ch.to(**kw) is ch)
    elif kind == 'serial built':            # in another precision or on another device than the source
        ch = w.fn(CH, 'SerialChain')(rb.build_chain(w, root, src), leaf.name, **kw)
    elif kind == 'built':
        fr = rb.build_frames(w, root, src, 'cpu' if src != dst else dev)
        if dev != 'cpu' and src != dst: return
        ch = w.fn(CH, 'Chain')(fr, **kw)
    else:
        ch = rb.build_chain(w, root, src)
        if kind == 'serial': ch = w.fn(CH, 'SerialChain')(ch, leaf.name)
        ch.get_frame_indices(leaf.name)
        w.calls.add('chain:Chain.to')
        w.calls.add('chain:SerialChain.to')
        m = ch.to(**kw)
        w.true('to returns the chain', m is ch)
        if kind == 'serial of moved': ch = w.fn(CH, 'SerialChain')(ch, leaf.name)
    serial = kind.startswith('serial')
    nodes = list(root.walk()) if not serial else leaf.path()
    ds = [d for d in nodes if d.kind != 'fixed'] if not serial else [d for d in nodes[1:] if d.kind != 'fixed']
    w.true('dtype attribute', ch.dtype == dst)
    w.true('device attribute', str(ch.device) == dev)
    if not ds: return
    n = len(ds)
    B = w.dim('B')
    th = w.tensor('th', (B, n), dtype=dst, device=dev, requires_grad=True)
    tol = 1e-9 if src == dst == f64 else 2e-4

    def good(label, x):
        w.true('precision of ' + label, x.dtype == dst, '%s is %s' % (label, x.dtype))
        w.true('device of ' + label, str(x.device) == dev, '%s is on %s' % (label, x.device))
        return x
    moved = w.concrete or kind in ('tree', 'serial', 'built and moved')
    what = w.choose('what', (['fk', 'mapping', 'list', 'clamp', 'gradient', 'indices', 'frames'] if moved else ['fk', 'clamp', 'gradient', 'frames']) +
                    (['jacobian', 'jacobian list', 'jacobian tool', 'jacobian tool list', 'jacobian tool tensor'] if serial and moved else ['jacobian', 'jacobian tool'] if serial else []))
    if what in ('fk', 'mapping', 'list'):
        x = th if what == 'fk' else {d.joint_name: th[:, k] for k, d in enumerate(ds)} if what == 'mapping' else [w.at(th, 0, k) for k in range(n)]
        r = ch.forward_kinematics(x, **(dict(end_only=False) if serial else {}))
        for nd in nodes:
            M = r[nd.name]
            w.true('recorded precision', M.dtype == dst and str(M.device) == dev)
            good('pose', M.get_matrix())
            for (b,) in w.idx((1 if what == 'list' else B,)):
                same_pose(w, 'pose', M.get_matrix().detach(), b, rb.pose_of(nd, qmap(w, ds, th, b), root if serial else None), tol=tol)
    elif what == 'clamp':
        r = good('clamp', ch.clamp(th))
        for b, k in w.idx((B, n)):
            v = w.at(th, b, k)
            lim = ds[k].limits
            if lim: v = ite(feq_lt(v, lim[0]), lim[0], ite(feq_lt(lim[1], v), lim[1], v))
            w.same('clamp', w.at(r, b, k), v, tol=tol)
    elif what == 'gradient':
        T = good('transforms', ch.forward_kinematics_tensor(th))
        g = good('gradient', w.grad(T, th, w.tensor('G', tuple(T.shape), dtype=dst, device=dev)))
        w.shape('gradient shape', g, (B, n))
    elif what == 'indices':
        i = ch.get_frame_indices(leaf.name)
        w.true('device of indices', str(i.device) == dev)
        w.true('device of indices', str(ch.get_all_frame_indices().device) == dev)
    elif what == 'frames':
        if kind in ('built', 'serial built'): return
        for nd in nodes:
            f = ch.find_frame(nd.name)
            if nd in ds: good('joint axis', f.joint.axis)
            for o in (f.joint.offset, f.link.offset):
                if o is not None:
                    good('offset', o.get_matrix())
                    w.true('offset precision', o.dtype == dst and str(o.device) == dev)
    else:
        x = th if 'list' not in what or 'tool' in what else [w.at(th, 0, k) for k in range(n)]
        off = (0.1, -0.2, 0.3)
        loc = None
        if what == 'jacobian tool': loc = w.module('transforms').Transform3d(pos=w.make((3,), lambda i: rb.c(w, off[i]), dtype=src), dtype=src)
        elif what == 'jacobian tool list': loc = [rb.c(w, v) for v in off]
        elif what == 'jacobian tool tensor': loc = w.make((3,), lambda i: rb.c(w, off[i]), dtype=dst, device=dev)
        r = ch.jacobian(x, **({} if loc is None else dict(locations=loc, ret_eef_pose=True)))
        if loc is not None:
            r, P = r
            good('tool pose', P)
            if w.concrete and dst == f64 and what != 'jacobian tool': tol = 1e-9 if src == f64 else tol
            for (b,) in w.idx((B,)):
                E = S.matmul(rb.pose_of(leaf, qmap(w, ds, th, b), root), S.homog(S.eye(3), [rb.c(w, v) for v in off]))
                same_pose(w, 'tool pose', P.detach(), b, E, tol=tol)
        good('jacobian', r)
        w.shape('jacobian shape', r, (1 if 'list' in what and 'tool' not in what else B, 6, n))
    if dst == f64: w.precise('moved')


def feq_lt(a, b): return tm.lt(R(a), R(b)) if type(a) is T or type(b) is T else a < b


def abs_inf(x): return isinstance(x, float) and abs(x) == float('inf')


def limited(w, root):
    for i, d in enumerate(rb.dofs(root)):
        d.limits = [(-1.5, 0.75), None, (-0.25, 3.0)][i % 3]


# ------------------------------------------------------------------ queries
QUERY = [r for r in rb.ROBOTS if len(r[0]) <= 3] + [r for r in rb.ROBOTS if len(r[0]) == 4][::4] + rb.ROBOTS[-2:]


@contract(('C23',), bounded=rb.ROBOT_BOUND + ' (a third of those with 4 frames)', budget=90, weight=2)
def tree_queries(w):
    """lookups, name lists, limits and printing report the tree"""
    if w.symbolic: root = pick_robot(w, robots=QUERY)
    else: root = rb.random_tree(w)
    nodes = list(root.walk())
    ds = rb.dofs(root)
    shift = w.choose('which joints are limited', [0, 1, 2, 3])
    for i, n in enumerate(nodes):
        forms = ['both', 'none', 'low', 'both', 'high']
        form = lambda k: w.rng.choice(forms) if w.concrete else forms[(i + shift + k) % 5]
        n.limits, n.vel, n.eff = (rb.any_limits(w, '%s%d' % (nm, i), form(k)) for k, nm in enumerate(('pos', 'vel', 'eff')))
    fr = rb.build_frames(w, root)

    def more(f, n):
        f.joint.velocity_limits, f.joint.effort_limits = n.vel, n.eff
        for a, b in zip(f.children, n.children): more(a, b)
    more(fr, root)
    ch = w.fn(CH, 'Chain')(fr, dtype=w.torch.float64)
    for name in ('find_frame', 'find_link', 'find_joint', 'get_joints', 'get_joint_parameter_names', 'get_joint_parent_frame_names', 'get_frame_names', 'get_links',
                 'get_link_names', 'get_frame_indices', 'get_all_frame_indices', 'get_joint_limits', 'get_joints_and_child_links', 'print_tree'): w.calls.add('chain:Chain.' + name)
    byname = {}

    def walk(f):
        byname[f.name] = f
        for c_ in f.children: walk(c_)
    walk(fr)
    for n in nodes:
        f = ch.find_frame(n.name)
        w.true('find_frame', f is byname[n.name])
        w.true('find_link', ch.find_link(n.link_name) is byname[n.name].link)
        w.true('find_joint', ch.find_joint(n.joint_name) is byname[n.name].joint)
        w.true('is_end', f.is_end() == (not n.children))
        i = ch.get_frame_indices(n.name)
        w.true('get_frame_indices', ch.idx_to_frame[i[0].item() if hasattr(i[0], 'item') else i[0]] == n.name)
    for unknown in ('nobody', '', nodes[0].name + 'x', None):
        w.true('unknown frame', ch.find_frame(unknown) is None)
        w.true('unknown link', ch.find_link(unknown) is None)
        w.true('unknown joint', ch.find_joint(unknown) is None)
    mv = [n for n in nodes if n.kind != 'fixed']
    w.true('get_joints', [j.name for j in ch.get_joints()] == [n.joint_name for n in mv])
    w.true('get_joints identity', all(j is byname[n.name].joint for j, n in zip(ch.get_joints(), mv)))
    w.true('get_joints with fixed', [j.name for j in ch.get_joints(exclude_fixed=False)] == [n.joint_name for n in nodes])
    w.true('joint names', list(ch.get_joint_parameter_names()) == [n.joint_name for n in mv])
    w.true('joint names with fixed', list(ch.get_joint_parameter_names(exclude_fixed=False)) == [n.joint_name for n in nodes])
    w.true('joint parent frames', list(ch.get_joint_parent_frame_names()) == [n.name for n in mv])
    w.true('joint parent frames with fixed', list(ch.get_joint_parent_frame_names(exclude_fixed=False)) == [n.name for n in nodes])
    w.true('frame names', list(ch.get_frame_names()) == [n.name for n in mv])
    w.true('frame names with fixed', list(ch.get_frame_names(exclude_fixed=False)) == [n.name for n in nodes])
    w.true('link names', list(ch.get_link_names()) == [n.link_name for n in nodes])
    w.true('links', [l.name for l in ch.get_links()] == [n.link_name for n in nodes])
    ai = [conv(x) for x in ch.get_all_frame_indices()]
    w.true('all frame indices', sorted(ai) == list(range(len(nodes))))
    inf = float('inf')
    for name, attr in (('get_joint_limits', 'limits'), ('get_joint_velocity_limits', 'vel'), ('get_joint_effort_limits', 'eff')):
        lo, hi = getattr(ch, name)()
        w.true(name, len(lo) == len(hi) == len(mv))
        for k, n in enumerate(mv):
            L = getattr(n, attr) or (-inf, inf)
            for got, want in ((lo[k], L[0]), (hi[k], L[1])):
                if abs_inf(got) or abs_inf(want): w.true(name, abs_inf(got) and abs_inf(want) and got == want, '%s of %s: %s for %s' % (name, n.joint_name, got, want))
                else: w.same(name, got, want, tol=0)
    for k, n in enumerate(mv):
        for tns, i, d in ((ch.low, 0, -inf), (ch.high, 1, inf)):
            v = w.at(tns, k)
            want = d if n.limits is None else n.limits[i]
            if w.symbolic and abs_inf(want): w.true('limit tensors', v is (tm.INF if want > 0 else tm.NINF) or v == want)
            else: w.same('limit tensors', v, want)
    # joints with the links that move with them
    pairs = {j.name: [l.name for l in ls] for j, ls in ch.get_joints_and_child_links()}
    w.true('joints and child links', {n: sorted(v) for n, v in pairs.items()} == {n.joint_name: sorted(x.link_name for x in n.walk()) for n in mv})
    # the printed tree
    text = ch.print_tree(do_print=False)
    w.true('print_tree is str', text == str(ch))
    w.true('printed tree', parse_tree(text) == [(n.name, n.parent.name if n.parent else None) for n in nodes], 'printed:\n' + text)


def parse_tree(text):
    """(name, parent) pairs in order of lines, by the column at which names start"""
    out, stack = [], []
    for line in text.split('\n'):
        if not line.strip(): continue
        name = line.lstrip(' \u2502\u251c\u2514\u2500')
        depth = (len(line) - len(name)) // 4
        stack = stack[:depth] + [name]
        out.append((name, stack[depth - 1] if depth else None))
    return out


@contract(('C23', 'C01', 'C21'), budget=30)
def joint_objects(w):
    """Joint: unit axis parallel to the given one, limits kept, clamping to limits; Frame: given children kept, motion and offset composed"""
    t = w.torch
    fr = w.module('frame')
    w.calls.update(['frame:Joint.__init__', 'frame:Joint.clamp', 'frame:Frame.__init__', 'frame:Frame.get_transform', 'frame:Link.__init__'])
    form = w.choose('axis form', ['tensor', 'list', 'none', 'default'])
    a = w.tensor('a', (3,))
    w.assume(S.dot([w.at(a, i) for i in range(3)], [w.at(a, i) for i in range(3)]) > w.const(DEGENERATE))
    A = [w.at(a, i) for i in range(3)]
    kind = w.choose('kind', ['fixed', 'revolute', 'prismatic'])
    off = w.choose('offset', [False, True])
    T3 = w.module('transforms').Transform3d
    O = S.homog(rb.ratrot((1, 2, 3, 1), w), [rb.c(w, x) for x in (0.5, -0.25, 1.0)]) if off else S.eye(4)
    kw = dict(offset=T3(matrix=rb.t4(w, O))) if off else {}
    lo = w.real('lo'); hi = w.real('hi')
    w.assume(lo <= hi)
    if form == 'tensor': kw['axis'] = a
    elif form == 'list': kw['axis'] = A
    elif form == 'none': kw['axis'] = None
    if form in ('none', 'default'): A = [0, 0, 1]
    nr = S.norm([R(x) if w.symbolic else x for x in A]) if form in ('tensor', 'list') else 1
    if w.concrete and form in ('tensor', 'list') and nr < 1e-6: return
    j = fr.Joint('jn', joint_type=kind, dtype=t.float64, limits=(lo, hi), **kw)
    w.shape('axis shape', j.axis, (3,))
    for i in range(3): w.same('unit axis', w.at(j.axis, i), A[i] / nr)
    w.unchanged('given axis', a, 'a')
    w.true('name', j.name == 'jn' and j.joint_type == kind and j.limits[0] is lo and j.limits[1] is hi)
    w.raises('unknown joint type', lambda: fr.Joint('x', joint_type='floating'))
    f = fr.Frame('fn', link=fr.Link('ln'), joint=j, children=None)
    g = fr.Frame('gn', children=[f])
    w.true('children', g.children == [f] and f.children == [])
    B = w.dim('B')
    q = w.tensor('q', (B,))
    x = j.clamp(q)
    for (b,) in w.idx((B,)):
        v = w.at(q, b)
        w.same('clamp', w.at(x, b), ite(feq_lt(v, lo), lo, ite(feq_lt(hi, v), hi, v)))
    M = f.get_transform(q).get_matrix()
    w.shape('transform shape', M, (B, 4, 4))
    axis = [w.at(j.axis, i) for i in range(3)]
    for (b,) in w.idx((B,)):
        E = S.matmul(O, S.homog(S.rodrigues(axis, w.at(q, b)), [0, 0, 0]) if kind == 'revolute' else S.homog(S.eye(3), [z * w.at(q, b) for z in axis]) if kind == 'prismatic' else S.eye(4))
        same_pose(w, 'transform', M, b, E)
