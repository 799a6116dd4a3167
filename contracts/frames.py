"""C21: calls leave their arguments and the results of earlier calls alone, and the same call gives the same result.  C03: rows do not meet."""
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported
from ptv.world import *
from contracts import robots as rb
from contracts.rotations import RC, SO, MA

TF = 'transforms'
# name, module, kinds of the arguments: q unit quaternion, m rotation, v 3-vector, u unit 3-vector, s scalar per row, d 6-vector, n 9-vector, H rigid 4x4
ROWS = [
    ('quaternion_to_matrix', RC, 'q', ()), ('matrix_to_quaternion', RC, 'm', ()), ('standardize_quaternion', RC, 'q', ()), ('quaternion_raw_multiply', RC, 'qq', ()),
    ('quaternion_multiply', RC, 'qq', ()), ('quaternion_invert', RC, 'q', ()), ('quaternion_apply', RC, 'qv', ()), ('euler_angles_to_matrix', RC, 'v', ('ZYX',)),
    ('euler_angles_to_matrix', RC, 'v', ('XYX',)), ('matrix_to_euler_angles', RC, 'm', ('XYZ',)), ('matrix_to_euler_angles', RC, 'm', ('ZYZ',)),
    ('axis_and_angle_to_matrix_33', RC, 'us', ()), ('axis_and_angle_to_matrix_44', RC, 'us', ()), ('axis_and_d_to_pris_matrix', RC, 'us', ()),
    ('axis_angle_to_matrix', RC, 'v', ()), ('matrix_to_axis_angle', RC, 'm', ()), ('axis_angle_to_quaternion', RC, 'v', ()), ('quaternion_to_axis_angle', RC, 'q', ()),
    ('rotation_6d_to_matrix', RC, 'd', ()), ('matrix_to_rotation_6d', RC, 'm', ()), ('matrix44_to_se3_9d', RC, 'H', ()), ('se3_9d_to_matrix44', RC, 'n', ()),
    ('matrix_to_pos_rot', RC, 'H', ()), ('pos_rot_to_matrix', RC, 'vq', ()), ('quaternion_from_euler', RC, 'v', ('sxyz',)), ('quaternion_from_euler', RC, 'v', ('rzyx',)),
    ('xyzw_to_wxyz', RC, 'q', ()), ('wxyz_to_xyzw', RC, 'q', ()),
    ('so3_exp_map', SO, 'v', ()), ('so3_log_map', SO, 'm', ()), ('so3_rotation_angle', SO, 'm', ()), ('so3_relative_angle', SO, 'mm', ()), ('hat', SO, 'v', ()),
    ('quaternion_angular_distance', MA, 'qq', ()), ('quaternion_slerp', MA, 'qqs', ()), ('quaternion_close', MA, 'qq', ()), ('acos_linear_extrapolation', MA, 's', ()),
]
SLOW = {'so3_log_map', 'matrix_to_axis_angle'}


def arg(w, kind, name, B):
    if kind == 'q': return w.unit(name, (B,), 4)
    if kind == 'u': return w.unit(name, (B,), 3)
    if kind == 'm': return w.rotation(name, (B,))
    if kind == 'v': return w.tensor(name, (B, 3))
    if kind == 's': return w.tensor(name, (B,), lo=-1, hi=1) if w.concrete else w.tensor(name, (B,))
    if kind == 'd': return w.tensor(name, (B, 6))
    if kind == 'n': return w.tensor(name, (B, 9))
    if kind == 'H':
        R, p = w.rotation(name + 'R', (B,)), w.tensor(name + 'p', (B, 3))
        A = lambda b, i, j: w.at(R, b, i, j) if i < 3 and j < 3 else w.at(p, b, i) if i < 3 else (1 if j == 3 else 0)
        if w.concrete: return w.make((B, 4, 4), A)
        return w.make((B, 4, 4), lambda b, i, j: tm.R(A(b, i, j)) if isinstance(i, int) and isinstance(j, int) else _pick(i, j, A, b))


def _pick(i, j, A, b):
    raise Unsupported('symbolic matrix entry')


def tensors(r):
    if isinstance(r, (tuple, list)): return [x for y in r for x in tensors(y)]
    return [r]


def copies(w, a):
    """a second tensor with the values of a, and what it takes to tell that a still has them"""
    s = w.snapshot(a)
    return lambda label: keep(w, label, a, s)


def keep(w, label, a, s):
    for ix in w.idx(tuple(a.shape)):
        x, y = w.at(a, *ix), s(*ix)
        if isinstance(x, bool) or isinstance(y, bool): w.check(label, x == y)
        elif w.concrete: w.check(label, x == y or (x != x and y != y))
        elif type(x) is T and x.sort == 'B': w.check(label, lor(land(x, y), land(lnot(x), lnot(y))))
        else: w.same(label, x, y)


def row_domain(w, f, args, B):
    """where the function is defined by its contract"""
    n = f[0]
    if n in ('rotation_6d_to_matrix', 'se3_9d_to_matrix44'):
        for (b,) in w.idx((B,)):
            a = [w.at(args[0], b, k + (3 if n.startswith('se3') else 0)) for k in range(6)]
            c = S.cross(a[:3], a[3:])
            w.assume(w.concrete and S.dot(c, c) > 1e-6 or w.symbolic and lnot(feq(S.dot(c, c), 0)))


@contract(('C21', 'C03'), samples=300, budget=200, weight=4, functions=tuple('%s:%s' % (m, n) for n, m, _, _ in ROWS))
def row_functions(w):
    """every conversion: arguments unchanged, earlier results unchanged by a later call, the same call gives the same result"""
    f = ROWS[w.choose('function', list(range(len(ROWS))))]
    B = w.dim('B')
    a = [arg(w, k, 'a%d' % i, B) for i, k in enumerate(f[2])]
    b = [arg(w, k, 'b%d' % i, B) for i, k in enumerate(f[2])]
    if w.concrete and w.choose('view', [False, True]):          # arguments that are views of a larger tensor
        base = [w.torch.stack([x, x + 1], dim=1) for x in a]
        a = [x[:, 0] for x in base]
        watch = [copies(w, x) for x in base]
    else: watch = [copies(w, x) for x in a + b]
    if w.concrete: row_domain(w, f, a, B); row_domain(w, f, b, B)
    fn = w.fn(f[1], f[0])
    try: r1 = tensors(fn(*a, *f[3]))
    except ValueError:
        if w.concrete: raise
        for k in watch: k(f[0] + ': arguments unchanged')      # the domain of the function is the business of its own contract
        return
    k1 = [copies(w, x) for x in r1]
    if w.concrete or f[0] not in SLOW:
        try: fn(*b, *f[3])
        except ValueError:
            if w.concrete: raise
        for k in k1: k(f[0] + ': an earlier result is unchanged')
    r2 = tensors(fn(*a, *f[3]))
    for x, y in zip(r1, r2): keep(w, f[0] + ': the same result again', y, w.snapshot(x))
    for k in watch: k(f[0] + ': arguments unchanged')
    if w.concrete and f[0] != 'quaternion_close':              # (one answer for the whole batch)
        i = w.rng.randrange(B)
        one = tensors(fn(*[x[i:i + 1] for x in a], *f[3]))
        for x, y in zip(r1, one):
            for ix in w.idx(tuple(y.shape)[1:]): w.same(f[0] + ': row', w.at(x, i, *ix), w.at(y, 0, *ix), tol=1e-9)


@contract('C03', samples=400, budget=300, weight=4, functions=tuple('%s:%s' % (m, n) for n, m, _, _ in ROWS if n != 'quaternion_close'))
def rows_independent(w):
    """every conversion: row i of the result for a batch is the result for row i alone, whatever the other rows are (no precondition on any row)"""
    fs = [f for f in ROWS if f[0] != 'quaternion_close']        # (one answer for the whole batch)
    f = fs[w.choose('function', list(range(len(fs))))]
    B = w.dim('B')
    a = [arg(w, k, 'a%d' % i, B) for i, k in enumerate(f[2])]
    if w.concrete: row_domain(w, f, a, B)
    fn = w.fn(f[1], f[0])
    try: many = tensors(fn(*a, *f[3]))
    except ValueError:
        if w.concrete: raise
        return                                                  # a row outside the domain may be refused
    for i, in w.idx((B,)):
        try: one = tensors(fn(*[row(w, x, i) for x in a], *f[3]))
        except ValueError:
            if w.concrete: raise
            return
        for x, y in zip(many, one):
            for ix in w.idx(tuple(y.shape)[1:]):
                p, q = w.at(x, i, *ix), w.at(y, 0, *ix)
                if w.concrete and (p != p or q != q): w.check(f[0] + ': row alone', p != p and q != q)
                else: w.same(f[0] + ': row alone', p, q, tol=1e-9)


def row(w, x, i):
    if w.concrete: return x[i:i + 1]
    return w.make((1,) + tuple(x.shape)[1:], lambda b, *ix: w.at(x, i, *ix))


# ------------------------------------------------------------------ sequences of calls on one model
SEQ = [((-1, 0, 1, 1), ('revolute', 'prismatic', 'revolute', 'fixed')), ((-1, 0, 1), ('fixed', 'revolute', 'prismatic'))]


def model_calls(w, serial, th, other, names, leaf):
    """public computations of a chain: name -> function of the chain returning tensors and plain values"""
    n = len(names)
    mp = {nm: th[:, k] for k, nm in enumerate(names)}
    poses = lambda r: [r[k].get_matrix() for k in sorted(r)] if isinstance(r, dict) else [r.get_matrix()]
    ops = {
        'fk': lambda c: poses(c.forward_kinematics(th)),
        'fk of other values': lambda c: poses(c.forward_kinematics(other)),
        'fk of a mapping': lambda c: poses(c.forward_kinematics(mp)),
        'fk tensor': lambda c: [c.forward_kinematics_tensor(th)],
        'clamp': lambda c: [c.clamp(th)],
        'limits': lambda c: [list(map(list, (c.get_joint_limits(), c.get_joint_velocity_limits(), c.get_joint_effort_limits())))],
        'names': lambda c: [list(c.get_joint_parameter_names()), list(c.get_joint_parameter_names(exclude_fixed=False)), list(c.get_frame_names()), list(c.get_frame_names(exclude_fixed=False)),
                            list(c.get_link_names()), list(c.get_joint_parent_frame_names())],
        'indices': lambda c: [c.get_frame_indices(leaf), c.get_all_frame_indices()],
        'objects': lambda c: [c.find_frame(leaf).name, c.find_joint(names[-1]).name, len(c.get_joints()), len(c.get_links()), str(c)],
        'ensure': lambda c: [c.ensure_tensor(mp), c.ensure_tensor(th)],
    }
    if serial:
        ops['jacobian'] = lambda c: [c.jacobian(th)]
        ops['jacobian and pose'] = lambda c: list(c.jacobian(other, ret_eef_pose=True))
        ops['jacobian at a tool'] = lambda c: [c.jacobian(th, locations=other[:, :1] * w.make((1, 3), lambda i, j: rb.c(w, 0.5 * (j + 1))))]
        ops['fk of all frames'] = lambda c: poses(c.forward_kinematics(th, end_only=False))
    else:
        ops['part'] = lambda c: [w.fn('chain', 'SerialChain')(c, leaf).jacobian(th[:, :0] if not n else th)] if False else \
            poses(c.forward_kinematics(th, frame_indices=c.get_frame_indices(leaf)))
        ops['serial chain'] = lambda c: [w.fn('chain', 'SerialChain')(c, leaf).n_joints]
    return ops


def compare(w, label, x, y):
    if hasattr(x, 'shape'):
        w.shape(label, x, tuple(y.shape))
        keep(w, label, x, w.snapshot(y))
    else: w.true(label, same_plain(w, x, y), '%r, then %r' % (y, x))


def same_plain(w, x, y):
    if isinstance(x, (list, tuple)): return type(x) is type(y) and len(x) == len(y) and all(same_plain(w, a, b) for a, b in zip(x, y))
    return x is y or (not (type(x) is T or type(y) is T) and x == y)


@contract(('C21',), bounded='a tree and a serial robot with fixed geometry; every pair of calls (concretely: sequences of up to six calls on arbitrary robots); joint values and batch size arbitrary',
          samples=120, budget=200, weight=5, functions=('chain:Chain.forward_kinematics', 'chain:SerialChain.jacobian', 'chain:Chain.clamp', 'chain:Chain.ensure_tensor', 'chain:Chain.get_joint_limits'))
def call_sequences(w):
    """a computation on a chain gives the same result after other computations, changes none of its arguments, and leaves earlier results alone"""
    t = w.torch
    serial = w.choose('serial', [False, True])
    if w.symbolic:
        r = SEQ[1 if serial else 0]
        root = rb.design(w, r[0], r[1], salt=2, offsets=[0, 3, 1, 2])
        leaf = list(root.walk())[2]
    else:
        root = rb.random_tree(w)
        leaf = w.rng.choice(list(root.walk()))
        if serial and (leaf is root): raise Reject()
    for i, d in enumerate(rb.dofs(root)): d.limits = [(-1.5, 0.75), None, (-0.25, 3.0)][i % 3]
    ds = rb.dofs(root) if not serial else [d for d in leaf.path()[1:] if d.kind != 'fixed']
    names = [d.joint_name for d in ds]
    if not names: raise Reject()
    B = w.dim('B')
    th, other = w.tensor('th', (B, len(ds))), w.tensor('other', (B, len(ds)))

    def model():
        c = rb.build_chain(w, root)
        return w.fn('chain', 'SerialChain')(c, leaf.name) if serial else c
    c = model()
    ops = model_calls(w, serial, th, other, names, leaf.name)
    keys = sorted(ops)
    seq = [w.choose('call %d' % i, keys) for i in range(2 if w.symbolic else w.rng.choice([2, 3, 6]))]
    got = []
    for k in seq:
        r = ops[k](c)
        got.append((k, r, [copies(w, x) if hasattr(x, 'shape') else None for x in r]))
    first = seq[0]
    again = ops[first](c)
    fresh = ops[first](model())
    for x, y, z in zip(again, got[0][1], fresh):
        compare(w, first + ': the same result again', x, y)
        compare(w, first + ': the same result on a new model', x, z)
    for k, r, watch in got:
        for x in watch:
            if x is not None: x(k + ': an earlier result is unchanged')
    w.unchanged('joint values', th, 'th')
    w.unchanged('joint values', other, 'other')
    if w.concrete:
        # the result is that of the values an argument has at the time of the call, not of what it held before
        for x in (th, other): x.mul_(-0.5).add_(0.3)
        for x, y in zip(ops[first](c), ops[first](model())): compare(w, first + ': after the arguments were changed', x, y)


TRANSFORM_CALLS = {
    'compose': lambda w, a, b, p: [a.compose(b).get_matrix()], 'compose several': lambda w, a, b, p: [a.compose(b, a, b).get_matrix()],
    'inverse': lambda w, a, b, p: [a.inverse().get_matrix()], 'inverse composed': lambda w, a, b, p: [a.compose(b).inverse(invert_composed=True).get_matrix()],
    'points': lambda w, a, b, p: [a.transform_points(p)], 'normals': lambda w, a, b, p: [b.transform_normals(p)], 'matrix': lambda w, a, b, p: [a.get_matrix()],
    'clone': lambda w, a, b, p: [a.clone().get_matrix()], 'stack': lambda w, a, b, p: [a.stack(b).get_matrix()], 'index': lambda w, a, b, p: [a[0].get_matrix()],
    'translate': lambda w, a, b, p: [a.translate(1.0, 2.0, 3.0).get_matrix()], 'rotate': lambda w, a, b, p: [a.rotate(b.get_matrix()[:, :3, :3]).get_matrix()],
    'scale': lambda w, a, b, p: [a.scale(2.0).get_matrix()], 'rotate axis angle': lambda w, a, b, p: [a.rotate_axis_angle(90.0, 'Y').get_matrix()],
    'to': lambda w, a, b, p: [a.to('cpu', dtype=w.torch.float32).get_matrix()], 'to copy': lambda w, a, b, p: [a.to('cpu', copy=True).get_matrix()],
    'length': lambda w, a, b, p: [len(a) if w.concrete else a.get_matrix().shape[0]], 'shape operator': lambda w, a, b, p: [b.transform_shape_operator(p)],
}


@contract(('C21', 'C12'), samples=150, budget=150, weight=3, functions=('transforms.transform3d:Transform3d',))
def transform_sequences(w):
    """operations on transforms change neither operand nor the arrays these were built from, and give the same result again"""
    B = w.dim('B')
    T3 = w.fn('transforms.transform3d', 'Transform3d')
    R, p = w.rotation('R', (B,)), w.tensor('p', (B, 3))
    R2, p2 = w.rotation('R2', (B,)), w.tensor('p2', (B, 3))
    pts = w.tensor('pts', (B, 3, 3))
    a = T3(rot=R, pos=p, dtype=R.dtype)
    if w.choose('chained', [False, True]): a = a.translate(p2) if w.choose('how', [0, 1]) else a.rotate(R2)
    b = T3(rot=R2, pos=p2, dtype=R.dtype)
    ro = [copies(w, R), copies(w, R2)]
    m = [(x, w.snapshot(x.get_matrix())) for x in (a, b)]
    keys = sorted(TRANSFORM_CALLS)
    seq = [w.choose('call %d' % i, keys) for i in range(1 if w.symbolic else 4)]
    got = []
    for k in seq:
        r = TRANSFORM_CALLS[k](w, a, b, pts)
        got.append((k, r, [copies(w, x) if hasattr(x, 'shape') else None for x in r]))
    again = TRANSFORM_CALLS[seq[0]](w, a, b, pts)
    for x, y in zip(again, got[0][1]): compare(w, seq[0] + ': the same result again', x, y)
    for k, r, watch in got:
        for x in watch:
            if x is not None: x(k + ': an earlier result is unchanged')
    for x, s in m: keep(w, 'operand unchanged', x.get_matrix(), s)
    for x, nm in ((R, 'R'), (p, 'p'), (R2, 'R2'), (p2, 'p2'), (pts, 'pts')):
        if nm in ('R', 'R2'): continue
        w.unchanged('array unchanged', x, nm)
    for k in ro: k('array unchanged')
    w.true('operand precision', a.dtype == R.dtype and b.dtype == R.dtype)
