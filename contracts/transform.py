"""C12: transform objects.  C13: points, normals, shape operators.  C14 (transforms): precision and device."""
from ptv.runner import contract
from ptv import spec as S
from ptv.world import *
from contracts.rotations import batch, vec, mat, eqmat, is_rotation, pose, euler_spec

T3 = 'transforms.transform3d'


def affine(w, name, b):
    """an arbitrary affine 4x4 with an invertible linear part"""
    n = len(b)
    A = w.tensor(name, b + (3, 4))
    w.assume(w.all(b, lambda *i: lnot(feq(S.det3(mat(w, A, i)), 0))))
    if w.concrete:
        for i in w.idx(b): w.assume(abs(S.det3(mat(w, A, i))) > 1e-2 * (1 + max(abs(w.at(A, *i, r, c)) for r in range(3) for c in range(3))) ** 3)
    return w.make(b + (4, 4), lambda *i: w.at(A, *i[:n], i[n], i[n + 1]) if i[n] < 3 else (1 if i[n + 1] == 3 else 0))


def m4(w, t, b): return mat(w, t, b, 4, 4)


def given(w, what, b, dt=None):
    """rotation arguments in every accepted form: (argument, row -> 3x3 spec)"""
    if what == 'matrix':
        R = w.rotation('R', b, dtype=dt)
        return R, lambda i: mat(w, R, i)
    if what == 'quaternion':
        q = w.unit('R', b, 4, dtype=dt)
        return q, lambda i: S.quat_matrix(vec(w, q, i, 4))
    e = w.tensor('R', b + (3,), dtype=dt)
    return e, lambda i: euler_spec('XYZ', vec(w, e, i, 3))


@contract(('C12', 'C03'), budget=80)
def transform_construct(w):
    """Transform3d(rot=..., pos=...) holds [R t; 0 1], every accepted form and batch combination"""
    form = w.choose('form', ['matrix', 'quaternion', 'euler', 'none'])
    rb = w.choose('rbatch', [0, 1])
    pb = w.choose('pbatch', ['none', 0, 1])
    if form == 'none' and pb == 'none':
        n = w.choose('default', [1, 3])
        T = w.fn(T3, 'Transform3d')(default_batch_size=n, dtype=w.torch.float64)
        eqmat(w, 'identity', T.get_matrix(), (n,), lambda i: S.eye(4), 4, 4)
        return
    B = w.dim('B', lo=4 if form == 'euler' else 1)        # a 3x3 "batch of Euler angles" is documented to be a matrix
    b_r = (B,) if rb else ()
    if not rb and pb == 1 and form != 'none': b_r = None      # one rotation with many positions: not an accepted combination
    if b_r is None: return
    kw = {}
    spec_r = lambda i: S.eye(3)
    if form != 'none':
        arg, f = given(w, form, b_r)
        spec_r = lambda i: f(i if rb else ())
        kw['rot'] = arg
    spec_t = lambda i: [0, 0, 0]
    if pb != 'none':
        x = w.tensor('x', ((B,) if pb else ()) + (3,))
        spec_t = lambda i: vec(w, x, i if pb else (), 3)
        kw['pos'] = x
    T = w.fn(T3, 'Transform3d')(dtype=w.torch.float64, **kw)
    big = (rb and form != 'none') or pb == 1
    n = (B,) if big else (1,)
    eqmat(w, 'matrix', T.get_matrix(), n, lambda i: S.homog(spec_r(i), spec_t(i)), 4, 4)
    w.true('dtype', T.dtype == w.torch.float64 and T.get_matrix().dtype == w.torch.float64)
    w.precise('construction')


@contract(('C12', 'C03'))
def transform_override(w):
    """rot and pos override those of a given matrix; a plain matrix is kept; a single matrix serves all of a batch of rot and pos"""
    k = w.choose('given', ['matrix', 'pos', 'rot', 'both'])
    b = w.choose('unbatched', [False, True])
    single = not b and k != 'matrix' and w.choose('matrix', ['batch', 'single', 'flat'])
    B = w.dim('B', lo=2) if single in ('single', 'flat') else w.dim('B')
    bt = () if b else (B,)
    A = affine(w, 'A', {'single': (1,), 'flat': ()}.get(single, bt))
    kw = {}
    ob = (1,) if b else (B,)
    at = lambda i: () if b or single == 'flat' else (0,) if single == 'single' else i
    rt = lambda i: () if b else i
    if k in ('pos', 'both'): kw['pos'] = w.tensor('x', bt + (3,))
    if k in ('rot', 'both'): kw['rot'] = w.rotation('R', bt)
    T = w.fn(T3, 'Transform3d')(matrix=A, dtype=w.torch.float64, **kw)

    def spec(i):
        M = m4(w, A, at(i))
        R = mat(w, kw['rot'], rt(i)) if 'rot' in kw else [r[:3] for r in M[:3]]
        t = vec(w, kw['pos'], rt(i), 3) if 'pos' in kw else [r[3] for r in M[:3]]
        return S.homog(R, t)
    eqmat(w, 'matrix', T.get_matrix(), ob, spec, 4, 4)


@contract('C12')
def transform_from_lists(w):
    """lists of numbers are accepted for rot and pos"""
    x = [w.real('x%d' % i) for i in range(3)]
    form = w.choose('form', ['quaternion', 'euler'])
    if form == 'quaternion':
        q = w.unit('q', (), 4)
        r = [w.at(q, i) for i in range(4)]
        R = S.quat_matrix(r)
    else:
        r = [w.real('e%d' % i) for i in range(3)]
        R = euler_spec('XYZ', r)
    T = w.fn(T3, 'Transform3d')(rot=r, pos=x, dtype=w.torch.float64)
    eqmat(w, 'matrix', T.get_matrix(), (1,), lambda i: S.homog(R, x), 4, 4)


@contract('C12')
def transform_rejects(w):
    f = w.fn(T3, 'Transform3d')
    for k, shape in enumerate([(3, 3), (3, 4), (4, 3), (4, 5), (5, 4), (2, 4, 3), (2, 3, 4), (2, 5, 4), (2, 4, 5), (4,)]):
        bad = w.tensor('m%d' % k, shape)
        w.raises('%s' % (shape,), lambda: f(matrix=bad), ValueError)
    bad4 = w.tensor('n', (2, 2, 4, 4))
    w.raises('4 dims', lambda: f(matrix=bad4), ValueError)
    R = w.fn(T3, 'RotateAxisAngle')
    w.raises('axis', lambda: R(1.0, 'Q'), ValueError)


def two(w):
    """two transforms of batch sizes (N, N), (1, N), (N, 1)"""
    k = w.choose('sizes', ['NN', '1N', 'N1'])
    N = w.dim('N')
    a, b = (1 if k == '1N' else N), (1 if k == 'N1' else N)
    A, C = affine(w, 'A', (a,)), affine(w, 'C', (b,))
    f = w.fn(T3, 'Transform3d')
    ia = (lambda i: (0,)) if k == '1N' else (lambda i: i)
    ib = (lambda i: (0,)) if k == 'N1' else (lambda i: i)
    return N, A, C, f(matrix=A), f(matrix=C), ia, ib


@contract(('C12', 'C03'))
def transform_compose(w):
    N, A, C, T, U, ia, ib = two(w)
    V = T.compose(U)
    eqmat(w, 'product', V.get_matrix(), (N,), lambda i: S.matmul(m4(w, A, ia(i)), m4(w, C, ib(i))), 4, 4)
    V3 = T.compose(U, U)
    eqmat(w, 'triple product', V3.get_matrix(), (N,), lambda i: S.matmul(S.matmul(m4(w, A, ia(i)), m4(w, C, ib(i))), m4(w, C, ib(i))), 4, 4)
    k = w.choose('operands', [0, 1, 3, 4, 5])
    V = T.compose(*[T, U][:k], *[U] * (k - 2))
    def chain(i):
        P = m4(w, A, ia(i))
        for Q in ([m4(w, A, ia(i)), m4(w, C, ib(i))][:k] + [m4(w, C, ib(i))] * (k - 2)): P = S.matmul(P, Q)
        return P
    eqmat(w, 'product of %d' % k, V.get_matrix(), (N,) if k > 1 else A.shape[:1], chain, 4, 4)
    eqmat(w, 'first operand', T.get_matrix(), A.shape[:1], lambda i: m4(w, A, i), 4, 4)
    eqmat(w, 'second operand', U.get_matrix(), C.shape[:1], lambda i: m4(w, C, i), 4, 4)


@contract('C12')
def transform_compose_rejects(w):
    k, l = w.choose('sizes', [(2, 3), (3, 2), (4, 2), (2, 4)])
    A, C = affine(w, 'A', (k,)), affine(w, 'C', (l,))
    f = w.fn(T3, 'Transform3d')
    w.raises('sizes', lambda: f(matrix=A).compose(f(matrix=C)), ValueError)
    w.raises('sizes of a later operand', lambda: f(matrix=A).compose(f(matrix=A), f(matrix=C)), ValueError)


@contract(('C12', 'C03'), budget=80)
def transform_inverse(w):
    """inverse().compose(T) and T.compose(inverse()) are the identity for every affine transform with invertible linear part"""
    N = w.dim('N')
    A = affine(w, 'A', (N,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    V = T.inverse()
    w.shape('shape', V.get_matrix(), (N, 4, 4))
    for i in w.idx((N,)):
        I, M = m4(w, V.get_matrix(), i), m4(w, A, i)
        for lab, P in (('left', S.matmul(I, M)), ('right', S.matmul(M, I))):
            for r in range(4):
                for c in range(4): w.same('%s inverse[%d,%d]' % (lab, r, c), P[r][c], 1 if r == c else 0, tol=1e-4)
    eqmat(w, 'unchanged', T.get_matrix(), (N,), lambda i: m4(w, A, i), 4, 4)


def factory(w, what, N):
    """the special transforms: (object, row -> 4x4)"""
    if what == 'translate':
        x = w.tensor('v', (N, 3))
        return w.fn(T3, 'Translate')(x, dtype=w.torch.float64), lambda i: S.homog(S.eye(3), vec(w, x, i, 3))
    if what == 'translate xyz':
        xs = [w.tensor('v%d' % k, (N,)) for k in range(3)]
        return w.fn(T3, 'Translate')(*xs, dtype=w.torch.float64), lambda i: S.homog(S.eye(3), [w.at(x, *i) for x in xs])
    if what == 'translate mixed':
        x, y, z = w.real('v0'), w.tensor('v1', (N,)), w.tensor('v2', ())
        return w.fn(T3, 'Translate')(x, y, z, dtype=w.torch.float64), lambda i: S.homog(S.eye(3), [x, w.at(y, *i), w.at(z)])
    if what == 'scale':
        x = w.tensor('v', (N, 3), nonzero=True)
        nz(w, x, (N, 3))
        return w.fn(T3, 'Scale')(x, dtype=w.torch.float64), lambda i: diag(vec(w, x, i, 3))
    if what == 'scale uniform':
        x = w.tensor('v', (N,), nonzero=True)
        nz(w, x, (N,))
        return w.fn(T3, 'Scale')(x, dtype=w.torch.float64), lambda i: diag([w.at(x, *i)] * 3)
    if what == 'rotate':
        R = w.rotation('v', (N,))
        return w.fn(T3, 'Rotate')(R, dtype=w.torch.float64), lambda i: S.homog(mat(w, R, i), [0, 0, 0])
    if what == 'rotate quaternion':
        q = w.unit('v', (N,), 4)
        return w.fn(T3, 'Rotate')(q, dtype=w.torch.float64), lambda i: S.homog(S.quat_matrix(vec(w, q, i, 4)), [0, 0, 0])
    ax = w.choose('axis', ['X', 'y', 'Z'])
    deg = w.choose('degrees', [True, False])
    a = w.tensor('v', (N,))
    k = 'XYZ'.index(ax.upper())
    return (w.fn(T3, 'RotateAxisAngle')(a, ax, degrees=deg), lambda i: S.homog(S.rot_axis(k, w.at(a, *i) * pi() / 180 if deg else w.at(a, *i)), [0, 0, 0]))


def nz(w, x, shape): w.assume(w.all(shape, lambda *i: lnot(feq(w.at(x, *i), 0))))
def diag(v): return [[v[0], 0, 0, 0], [0, v[1], 0, 0], [0, 0, v[2], 0], [0, 0, 0, 1]]


FACTORIES = ['translate', 'translate xyz', 'translate mixed', 'scale', 'scale uniform', 'rotate', 'rotate quaternion', 'rotate axis angle']


@contract(('C12', 'C03', 'C14'), budget=100)
def transform_factories(w):
    """Translate, Scale, Rotate, RotateAxisAngle hold their matrix, in the requested precision; inverse, clone and indexing agree"""
    what = w.choose('what', FACTORIES)
    N = w.dim('N')
    T, spec = factory(w, what, N)
    M = T.get_matrix()
    eqmat(w, 'matrix', M, (N,), spec, 4, 4)
    w.true('dtype', M.dtype == w.torch.float64)
    V = T.inverse().get_matrix()
    w.shape('inverse.shape', V, (N, 4, 4))
    for i in w.idx((N,)):
        P = S.matmul(m4(w, V, i), spec(i))
        for r in range(4):
            for c in range(4): w.same('inverse[%d,%d]' % (r, c), P[r][c], 1 if r == c else 0)
    C = T.clone()
    eqmat(w, 'clone', C.get_matrix(), (N,), spec, 4, 4)
    w.true('clone dtype', C.get_matrix().dtype == M.dtype and C.dtype == M.dtype)
    X = T[N - 1]
    eqmat(w, 'item', X.get_matrix(), (1,), lambda i: spec((N - 1,)), 4, 4)
    if w.concrete: w.true('length', len(T) == N)
    w.precise(what)


@contract(('C12', 'C14'), budget=120, weight=2)
def transform_chained(w):
    """t.translate(..).scale(..).rotate(..).rotate_axis_angle(..) multiply on the right, in the precision of t"""
    B = w.dim('N')
    A = affine(w, 'A', (B,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    op = w.choose('op', ['translate', 'translate numbers', 'scale', 'scale number', 'rotate', 'rotate quaternion', 'rotate euler', 'axis angle', 'axis angle number'])
    torch = w.torch
    if op == 'translate':
        x = w.tensor('v', (B, 3)); U = T.translate(x); f = lambda i: S.homog(S.eye(3), vec(w, x, i, 3))
    elif op == 'translate numbers':
        v = [w.real('v%d' % k) for k in range(3)]; U = T.translate(*v); f = lambda i: S.homog(S.eye(3), v)
    elif op == 'scale':
        x = w.tensor('v', (B, 3)); U = T.scale(x); f = lambda i: diag(vec(w, x, i, 3))
    elif op == 'scale number':
        s = w.real('v'); U = T.scale(s); f = lambda i: diag([s, s, s])
    elif op == 'rotate':
        R = w.rotation('v', (B,)); U = T.rotate(R); f = lambda i: S.homog(mat(w, R, i), [0, 0, 0])
    elif op == 'rotate quaternion':
        q = w.unit('v', (B,), 4); U = T.rotate(q); f = lambda i: S.homog(S.quat_matrix(vec(w, q, i, 4)), [0, 0, 0])
    elif op == 'rotate euler':
        e = w.tensor('v', (3,)); U = T.rotate(e); f = lambda i: S.homog(euler_spec('XYZ', vec(w, e, (), 3)), [0, 0, 0])
    elif op == 'axis angle':
        a = w.tensor('v', (B,)); U = T.rotate_axis_angle(a, 'Y', degrees=False); f = lambda i: S.homog(S.rot_axis(1, w.at(a, *i)), [0, 0, 0])
    else:
        a = w.real('v'); U = T.rotate_axis_angle(a, axis='Z'); f = lambda i: S.homog(S.rot_axis(2, a * pi() / 180), [0, 0, 0])
    M = U.get_matrix()
    w.shape('shape', M, (B, 4, 4))
    for i in w.idx((B,)):
        E = S.matmul(m4(w, A, i), f(i))
        for r in range(4):
            for c in range(4): w.same('product[%d,%d]' % (r, c), w.at(M, *i, r, c), E[r][c], tol=1e-9)
    w.true('dtype', M.dtype == torch.float64)
    w.precise(op)
    eqmat(w, 'unchanged', T.get_matrix(), (B,), lambda i: m4(w, A, i), 4, 4)


@contract(('C12', 'C03'))
def transform_stack_index(w):
    """stack concatenates the batches; integer, negative, slice, list and mask indexing pick the rows"""
    N = w.dim('N', lo=3)
    A, C, D = affine(w, 'A', (N,)), affine(w, 'C', (2,)), affine(w, 'D', (1,))
    f = w.fn(T3, 'Transform3d')
    T = f(matrix=A).stack(f(matrix=C), f(matrix=D))
    M = T.get_matrix()
    w.shape('shape', M, (N + 3, 4, 4))
    for i, in w.idx((N,)):
        for r in range(4):
            for c in range(4): w.same('stack[0][%d,%d]' % (r, c), w.at(M, i, r, c), w.at(A, i, r, c))
    for k in range(2):
        for r in range(4):
            for c in range(4): w.same('stack[1][%d,%d]' % (r, c), w.at(M, N + k, r, c), w.at(C, k, r, c))
    for r in range(4):
        for c in range(4): w.same('stack[2][%d,%d]' % (r, c), w.at(M, N + 2, r, c), w.at(D, 0, r, c))
    X = T[1:3].get_matrix()
    eqmat(w, 'slice', X, (2,), lambda i: m4(w, A, (i[0] + 1,)), 4, 4)
    X = T[[2, 0]].get_matrix()
    eqmat(w, 'list', X, (2,), lambda i: m4(w, A, (2 - 2 * i[0],)), 4, 4)
    X = T[-1].get_matrix()
    eqmat(w, 'negative', X, (1,), lambda i: m4(w, D, (0,)), 4, 4)
    X = T[w.torch.tensor([1, 1])].get_matrix()
    eqmat(w, 'index tensor', X, (2,), lambda i: m4(w, A, (1,)), 4, 4)


@contract(('C12', 'C21'))
def transform_clone_independent(w):
    """a clone has the same matrix and its own memory"""
    N = w.dim('N')
    A = affine(w, 'A', (N,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    was = w.snapshot(A)
    U = T.clone()
    eqmat(w, 'clone', U.get_matrix(), (N,), lambda i: m4(w, A, i), 4, 4)
    U.get_matrix()[:, 0, 3] = 7.0
    eqmat(w, 'original', T.get_matrix(), (N,), lambda i: [[was(*i, r, c) for c in range(4)] for r in range(4)], 4, 4)


@contract(('C14', 'C12'))
def transform_to(w):
    """to(device, dtype) moves the matrix, keeps its values, leaves the original alone; every operation of the moved transform
    stays on that device and precision"""
    N = w.dim('N')
    A = affine(w, 'A', (N,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    dt = w.choose('dtype', [None, 'float64', 'float32'])
    dev = w.choose('device', ['cpu', 'cuda:0']) if w.symbolic else 'cpu'
    copy = w.choose('copy', [False, True])
    dtype = None if dt is None else getattr(w.torch, dt)
    U = T.to(w.torch.device(dev), copy=copy, dtype=dtype)
    want = dtype or w.torch.float64
    ok = lambda V: V.get_matrix().dtype == want and str(V.get_matrix().device) == dev
    w.true('moved', ok(U))
    w.true('attributes', U.dtype == want and str(w.torch.device(U.device)) == dev)
    eqmat_tol(w, 'values', U.get_matrix(), (N,), lambda i: m4(w, A, i), 1e-6)
    w.true('original', T.get_matrix().dtype == w.torch.float64 and str(T.get_matrix().device) == 'cpu')
    eqmat(w, 'original', T.get_matrix(), (N,), lambda i: m4(w, A, i), 4, 4)
    w.true('inverse', ok(U.inverse()))
    w.true('clone', ok(U.clone()))
    w.true('stack', ok(U.stack(U)))
    w.true('compose', ok(U.compose(U)))
    w.true('translate', ok(U.translate(1.5, 2.0, 0.1)))
    w.true('scale', ok(U.scale(2.0)))
    w.true('axis angle', ok(U.rotate_axis_angle(30.0, 'X')))
    w.true('item', ok(U[0]))
    p = w.tensor('p', (4, 3), dtype=want, device=dev)
    y = U.transform_points(p)
    w.true('points', y.dtype == want and str(y.device) == dev)
    y = U.transform_normals(p)
    w.true('normals', y.dtype == want and str(y.device) == dev)


def eqmat_tol(w, label, got, b, spec, tol):
    w.shape(label + '.shape', got, tuple(b) + (4, 4))
    for i in w.idx(b):
        E = spec(tuple(i))
        for r in range(4):
            for c in range(4): w.same('%s[%d,%d]' % (label, r, c), w.at(got, *i, r, c), E[r][c], tol=tol)


# ------------------------------------------------------------------ C13
def points_case(w):
    """transform batch, points batch: (N; P), (1; P), (N; N,P), (1; N,P), (N; 1,P), (1; 1,P)"""
    k = w.choose('case', ['N.P', '1.P', 'N.NP', '1.NP', 'N.1P', '1.1P'])
    N, P = w.dim('N'), w.dim('P')
    tb = 1 if k[0] == '1' else N
    ps = {'P': (P, 3), 'NP': (N, P, 3), '1P': (1, P, 3)}[k[2:]]
    ib = (lambda n: (0,)) if k[0] == '1' else (lambda n: (n,))
    pb = {'P': lambda n, p: (p,), 'NP': lambda n, p: (n, p), '1P': lambda n, p: (0, p)}[k[2:]]
    out = {'N.P': (N, P, 3), '1.P': (P, 3), 'N.NP': (N, P, 3), '1.NP': (N, P, 3), 'N.1P': (N, P, 3), '1.1P': (1, P, 3)}[k]
    return k, N, P, tb, ps, ib, pb, out


def check_points(w, got, k, N, P, out, spec):
    if k == 'N.P' and w.concrete and N == 1: out = out[1:]
    if k == 'N.P' and w.symbolic:
        # a batch of one transform drops the batch dimension for (P, 3) points: both cases
        if bool(feq(N, 1)):
            w.assume(feq(N, 1))
            out = out[1:]
    w.shape('shape', got, out)
    if len(out) == 2:
        for p, in w.idx((P,)):
            E = spec(0, p)
            for c in range(3): w.same('out[%d]' % c, w.at(got, p, c), E[c], tol=1e-4)
    else:
        for n, p in w.idx(out[:2]):
            E = spec(n, p)
            for c in range(3): w.same('out[%d]' % c, w.at(got, n, p, c), E[c], tol=1e-4)


@contract(('C13', 'C03', 'C21'), budget=80)
def transform_points(w):
    """out = A p + t for every batch combination, with and without eps"""
    k, N, P, tb, ps, ib, pb, out = points_case(w)
    A = affine(w, 'A', (tb,))
    x = w.tensor('x', ps)
    eps = w.choose('eps', [None, 0.5])
    T = w.fn(T3, 'Transform3d')(matrix=A)
    y = T.transform_points(x) if eps is None else T.transform_points(x, eps=eps)

    def spec(n, p):
        M = m4(w, A, ib(n))
        v = vec(w, x, pb(n, p), 3)
        return [S.dot(M[r][:3], v) + M[r][3] for r in range(3)]
    check_points(w, y, k, N, P, out, spec)
    w.unchanged('points', x, 'x')


@contract(('C13', 'C03', 'C21'), budget=100)
def transform_normals(w):
    """out = A^-T n:  A^T out = n, for every batch combination"""
    k, N, P, tb, ps, ib, pb, out = points_case(w)
    A = affine(w, 'A', (tb,))
    x = w.tensor('x', ps)
    T = w.fn(T3, 'Transform3d')(matrix=A)
    y = T.transform_normals(x)

    def spec(n, p):
        M = m4(w, A, ib(n))
        v = vec(w, x, pb(n, p), 3)
        d = S.det3(M)
        co = lambda r, c: M[(r + 1) % 3][(c + 1) % 3] * M[(r + 2) % 3][(c + 2) % 3] - M[(r + 1) % 3][(c + 2) % 3] * M[(r + 2) % 3][(c + 1) % 3]
        return [(co(r, 0) * v[0] + co(r, 1) * v[1] + co(r, 2) * v[2]) / d for r in range(3)]
    check_points(w, y, k, N, P, out, spec)
    w.unchanged('normals', x, 'x')


@contract(('C13', 'C03'), budget=60)
def transform_batch_to_batch(w):
    """batch_to_batch pairs transform n with point n"""
    N = w.dim('N')
    A = affine(w, 'A', (N,))
    x = w.tensor('x', (N, 3))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    y = T.transform_points(x, batch_to_batch=True)
    z = T.transform_normals(x, batch_to_batch=True)
    w.shape('points.shape', y, (N, 3))
    w.shape('normals.shape', z, (N, 3))
    for i in w.idx((N,)):
        M, v = m4(w, A, i), vec(w, x, i, 3)
        zs = vec(w, z, i, 3)
        for r in range(3):
            w.same('points[%d]' % r, w.at(y, *i, r), S.dot(M[r][:3], v) + M[r][3])
            w.same('normals[%d]' % r, sum(M[q][r] * zs[q] for q in range(3)), v[r], tol=1e-4)


@contract(('C13', 'C03'), budget=80)
def transform_shape_operator(w):
    """out = A^-T S A^-1, i.e. A^T out A = S"""
    k = w.choose('case', ['1.P', 'P.P', 'N.1', '1.NP', 'N.1P', 'N.NP'])
    if 'NP' in k or '1P' in k: return shape_operators_batched(w, *k.split('.'))
    P = w.dim('P')
    A = affine(w, 'A', (1 if k == '1.P' else P,))
    s = w.tensor('s', (1 if k == 'N.1' else P, 3, 3))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    y = T.transform_shape_operator(s)
    w.shape('shape', y, (P, 3, 3))
    for p, in w.idx((P,)):
        M = mat(w, A, (0,) if k == '1.P' else (p,))
        O = mat(w, y, (p,))
        E = S.matmul(S.transpose(M), S.matmul(O, M))
        for r in range(3):
            for c in range(3): w.same('S[%d,%d]' % (r, c), E[r][c], w.at(s, 0 if k == 'N.1' else p, r, c), tol=1e-3)


def shape_operators_batched(w, k, l):
    """P operators for each of N transforms"""
    N, P = w.dim('N'), w.dim('P')
    A = affine(w, 'A', (1 if k == '1' else N,))
    s = w.tensor('s', (N if l == 'NP' else 1, P, 3, 3))
    y = w.fn(T3, 'Transform3d')(matrix=A).transform_shape_operator(s)
    w.shape('shape', y, (N, P, 3, 3))
    for n, p in w.idx((N, P)):
        M = mat(w, A, (0,) if k == '1' else (n,))
        E = S.matmul(S.transpose(M), S.matmul(mat(w, y, (n, p)), M))
        for r in range(3):
            for c in range(3): w.same('S[%d,%d]' % (r, c), E[r][c], w.at(s, n if l == 'NP' else 0, p, r, c), tol=1e-3)


@contract('C13')
def transform_points_rejects(w):
    A = affine(w, 'A', (2,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    w.raises('points dim 1', lambda: T.transform_points(w.torch.zeros(3, dtype=w.torch.float64)), ValueError)
    w.raises('points dim 4', lambda: T.transform_points(w.torch.zeros(1, 1, 1, 3, dtype=w.torch.float64)), ValueError)
    w.raises('normals dim 1', lambda: T.transform_normals(w.torch.zeros(3, dtype=w.torch.float64)), ValueError)
    w.raises('batches', lambda: T.transform_points(w.torch.zeros(3, 5, 3, dtype=w.torch.float64)), ValueError)


@contract(('C12', 'C22'), budget=60)
def transform_sample_perturbations(w):
    """the method perturbs the held pose (or, of as many poses as perturbations asked for, each): zero spreads give it back"""
    n = w.dim('n')
    own = w.choose('poses', ['one', 'each']) == 'each'
    from contracts.interp import _nonzero
    gen = []
    w.hooks['random'] = lambda name, kind, size: _nonzero(w, name, size, gen)
    _, _, A = pose(w, (n,) if own else (1,))
    T = w.fn(T3, 'Transform3d')(matrix=A)
    U = T.sample_perturbations(n, 0.0, 0.0)
    eqmat(w, 'pose', U.get_matrix(), (n,), lambda i: m4(w, A, i if own else (0,)), 4, 4)
