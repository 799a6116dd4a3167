"""C11: rotation interpolation and distance.  C22: sampled perturbations and random rotations."""
from ptv.runner import contract
from ptv import spec as S
from ptv.world import *
from contracts.rotations import batch, vec, mat, eqmat, eqvec, is_rotation, RC, MA


def cauchy(w, n, a, b):
    """lemma: |a.b| <= 1 for unit 4-vectors, row by row (1 -+ a.b = |a -+ b|^2 / 2)"""
    for sg in (1, -1):
        w.nonneg('|a.b| <= 1', (n,), lambda i: 1 - sg * S.dot(vec(w, a, (i,), 4), vec(w, b, (i,), 4)),
                 lambda i: [(0.5, w.at(a, i, k) - sg * w.at(b, i, k)) for k in range(4)])


def _t(w, name, B):
    """an interpolation parameter: one number for all rows, or one per row"""
    kind = w.choose(name + 'kind', ['number', 'tensor0', 'rows'])
    if kind == 'number':
        t = w.real(name, lo=0, hi=1, special=(0.0, 1.0, 0.5))
        return t, lambda b: t
    if kind == 'tensor0':
        t = w.tensor(name, (), lo=0, hi=1)
        return t, lambda b: w.at(t)
    t = w.tensor(name, (B,), lo=0, hi=1, special=(0.0, 1.0))
    return t, lambda b: w.at(t, b)


def _pair(w, B):
    """two unit quaternions per row; concretely with coinciding, opposite and nearly equal pairs mixed in"""
    p = w.unit('p', (B,), 4)
    q = w.unit('q', (B,), 4)
    if w.concrete:
        for i in range(B):
            k = w.rng.randrange(6)
            if k == 0: q[i] = p[i]
            elif k == 1: q[i] = -p[i]
            elif k == 2:
                v = p[i] + w.rng.choice([1e-2, 1e-3, 1e-5]) * w.torch.randn(4, dtype=p.dtype)
                q[i] = v / v.norm() * w.rng.choice([1, -1])
        w.originals['q'] = q.clone()
        w.chosen['q'] = q.tolist()
    return p, q


@contract(('C11', 'C03'), budget=100, weight=3)
def quaternion_slerp(w):
    """r(t) = (sin((1-t)h) p + sin(t h) s q) / sin h  with  cos h = s p.q = |p.q|;  exactly: r is in the plane of p and q with
    r.p = cos(t h) and r.(s q) = cos((1-t) h), so |r| = 1 and the angle travelled is t h, along the shorter arc"""
    B = w.dim('B')
    p, q = _pair(w, B)
    t, tv = _t(w, 't', B)
    p0, q0 = w.snapshot(p), w.snapshot(q)
    cauchy(w, B, p, q)
    r = w.fn(MA, 'quaternion_slerp')(p, q, t)
    w.shape('shape', r, (B, 4))
    for b, in w.idx((B,)):
        P, Q, x = [p0(b, k) for k in range(4)], [q0(b, k) for k in range(4)], tv(b)
        c = S.dot(P, Q)
        s = ite(c < 0, -1, 1)
        C = c * s
        R = vec(w, r, (b,), 4)
        if w.symbolic:
            far = (C <= 1 - 1e-6)
            if bool(far):
                h = acos(C)
                for k in range(4): w.same('r[%d]' % k, R[k] * sin(h), sin((1 - x) * h) * P[k] + sin(x * h) * s * Q[k])
            else:
                for k in range(4): w.same('close r[%d]' % k, R[k], (1 - x) * P[k] + x * s * Q[k])
        else:
            h = acos(min(C, 1.0))
            w.near('unit', S.dot(R, R), 1, 2e-6)
            w.near('rate from start', S.dot(R, P), cos(x * h), 2e-6)
            w.near('rate to end', S.dot(R, Q) * s, cos((1 - x) * h), 2e-6)
            for k in range(4):
                if x == 0: w.near('start[%d]' % k, R[k], P[k], 1e-6)
                if x == 1: w.near('end[%d]' % k, R[k], s * Q[k], 1e-6)


@contract('C11', budget=100)
def slerp_properties(w):
    """lemma over the contract of quaternion_slerp: the vector (sin((1-t)h) p + sin(t h) s q)/sin h with cos h = s p.q is a unit
    vector, its inner product with the same at t' is cos((t-t')h), and it is p at 0 and s q at 1"""
    B = w.dim('B')
    p, q = w.unit('p', (B,), 4), w.unit('q', (B,), 4)
    t, t2 = w.real('t', lo=0, hi=1), w.real('t2', lo=0, hi=1)
    for b, in w.idx((B,)):
        P, Q = vec(w, p, (b,), 4), vec(w, q, (b,), 4)
        C = S.dot(P, Q)
        h = w.real('h') if w.symbolic else acos(max(-1, min(1, C)))
        if w.concrete: w.assume(abs(sin(h)) > 1e-3)
        if w.symbolic:
            w.assume(feq(cos(h), C))
            w.assume(lnot(feq(sin(h), 0)))

        def r(x): return [(sin((1 - x) * h) * a + sin(x * h) * c) / sin(h) for a, c in zip(P, Q)]
        w.same('constant rate', S.dot(r(t), r(t2)), cos((t - t2) * h))
        w.same('unit', S.dot(r(t), r(t)), 1)
        for k in range(4):
            w.same('start[%d]' % k, r(0)[k], P[k])
            w.same('end[%d]' % k, r(1)[k], Q[k])


@contract(('C11', 'C03'), budget=60)
def quaternion_angular_distance(w):
    """the angle of the relative rotation, 2 acos|p.q| (zero for pairs within the closeness threshold 1 - (p.q)^2 < 1e-4)"""
    b = batch(w)
    p, q = w.unit('p', b, 4), w.unit('q', b, 4)
    if w.concrete and len(b) == 1:
        for i in range(b[0]):
            k = w.rng.randrange(4)
            if k == 0: q[i] = p[i] * w.rng.choice([1, -1])
            if k == 1:
                v = p[i] + w.rng.choice([2e-2, 1e-2, 1e-3]) * w.torch.randn(4, dtype=p.dtype)
                q[i] = v / v.norm() * w.rng.choice([1, -1])
        w.chosen['q'] = q.tolist()
    for sg in (1, -1):
        w.nonneg('|p.q| <= 1', b, lambda *i: 1 - sg * S.dot(vec(w, p, i, 4), vec(w, q, i, 4)),
                 lambda *i: [(0.5, w.at(p, *i, k) - sg * w.at(q, *i, k)) for k in range(4)])
    d = w.fn(MA, 'quaternion_angular_distance')(p, q)
    w.shape('shape', d, b)
    for ix in w.idx(b):
        c = S.dot(vec(w, p, ix, 4), vec(w, q, ix, 4))
        got = w.at(d, *ix)
        if w.symbolic:
            near = 1 - c * c < 1e-4
            if bool(near): w.same('close pairs', got, 0)
            else:
                w.same('cos', cos(got / 2), absv(c))
                w.same('sin', sin(got / 2) * sin(got / 2), 1 - c * c)
                w.check('range', land(got >= 0, got <= pi()))
        else:
            a = 2 * atan2(sqrt(max(0.0, 1 - min(1.0, c * c))), absv(c))
            if 1 - c * c < 0.99e-4: w.same('close pairs', got, 0)
            elif 1 - c * c > 1.01e-4: w.near('angle', got, a, 1e-7)


@contract(('C08', 'C03'), budget=60)
def acos_linear_extrapolation(w):
    """acos between the bounds, its tangent line beyond them"""
    b = batch(w)
    kind = w.choose('bound', ['default', 'float', 'pair'])
    x = w.tensor('x', b, lo=-10, hi=10, special=(1.0, -1.0, 0.0, 0.9999, -0.9999))
    lo, hi = {'default': (-(1.0 - 1e-4), 1.0 - 1e-4), 'float': (-0.8, 0.8), 'pair': (-0.6, 0.8)}[kind]
    f = w.fn(MA, 'acos_linear_extrapolation')
    r = f(x) if kind == 'default' else f(x, 0.8) if kind == 'float' else f(x, (-0.6, 0.8))
    w.shape('shape', r, b)
    for ix in w.idx(b):
        v, got = w.at(x, *ix), w.at(r, *ix)
        import math
        inside = land(v > lo, v < hi)
        if bool(inside): w.same('inside', got, acos(v))
        else:
            x0 = hi if bool(v >= hi) else lo
            if w.symbolic:
                x0 = w.const(repr(x0))
                w.near('outside', got, acos(x0) - (v - x0) / sqrt(1 - x0 * x0), 1e-6)
            else: w.near('outside', got, math.acos(x0) - (v - x0) / math.sqrt(1 - x0 * x0), 1e-6 * (1 + abs(got)))


@contract('C08')
def acos_linear_extrapolation_rejects(w):
    x = w.tensor('x', (2,))
    f = w.fn(MA, 'acos_linear_extrapolation')
    for bd in ((0.5, -0.5), (-1.0, 0.5), (-0.5, 1.0)): w.raises('bounds %s' % (bd,), lambda: f(x, bd), ValueError)


# ------------------------------------------------------------------ C22
@contract(('C22', 'C14'), budget=60)
def random_quaternions(w):
    """unit with non-negative real part for every outcome of the generator"""
    n = w.dim('n')
    gen = []
    w.hooks['random'] = lambda name, kind, size: _nonzero(w, name, size, gen)
    dt = w.choose('dtype', [w.torch.float64, w.torch.float32])
    q = w.fn(RC, 'random_quaternions')(n, dtype=dt)
    w.shape('shape', q, (n, 4))
    w.true('precision', q.dtype == dt)
    if w.concrete and dt == w.torch.float32: q = q.double(); q = q / q.norm(dim=1, keepdim=True) if (q.norm(dim=1) - 1).abs().max() < 1e-5 else q
    for b, in w.idx((n,)):
        v = vec(w, q, (b,), 4)
        w.same('unit', S.dot(v, v), 1)
        w.check('real part', v[0] >= 0)


def _nonzero(w, name, size, gen):
    """assumption on the generator: no sampled direction is the zero vector (probability zero)"""
    gen.append(name)
    if len(size) >= 2:
        k = size[-1]
        w.assume(w.all(tuple(size[:-1]), lambda *i: S.dot([tm_app(name, i + (j,)) for j in range(k)], [tm_app(name, i + (j,)) for j in range(k)]) > w.const(DEGENERATE)))


def tm_app(name, i):
    from ptv import terms as tm
    return tm.app(name, tuple(i))


@contract(('C22', 'C14'), budget=60)
def random_rotations(w):
    n = w.dim('n')
    gen = []
    w.hooks['random'] = lambda name, kind, size: _nonzero(w, name, size, gen)
    single = w.choose('single', [False, True])
    dt = w.choose('dtype', [w.torch.float64, w.torch.float32])
    if single: M = w.fn(RC, 'random_rotation')(dtype=dt)
    else: M = w.fn(RC, 'random_rotations')(n, dtype=dt)
    bt = () if single else (n,)
    w.true('precision', M.dtype == dt)
    if w.concrete and dt == w.torch.float32: return
    w.shape('shape', M, bt + (3, 3))
    for b in w.idx(bt): is_rotation(w, 'proper', mat(w, M, b))


ONE = (1,)


@contract(('C22', 'C14', 'C21'), budget=100, weight=3)
def sample_perturbations(w):
    n = w.dim('n')
    gen = []
    w.hooks['random'] = lambda name, kind, size: _nonzero(w, name, size, gen)
    tb = w.choose('tbatch', [(), (1,), (n,)])      # one pose, or one for each perturbation
    from contracts.rotations import pose
    dt = w.choose('dtype', [w.torch.float64, w.torch.float32])
    Rm, _, T = pose(w, tb)
    if dt != T.dtype: T = T.to(dt)
    rs = w.choose('rsig', ['zero', 'any'])
    ts = w.choose('tsig', ['zero', 'any'])
    rsig = 0.0 if rs == 'zero' else w.real('rs', lo=0)
    tsig = 0.0 if ts == 'zero' else w.real('ts', lo=0)
    ax = w.choose('axis', ['none', 'perp', 'free'])
    ab = ()        # one axis for all, as documented
    a = w.unit('a', ab, 3, dtype=dt) if ax != 'none' else None
    kw = {} if ax == 'none' else dict(axis_of_rotation=a)
    if ax == 'free': kw['translation_perpendicular_to_axis_of_rotation'] = False
    f = w.fn('transforms.perturbation', 'sample_perturbations')
    P = f(T, n, rsig, tsig, **kw)
    w.shape('shape', P, (n, 4, 4))
    w.true('precision', P.dtype == dt)
    if a is not None: w.unchanged('axis unchanged', a, 'a')
    if w.concrete and dt == w.torch.float32: return
    own = len(tb) and tb[0] is n
    if w.concrete: own = len(tb) and tb[0] > 1
    base = lambda b: ((b if own else 0),) * len(tb)
    if w.concrete:
        # the perturbations are drawn independently: with probability one no two of them agree
        rows = []
        for b in range(n):
            R0, t0 = mat(w, T, base(b)), [w.at(T, *base(b), i, 3) for i in range(3)]
            rows.append((S.matmul(mat(w, P, (b,)), S.transpose(R0)), [w.at(P, b, i, 3) - t0[i] for i in range(3)]))
        for b in range(n):
            for c in range(b):
                if ts == 'any' and tsig > 1e-3: w.check('displacements are drawn independently', max(abs(x - y) for x, y in zip(rows[b][1], rows[c][1])) > 0)
                if rs == 'any' and rsig > 1e-3: w.check('rotations are drawn independently', max(abs(x - y) for x, y in zip(sum(rows[b][0], []), sum(rows[c][0], []))) > 0)
    for b, in w.idx((n,)):
        tix = base(b)
        R0, t0 = mat(w, T, tix), [w.at(T, *tix, i, 3) for i in range(3)]
        M = mat(w, P, (b,))
        is_rotation(w, 'rotation', M)
        for j in range(4): w.same('bottom row', w.at(P, b, 3, j), 1 if j == 3 else 0)
        if rs == 'zero':
            for i in range(3):
                for j in range(3): w.same('no rotation[%d,%d]' % (i, j), M[i][j], R0[i][j])
        d = [w.at(P, b, i, 3) - t0[i] for i in range(3)]
        if ts == 'zero':
            for i in range(3): w.same('no displacement[%d]' % i, d[i], 0)
        if ax != 'none':
            A = vec(w, a, (b if len(ab) and ab is not ONE else 0,)[:len(ab)], 3)
            rel = S.matmul(M, S.transpose(R0))
            ra = S.matvec(rel, A)
            for i in range(3): w.same('axis fixed[%d]' % i, ra[i], A[i])
            if ax == 'perp': w.same('displacement perpendicular', S.dot(d, A), 0)
