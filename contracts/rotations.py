"""C07: quaternions and rotation matrices.  C08: axis-angle, exponential and logarithm maps.
C09: Euler angles.  C10: compact encodings."""
import itertools
from ptv.runner import contract
from ptv import spec as S
from ptv.world import *

RC = 'transforms.rotation_conversions'
SO = 'transforms.so3'
MA = 'transforms.math'


def batch(w):
    """a batch shape of rank 0, 1 or 2 with arbitrary sizes"""
    k = w.choose('rank', [0, 1, 2])
    return tuple(w.dim('B%d' % i) for i in range(k))


def vec(w, t, b, n): return [w.at(t, *b, k) for k in range(n)]
def mat(w, t, b, n=3, m=3): return [[w.at(t, *b, i, j) for j in range(m)] for i in range(n)]


def eqmat(w, label, got, batch, spec, n=3, m=3):
    """every matrix of the batch equals spec(b) (evaluated once per b)"""
    w.shape(label + '.shape', got, tuple(batch) + (n, m))
    for b in w.idx(batch):
        E = spec(tuple(b))
        for i in range(n):
            for j in range(m): w.same('%s[%d,%d]' % (label, i, j), w.at(got, *b, i, j), E[i][j])


def eqvec(w, label, got, batch, n, spec):
    w.shape(label + '.shape', got, tuple(batch) + (n,))
    for b in w.idx(batch):
        E = spec(tuple(b))
        for i in range(n): w.same('%s[%d]' % (label, i), w.at(got, *b, i), E[i])


def is_rotation(w, label, M):
    I = S.eye(3)
    P = S.matmul(M, S.transpose(M))
    for i in range(3):
        for j in range(i, 3): w.same('%s: orthonormal [%d,%d]' % (label, i, j), P[i][j], I[i][j])
    w.same(label + ': determinant', S.det3(M), 1)


# ------------------------------------------------------------------ C07
@contract(('C07', 'C03'))
def quaternion_to_matrix(w):
    """unit q -> R(q)"""
    b = batch(w)
    q = w.unit('q', b, 4)
    M = w.fn(RC, 'quaternion_to_matrix')(q)
    eqmat(w, 'M', M, b, lambda ix: S.quat_matrix(vec(w, q, ix, 4)))


@contract('C07')
def quaternion_to_matrix_any_norm(w):
    """any non-zero q -> the rotation of q/|q|"""
    B = w.dim('B')
    q = w.tensor('q', (B, 4))
    w.assume(w.all((B,), lambda b: S.dot(vec(w, q, (b,), 4), vec(w, q, (b,), 4)) > w.const(DEGENERATE)))
    M = w.fn(RC, 'quaternion_to_matrix')(q)
    for b, in w.idx((B,)):
        v = vec(w, q, (b,), 4)
        n2 = S.dot(v, v)
        if w.concrete: w.assume(n2 > 1e-6)
        r, x, y, z = v
        E = [[r * r + x * x - y * y - z * z, 2 * (x * y - r * z), 2 * (x * z + r * y)],
             [2 * (x * y + r * z), r * r - x * x + y * y - z * z, 2 * (y * z - r * x)],
             [2 * (x * z - r * y), 2 * (y * z + r * x), r * r - x * x - y * y + z * z]]
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), w.at(M, b, i, j) * n2, E[i][j])


@contract(('C07', 'C03'))
def matrix_to_quaternion(w):
    """R(p) -> q with R(q) = R(p), |q| = 1, in every region of the rotation group"""
    b = batch(w)
    Rm = w.rotation('p', b)
    q = w.fn(RC, 'matrix_to_quaternion')(Rm)
    w.shape('shape', q, b + (4,))
    for ix in w.idx(b):
        qs = vec(w, q, ix, 4)
        w.same('unit', S.dot(qs, qs), 1)
        M = S.quat_matrix(qs)
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), M[i][j], w.at(Rm, *ix, i, j))


@contract('C07')
def quaternion_round_trip(w):
    """matrix_to_quaternion(quaternion_to_matrix(q)) is q or -q"""
    B = w.dim('B')
    q = w.unit('q', (B,), 4)
    p = w.fn(RC, 'matrix_to_quaternion')(w.fn(RC, 'quaternion_to_matrix')(q))
    w.shape('shape', p, (B, 4))
    for b, in w.idx((B,)):
        a, c = vec(w, q, (b,), 4), vec(w, p, (b,), 4)
        d = S.dot(a, c)
        w.same('same up to sign', d * d, 1)


@contract(('C07', 'C03'))
def quaternion_raw_multiply(w):
    b = batch(w)
    p, q = w.tensor('p', b + (4,)), w.tensor('q', b + (4,))
    r = w.fn(RC, 'quaternion_raw_multiply')(p, q)
    eqvec(w, 'pq', r, b, 4, lambda ix: S.quat_mul(vec(w, p, ix, 4), vec(w, q, ix, 4)))


@contract('C07')
def quaternion_multiply_matrix(w):
    """R(pq) = R(p) R(q), result a unit quaternion with non-negative real part"""
    B = w.dim('B')
    p, q = w.unit('p', (B,), 4), w.unit('q', (B,), 4)
    r = w.fn(RC, 'quaternion_multiply')(p, q)
    w.shape('shape', r, (B, 4))
    for b, in w.idx((B,)):
        rs = vec(w, r, (b,), 4)
        w.same('unit', S.dot(rs, rs), 1)
        w.check('real part', rs[0] >= 0)
        E = S.matmul(S.quat_matrix(vec(w, p, (b,), 4)), S.quat_matrix(vec(w, q, (b,), 4)))
        M = S.quat_matrix(rs)
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), M[i][j], E[i][j])


@contract('C07')
def quaternion_multiply_broadcast(w):
    """usual broadcasting: (4,) with (B,4) and (B,1,4) with (C,4)"""
    B, C = w.dim('B'), w.dim('C')
    k = w.choose('case', [0, 1, 2])
    sp, sq = [((), (B,)), ((B,), ()), ((B, 1), (C,))][k]
    out = [(B,), (B,), (B, C)][k]
    p, q = w.tensor('p', sp + (4,)), w.tensor('q', sq + (4,))
    r = w.fn(RC, 'quaternion_raw_multiply')(p, q)
    pi_ = [lambda b: (), lambda b: b, lambda b: (b[0], 0)][k]
    qi_ = [lambda b: b, lambda b: (), lambda b: (b[1],)][k]
    eqvec(w, 'pq', r, out, 4, lambda b: S.quat_mul(vec(w, p, pi_(b), 4), vec(w, q, qi_(b), 4)))


@contract(('C07', 'C03'))
def standardize_quaternion(w):
    """same rotation, non-negative real part"""
    b = batch(w)
    q = w.tensor('q', b + (4,))
    r = w.fn(RC, 'standardize_quaternion')(q)
    w.shape('shape', r, b + (4,))
    for ix in w.idx(b):
        x, y = vec(w, q, ix, 4), vec(w, r, ix, 4)
        w.check('real part', y[0] >= 0)
        for k in range(4): w.same('sign choice[%d]' % k, y[k], ite(x[0] < 0, -x[k], x[k]))


@contract(('C07', 'C03'))
def quaternion_invert(w):
    """conjugate; for unit q, q * inverse(q) is the identity"""
    b = batch(w)
    q = w.unit('q', b, 4)
    r = w.fn(RC, 'quaternion_invert')(q)
    eqvec(w, 'inv', r, b, 4, lambda ix: S.quat_conj(vec(w, q, ix, 4)))
    for ix in w.idx(b):
        e = S.quat_mul(vec(w, q, ix, 4), vec(w, r, ix, 4))
        for k in range(4): w.same('identity[%d]' % k, e[k], 1 if k == 0 else 0)


@contract(('C07', 'C03'))
def quaternion_apply(w):
    """q v q* = R(q) v"""
    b = batch(w)
    q = w.unit('q', b, 4)
    p = w.tensor('p', b + (3,))
    r = w.fn(RC, 'quaternion_apply')(q, p)
    eqvec(w, 'Rv', r, b, 3, lambda ix: S.matvec(S.quat_matrix(vec(w, q, ix, 4)), vec(w, p, ix, 3)))


# ------------------------------------------------------------------ C08
@contract(('C08', 'C03'))
def axis_and_angle_to_matrix_33(w):
    b = batch(w)
    a = w.unit('a', b, 3)
    t = w.tensor('t', b)
    M = w.fn(RC, 'axis_and_angle_to_matrix_33')(a, t)
    eqmat(w, 'M', M, b, lambda ix: S.rodrigues(vec(w, a, ix, 3), w.at(t, *ix)))
    for ix in w.idx(b): is_rotation(w, 'rotation', mat(w, M, ix))


@contract(('C08', 'C01'))
def axis_and_angle_to_matrix_44(w):
    b = batch(w)
    a = w.unit('a', b, 3)
    t = w.tensor('t', b)
    M = w.fn(RC, 'axis_and_angle_to_matrix_44')(a, t)
    eqmat(w, 'M', M, b, lambda ix: S.homog(S.rodrigues(vec(w, a, ix, 3), w.at(t, *ix)), [0, 0, 0]), 4, 4)


@contract(('C08', 'C01'))
def axis_and_d_to_pris_matrix(w):
    b = batch(w)
    a = w.tensor('a', b + (3,))
    t = w.tensor('t', b)
    M = w.fn(RC, 'axis_and_d_to_pris_matrix')(a, t)
    eqmat(w, 'M', M, b, lambda ix: S.homog(S.eye(3), [x * w.at(t, *ix) for x in vec(w, a, ix, 3)]), 4, 4)


EPS6 = 1e-6


def _rotvec(w, big=None):
    """rotation vector t*u with u a unit vector and t >= 0"""
    b = batch(w)
    u = w.unit('u', b, 3)
    t = w.tensor('t', b, lo=0)
    return b, u, t, w.make(b + (3,), lambda *i: w.at(t, *i[:-1]) * w.at(u, *i))


@contract(('C08', 'C03'))
def axis_angle_to_quaternion(w):
    """rotation vector t*u -> (cos t/2, u sin t/2), exactly for t >= 1e-6"""
    b, u, t, v = _rotvec(w)
    w.assume(w.all(b, lambda *i: w.at(t, *i) >= EPS6))
    q = w.fn(RC, 'axis_angle_to_quaternion')(v)
    eqvec(w, 'q', q, b, 4, lambda ix: [cos(w.at(t, *ix) / 2)] + [sin(w.at(t, *ix) / 2) * x for x in vec(w, u, ix, 3)])


@contract('C08')
def axis_angle_to_quaternion_small(w):
    """below 1e-6 the result is within 1e-12 of the exact quaternion, and exact at zero"""
    b, u, t, v = _rotvec(w)
    w.assume(w.all(b, lambda *i: w.at(t, *i) < EPS6))
    q = w.fn(RC, 'axis_angle_to_quaternion')(v)
    w.shape('shape', q, b + (4,))
    for ix in w.idx(b):
        th = w.at(t, *ix)
        w.same('real part', w.at(q, *ix, 0), cos(th / 2))
        for k in range(3):
            w.near('imaginary part', w.at(q, *ix, k + 1), w.at(u, *ix, k) * sin(th / 2), 1e-12)
            w.check('zero', implies(feq(th, 0), feq(w.at(q, *ix, k + 1), 0)))


def _halfangle_quaternion(w, lo, hi):
    """(cos h, u sin h) with a unit vector u and half angles between lo and hi"""
    b = batch(w)
    u = w.unit('u', b, 3)
    h = w.tensor('h', b, lo=lo, hi=hi)
    q = w.make(b + (4,), lambda *i: cos(w.at(h, *i[:-1])) if isinstance(i[-1], int) and i[-1] == 0 else sin(w.at(h, *i[:-1])) * w.at(u, *i[:-1], i[-1] - 1))
    return b, u, h, q


@contract(('C08', 'C03'))
def quaternion_to_axis_angle(w):
    """(cos h, u sin h) -> 2h*u for every h from 5e-7 up to, not including, pi"""
    b, u, h, q = _halfangle_quaternion(w, 5.1e-7, 3.1415) if w.concrete else _halfangle_quaternion(w, None, None)
    if w.concrete: w.assume(w.all(b, lambda *i: land(w.at(h, *i) >= 5.1e-7, w.at(h, *i) <= 3.1415)))
    else: w.assume(w.all(b, lambda *i: land(w.at(h, *i) >= w.const('5e-7'), w.at(h, *i) < pi())))
    v = w.fn(RC, 'quaternion_to_axis_angle')(q)
    w.shape('shape', v, b + (3,))
    for ix in w.idx(b):
        s = sin(w.at(h, *ix))
        vs, us = vec(w, v, ix, 3), vec(w, u, ix, 3)
        for k in range(3): w.same('v[%d]' % k, vs[k], 2 * w.at(h, *ix) * us[k], tol=1e-5)


@contract('C08')
def quaternion_to_axis_angle_small(w):
    """below a half angle of 5e-7 the result is within 1e-12 of 2h*u, and zero at the identity"""
    b, u, h, q = _halfangle_quaternion(w, 0, 4.9e-7) if w.concrete else _halfangle_quaternion(w, None, None)
    w.assume(w.all(b, lambda *i: land(w.at(h, *i) >= 0, w.at(h, *i) < w.const('5e-7'))))
    v = w.fn(RC, 'quaternion_to_axis_angle')(q)
    w.shape('shape', v, b + (3,))
    for ix in w.idx(b):
        x = w.at(h, *ix)
        for k in range(3):
            w.near('v', w.at(v, *ix, k), 2 * x * w.at(u, *ix, k), 1e-12)
            w.check('zero', implies(feq(x, 0), feq(w.at(v, *ix, k), 0)))


@contract('C08')
def matrix_to_axis_angle_round_trip(w):
    """the rotation of matrix_to_axis_angle(R) is R (quaternion part away from the identity)"""
    B = w.dim('B')
    Rm = w.rotation('p', (B,))
    m = w.fn(RC, 'matrix_to_axis_angle')
    q = w.fn(RC, 'matrix_to_quaternion')(Rm)
    v = m(Rm)
    e = w.fn(RC, 'quaternion_to_axis_angle')(q)
    w.same_tensor('composition', v, e)


@contract('C08')
def axis_angle_to_matrix(w):
    """rotation vector t*u -> Rodrigues matrix"""
    b, u, t, v = _rotvec(w)
    w.assume(w.all(b, lambda *i: w.at(t, *i) >= EPS6))
    M = w.fn(RC, 'axis_angle_to_matrix')(v)
    eqmat(w, 'M', M, b, lambda ix: S.rodrigues(vec(w, u, ix, 3), w.at(t, *ix)))


@contract(('C08', 'C03'))
def so3_exp_map(w):
    """exp of t*u is the Rodrigues matrix for t >= 0.01 (below, see so3_exp_map_small)"""
    B = w.dim('B')
    u = w.unit('u', (B,), 3)
    t = w.tensor('t', (B,), lo=w.near_only(0.01))
    w.assume(w.all((B,), lambda i: w.at(t, i) >= w.const('0.01')))
    v = w.make((B, 3), lambda i, k: w.at(t, i) * w.at(u, i, k))
    M = w.fn(SO, 'so3_exp_map')(v)
    eqmat(w, 'M', M, (B,), lambda ix: S.rodrigues(vec(w, u, ix, 3), w.at(t, *ix)))


@contract('C08')
def so3_exp_map_small(w):
    """below 0.01 rad: I + f1 t K + f2 t^2 K^2 with f1 = sin(a)/a, f2 = (1 - cos a)/a^2 at the clamp angle a = 0.01, the identity at
    zero; by so3_small_lemma each entry is within 1e-6 of Rodrigues"""
    B = w.dim('B')
    u = w.unit('u', (B,), 3)
    t = w.tensor('t', (B,), lo=0, hi=w.near_only(0.0099999))
    w.assume(w.all((B,), lambda i: w.at(t, i) < w.const('0.01')))
    v = w.make((B, 3), lambda i, k: w.at(t, i) * w.at(u, i, k))
    M = w.fn(SO, 'so3_exp_map')(v)
    w.shape('shape', M, (B, 3, 3))
    a = w.const('0.01')
    f1, f2 = sin(a) / a, (1 - cos(a)) / (a * a)
    for b, in w.idx((B,)):
        x, y, z = vec(w, v, (b,), 3)
        E = S.rodrigues(vec(w, u, (b,), 3), w.at(t, b))
        K = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
        K2 = S.matmul(K, K)
        for i in range(3):
            for j in range(3):
                w.same('M', w.at(M, b, i, j), (1 if i == j else 0) + f1 * K[i][j] + f2 * K2[i][j])
                if w.concrete: w.near('Rodrigues', w.at(M, b, i, j), E[i][j], 1e-6)


@contract('C08')
def so3_small_lemma(w):
    """lemma: for 0 <= t <= 0.01, |f1 t - sin t| <= 5e-7 and |f2 t^2 - (1 - cos t)| <= 5e-7 (Taylor bounds of sin and cos assumed)"""
    t = w.real('t', lo=0, hi=0.01)
    a = w.const('0.01')
    for x in (t, a):
        w.axiom('sin bounds', land(x - x * x * x / 6 <= sin(x), sin(x) <= x))
        w.axiom('cos bounds', land(1 - x * x / 2 <= cos(x), cos(x) <= 1 - x * x / 2 + x * x * x * x / 24))
    w.near('first factor', sin(a) / a * t, sin(t), 5e-7)
    w.near('second factor', (1 - cos(a)) / (a * a) * t * t, 1 - cos(t), 5e-7)


@contract(('C08', 'C03'))
def hat(w):
    B = w.dim('B')
    v = w.tensor('v', (B, 3))
    H = w.fn(SO, 'hat')(v)
    eqmat(w, 'H', H, (B,), lambda ix: [[0, -w.at(v, *ix, 2), w.at(v, *ix, 1)], [w.at(v, *ix, 2), 0, -w.at(v, *ix, 0)], [-w.at(v, *ix, 1), w.at(v, *ix, 0), 0]])
    back = w.fn(SO, 'hat_inv')(H)
    eqvec(w, 'inverse', back, (B,), 3, lambda ix: vec(w, v, ix, 3))


@contract(('C08', 'C03'))
def so3_rotation_angle(w):
    """R(u, t) -> t for 0.0142 <= t <= pi - 0.0142 (the documented clamp region is so3_rotation_angle_clamp)"""
    B = w.dim('B')
    u = w.unit('u', (B,), 3)
    t = w.tensor('t', (B,), lo=0.0142 if w.concrete else 0, hi=3.1273 if w.concrete else pi())
    c = w.choose('cos', [False, True])
    Rm = w.make((B, 3, 3), lambda b, i, j: S.rodrigues(vec(w, u, (b,), 3), w.at(t, b))[i][j])
    if w.concrete: w.assume(w.all((B,), lambda b: abs(math_cos(w.at(t, b))) < 1 - 1.001e-4))
    else: w.assume(w.all((B,), lambda b: land(cos(w.at(t, b)) < 1 - 1e-4, cos(w.at(t, b)) > -1 + 1e-4)))
    a = w.fn(SO, 'so3_rotation_angle')(Rm, cos_angle=c)
    w.eq('angle', a, (B,), (lambda b: cos(w.at(t, b))) if c else (lambda b: w.at(t, b)))


def math_cos(x):
    import math
    return math.cos(x)


@contract(('C08', 'C03'))
def so3_relative_angle(w):
    """cosine of the relative angle is (trace(A B^T) - 1)/2"""
    B = w.dim('B')
    P, Q = w.rotation('p', (B,)), w.rotation('q', (B,))
    if w.symbolic:
        d = lambda b: (w.rot_quat('p', b), w.rot_quat('q', b))
        trm = lambda b: S.dot([w.at(P, b, i, j) for i in range(3) for j in range(3)], [w.at(Q, b, i, j) for i in range(3) for j in range(3)])
        w.nonneg('trace >= -1', (B,), lambda b: trm(b) + 1, lambda b: [(4, S.dot(*d(b)))])
        w.nonneg('trace <= 3', (B,), lambda b: 3 - trm(b), lambda b: [(4, d(b)[0][i] * d(b)[1][j] - d(b)[0][j] * d(b)[1][i]) for i in range(4) for j in range(i)])
    a = w.fn(SO, 'so3_relative_angle')(P, Q, cos_angle=True)
    g = w.fn(SO, 'so3_relative_angle')(P, Q)
    prod = w.make((B, 3, 3), lambda b, i, j: S.dot([w.at(P, b, i, k) for k in range(3)], [w.at(Q, b, j, k) for k in range(3)]))
    w.eq('angle', g, (B,), (lambda a_: lambda b: w.at(a_, b))(w.fn(SO, 'so3_rotation_angle')(prod)))
    tr = lambda b: S.dot([w.at(P, b, i, j) for i in range(3) for j in range(3)], [w.at(Q, b, i, j) for i in range(3) for j in range(3)])
    w.eq('cos', a, (B,), lambda b: (tr(b) - 1) / 2)


@contract(('C08', 'C03'))
def so3_log_map(w):
    """log inverts exp for angles in [0.015, pi - 0.0145]"""
    B = w.dim('B')
    u = w.unit('u', (B,), 3)
    t = w.tensor('t', (B,), lo=0.015 if w.concrete else 0, hi=3.127 if w.concrete else pi())
    w.assume(w.all((B,), lambda b: land(cos(w.at(t, b)) < 1 - 1e-4, cos(w.at(t, b)) > -1 + 1e-4, sin(w.at(t, b)) > 1e-4)))
    Rm = w.make((B, 3, 3), lambda b, i, j: S.rodrigues(vec(w, u, (b,), 3), w.at(t, b))[i][j])
    v = w.fn(SO, 'so3_log_map')(Rm)
    eqvec(w, 'log', v, (B,), 3, lambda ix: [w.at(t, *ix) * x for x in vec(w, u, ix, 3)])


@contract('C08')
def so3_log_map_identity(w):
    """log of a batch containing identities is zero there and unaffected elsewhere"""
    B = w.dim('B')
    Rm = w.make((B, 3, 3), lambda b, i, j: 1 if i == j else 0)
    v = w.fn(SO, 'so3_log_map')(Rm)
    w.eq('log', v, (B, 3), lambda b, k: 0)


@contract('C08')
def so3_log_map_small(w):
    """for angles of at most 0.0141 (where the angle is extrapolated) the logarithm of R(u, t) is phi/sin(phi) sin(t) u with phi, the extrapolated
    angle, between 0.007 and 0.0142; by so3_small_log_lemma it is within 1e-6 of t*u"""
    B = w.dim('B')
    u = w.unit('u', (B,), 3)
    t = w.tensor('t', (B,), lo=0, hi=0.0141)
    Rm = w.make((B, 3, 3), lambda b, i, j: S.rodrigues(vec(w, u, (b,), 3), w.at(t, b))[i][j])
    if w.symbolic:
        w.axiom('cos bounds', w.all((B,), lambda b: land(1 - w.at(t, b) * w.at(t, b) / 2 <= cos(w.at(t, b)), cos(w.at(t, b)) <= 1)))
        w.axiom('sin bounds', land(*[land(x - x * x * x / 6 <= sin(x), sin(x) <= x) for x in [w.const('0.0001')]]))
        x0 = w.const('0.9999')
        w.axiom('value of acos', land(acos(x0) > w.const('0.0141422'), acos(x0) < w.const('0.0141423')))
    v = w.fn(SO, 'so3_log_map')(Rm)
    w.shape('log', v, (B, 3))
    phi = w.fn(SO, 'so3_rotation_angle')(Rm)
    for b, in w.idx((B,)):
        p = w.at(phi, b)
        w.lemma('phi', land(p > w.const('0.007'), p < w.const('0.0142')))
        if w.symbolic: w.axiom('sin bounds', land(p - p * p * p / 6 <= sin(p), sin(p) <= p))
        for k in range(3):
            w.same('log', w.at(v, b, k) * sin(p), p * sin(w.at(t, b)) * w.at(u, b, k))
            if w.concrete: w.near('log', w.at(v, b, k), w.at(t, b) * w.at(u, b, k), 1e-6)


@contract('C08')
def so3_small_log_lemma(w):
    """lemma: for 0.007 <= p <= 0.0142 and 0 <= t <= 0.0141, |p/sin(p) sin(t) - t| <= 1e-6 (Taylor bounds of sin assumed)"""
    p, t = w.real('p', lo=0.007, hi=0.0142), w.real('t', lo=0, hi=0.0141)
    for x in (p, t): w.axiom('sin bounds', land(x - x * x * x / 6 <= sin(x), sin(x) <= x))
    w.lemma('ratio', land(sin(p) <= p, p <= w.const('1.00004') * sin(p)))
    w.lemma('positive', sin(p) > 0)
    w.near('logarithm', p * sin(t) / sin(p), t, 1e-6)


@contract('C08', sym=False, samples=30, functions=('transforms.so3:so3_log_map',))
def so3_log_map_near_half_turn(w):
    """log inverts exp for angles between pi - 0.0141 and a half turn"""
    u = w.unit('u', (1,), 3)
    g = w.real('g', lo=1e-4, hi=0.0135)
    w.finding = 'angle within 0.0141 of a half turn'
    Rm = w.make((1, 3, 3), lambda b, i, j: S.rodrigues(vec(w, u, (b,), 3), pi() - g)[i][j])
    v = w.fn(SO, 'so3_log_map')(Rm)
    us, vs = vec(w, u, (0,), 3), vec(w, v, (0,), 3)
    for x in S.cross(vs, us): w.near('along the axis', x, 0, 1e-6)
    w.check('sense', S.dot(vs, us) > 0)
    for k in range(3): w.near('log', vs[k], (pi() - g) * us[k], 1e-4)


# ------------------------------------------------------------------ C09
CONV = [a + b + c for a in 'XYZ' for b in 'XYZ' for c in 'XYZ' if a != b and b != c]
IX = {'X': 0, 'Y': 1, 'Z': 2}


def euler_spec(conv, a):
    M = S.rot_axis(IX[conv[0]], a[0])
    for c, t in zip(conv[1:], a[1:]): M = S.matmul(M, S.rot_axis(IX[c], t))
    return M


@contract(('C09', 'C03'))
def euler_angles_to_matrix(w):
    """product of the elementary rotations in the order of the convention"""
    conv = w.choose('conv', CONV)
    b = batch(w)
    a = w.tensor('a', b + (3,))
    M = w.fn(RC, 'euler_angles_to_matrix')(a, conv)
    eqmat(w, 'M', M, b, lambda ix: euler_spec(conv, vec(w, a, ix, 3)))


@contract(('C09', 'C03'), budget=100, weight=3)
def matrix_to_euler_angles(w):
    """angles that compose back to the matrix, away from gimbal lock (12 conventions)"""
    conv = w.choose('conv', CONV)
    b = batch(w)
    Rm = w.rotation('p', b)
    i0, i2 = IX[conv[0]], IX[conv[2]]
    s = lambda ix: w.at(Rm, *ix, i0, i2)
    w.assume(w.all(b, lambda *ix: s(ix) * s(ix) < (1 if w.symbolic else 1 - 1e-6)))
    a = w.fn(RC, 'matrix_to_euler_angles')(Rm, conv)
    w.shape('shape', a, b + (3,))
    for ix in w.idx(b):
        E = euler_spec(conv, vec(w, a, ix, 3))
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), E[i][j], w.at(Rm, *ix, i, j))


AXES24 = [f + a + b + c for f in 'sr' for a in 'xyz' for b in 'xyz' for c in 'xyz' if a != b and b != c]


def axes_spec(axes, a):
    f, names = axes[0], [c.upper() for c in axes[1:]]
    Ms = [S.rot_axis(IX[c], t) for c, t in zip(names, a)]
    if f == 's': Ms = Ms[::-1]          # static axes: later rotations multiply on the left
    M = Ms[0]
    for X in Ms[1:]: M = S.matmul(M, X)
    return M


@contract(('C09', 'C03'), budget=100, weight=3)
def quaternion_from_euler(w):
    """unit quaternion of the composed elementary rotations, in each of the 24 conventions"""
    axes = w.choose('axes', AXES24)
    b = batch(w)
    a = w.tensor('a', b + (3,))
    arg = axes
    v0 = w.snapshot(a)
    q = w.fn(RC, 'quaternion_from_euler')(a, arg)
    w.shape('shape', q, b + (4,))
    for ix in w.idx(b):
        qs = vec(w, q, ix, 4)
        w.same('unit', S.dot(qs, qs), 1)
        E = axes_spec(axes, [v0(*ix, k) for k in range(3)])
        M = S.quat_matrix(qs)
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), M[i][j], E[i][j])


@contract('C09')
def quaternion_from_euler_tuple_axes(w):
    """an encoded axis tuple means the same as its name"""
    table = w.module(RC)._AXES2TUPLE
    axes = w.choose('axes', AXES24)
    B = w.dim('B')
    a = w.tensor('a', (B, 3))
    v0 = w.snapshot(a)
    f = w.fn(RC, 'quaternion_from_euler')
    q2 = f(a, table[axes])
    E = lambda ix: axes_spec(axes, [v0(*ix, k) for k in range(3)])
    for ix in w.idx((B,)):
        M, X = S.quat_matrix(vec(w, q2, ix, 4)), E(ix)
        for i in range(3):
            for j in range(3): w.same('M[%d,%d]' % (i, j), M[i][j], X[i][j])


@contract('C09')
def euler_rejects(w):
    """malformed conventions and shapes are rejected"""
    f, g = w.fn(RC, 'euler_angles_to_matrix'), w.fn(RC, 'matrix_to_euler_angles')
    a = w.tensor('a', (2, 3)); Rm = w.tensor('R', (2, 3, 3)); bad = w.tensor('bad', (2, 4))
    for c in ('XX', 'XXY', 'YXX', 'XYW', 'XYZX'):
        w.raises('compose ' + c, lambda: f(a, c), ValueError)
        w.raises('extract ' + c, lambda: g(Rm, c), ValueError)
    w.raises('compose shape', lambda: f(bad, 'XYZ'), ValueError)


# ------------------------------------------------------------------ C10
@contract(('C10', 'C03'), budget=80)
def rotation_6d_to_matrix(w):
    """proper rotation for every non-degenerate input, whose first two rows span the input rows"""
    b = batch(w)
    d = w.tensor('d', b + (6,))
    if w.concrete:  # encodings of any magnitude: scaling by a power of two is exact
        s, d0 = w.choose('scale', (1.0, 1.0, 2.0 ** -12, 2.0 ** -30, 2.0 ** 12)), d
        d = w.make(b + (6,), lambda *i: w.at(d0, *i) * s)
    a1 = lambda ix: [w.at(d, *ix, k) for k in range(3)]
    a2 = lambda ix: [w.at(d, *ix, k + 3) for k in range(3)]

    def ok(*ix):
        # neither the first vector nor the part of the second across it is (numerically) zero
        x, y = a1(ix), a2(ix)
        c = S.cross(x, y)
        if w.concrete: return land(S.dot(x, x) > 1e-4 * s * s, S.dot(c, c) > 1e-6 * S.dot(x, x) * s * s, S.dot(c, c) > 1e-8 * s ** 4)
        return land(S.dot(x, x) > 1e-24, S.dot(c, c) > 1e-24 * S.dot(x, x))
    w.assume(w.all(b, ok))
    M = w.fn(RC, 'rotation_6d_to_matrix')(d)
    w.shape('shape', M, b + (3, 3))
    for ix in w.idx(b):
        Ms = mat(w, M, ix)
        x, y = a1(ix), a2(ix)
        is_rotation(w, 'rotation', Ms)
        n = S.norm(x)
        for k in range(3): w.same('first row along input', Ms[0][k] * n, x[k])
        p = S.dot(Ms[0], y); h = S.dot(Ms[1], y)
        for k in range(3): w.same('second row in input plane', p * Ms[0][k] + h * Ms[1][k], y[k])
        w.check('second row side', h > 0)


@contract(('C10', 'C03'))
def rotation_6d_round_trip(w):
    b = batch(w)
    Rm = w.rotation('p', b)
    d = w.fn(RC, 'matrix_to_rotation_6d')(Rm)
    eqvec(w, '6d', d, b, 6, lambda ix: [w.at(Rm, *ix, i, j) for i in range(2) for j in range(3)])
    M = w.fn(RC, 'rotation_6d_to_matrix')(d)
    eqmat(w, 'decode(encode(R))', M, b, lambda ix: mat(w, Rm, ix))


def pose(w, b, rname='p', tname='x'):
    Rm, t = w.rotation(rname, b), w.tensor(tname, b + (3,))
    n = len(b)

    def f(*i):
        i, r, c = i[:n], i[n], i[n + 1]
        if r == 3: return 1 if c == 3 else 0
        return w.at(t, *i, r) if c == 3 else w.at(Rm, *i, r, c)
    return Rm, t, w.make(b + (4, 4), f)


@contract(('C10', 'C03'))
def se3_9d(w):
    """9D encoding and decoding are exact inverses on rigid poses"""
    b = batch(w)
    Rm, t, H = pose(w, b)
    e = w.fn(RC, 'matrix44_to_se3_9d')(H)
    eqvec(w, '9d', e, b, 9, lambda ix: [w.at(Rm, *ix, i, j) for i in range(2) for j in range(3)] + vec(w, t, ix, 3))
    M = w.fn(RC, 'se3_9d_to_matrix44')(e)
    eqmat(w, 'decode(encode(H))', M, b, lambda ix: S.homog(mat(w, Rm, ix), vec(w, t, ix, 3)), 4, 4)


@contract(('C10', 'C03'))
def pos_rot_to_matrix(w):
    """position and xyzw unit quaternion -> rigid matrix of that pose"""
    b = batch(w)
    p, q = w.tensor('p', b + (3,)), w.unit('q', b, 4)
    M = w.fn(RC, 'pos_rot_to_matrix')(p, q)
    eqmat(w, 'H', M, b, lambda ix: S.homog(S.quat_matrix([w.at(q, *ix, 3)] + vec(w, q, ix, 3)), vec(w, p, ix, 3)), 4, 4)


@contract(('C10', 'C03'))
def matrix_to_pos_rot(w):
    b = batch(w)
    Rm, t, H = pose(w, b)
    p, q = w.fn(RC, 'matrix_to_pos_rot')(H)
    eqvec(w, 'pos', p, b, 3, lambda ix: vec(w, t, ix, 3))
    w.shape('rot.shape', q, b + (4,))
    for ix in w.idx(b):
        x, y, z, r = vec(w, q, ix, 4)
        w.same('unit', r * r + x * x + y * y + z * z, 1)
        M = S.quat_matrix([r, x, y, z])
        for i in range(3):
            for j in range(3): w.same('rot[%d,%d]' % (i, j), M[i][j], w.at(Rm, *ix, i, j))


@contract(('C10', 'C03'))
def quaternion_reorder(w):
    b = batch(w)
    q = w.tensor('q', b + (4,))
    a = w.fn(RC, 'xyzw_to_wxyz')(q)
    c = w.fn(RC, 'wxyz_to_xyzw')(q)
    eqvec(w, 'to wxyz', a, b, 4, lambda ix: [w.at(q, *ix, k) for k in (3, 0, 1, 2)])
    eqvec(w, 'to xyzw', c, b, 4, lambda ix: [w.at(q, *ix, k) for k in (1, 2, 3, 0)])
