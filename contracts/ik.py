"""C15, C16, C17: inverse kinematics."""
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported, R
from ptv.world import *
from contracts.rotations import vec, mat
import ast
import ctypes

IK = 'ik'
RC = 'transforms.rotation_conversions'


def rows(t, n, r, M):
    """index of row r (flattened problem*M + attempt) in a tensor whose leading dimensions are (N*M,) or (N, M)"""
    return (r,) if t.ndim - n == 1 else (tm.idiv(r, M), tm.imod(r, M))


class PoseStubs:
    """matrix_to_quaternion and quaternion_to_axis_angle by contract (proved under C07 and C08)"""

    def __init__(self, w, N, M, flat):
        self.w, self.N, self.M = w, N, M
        self.q = []
        w.callee(RC, 'matrix_to_quaternion', self.m2q)
        w.callee(RC, 'quaternion_to_axis_angle', self.q2aa)

    def row(self, ix):
        """flat row of the leading index"""
        return ix[0] if len(ix) == 1 else tm.iadd(tm.imul(ix[0], self.M), ix[1])

    def m2q(self, m):
        w = self.w
        lead = tuple(m.shape[:-2])
        rd = m._reader()
        for ix in w.idx(lead):
            E = S.quat_matrix([tm.app('cur', (self.row(ix), c)) for c in range(4)])
            for i in range(3):
                for j in range(3): w.same('precondition: rotation given to matrix_to_quaternion', rd(tuple(ix) + (i, j)), E[i][j])
        w.precise('matrix_to_quaternion')
        return w.make(lead + (4,), lambda *i: ite(tm.bapp('sign', (self.row(i[:-1]),)), tm.app('cur', (self.row(i[:-1]), i[-1])), -tm.app('cur', (self.row(i[:-1]), i[-1]))),
                      dtype=m.dtype, device=str(m.device))

    def q2aa(self, q):
        if self.q: raise Unsupported('more than one call of quaternion_to_axis_angle')
        lead = tuple(q.shape[:-1])
        self.q.append(q._reader())
        self.lead = len(lead)
        return self.w.make(lead + (3,), lambda *i: tm.app('rv', (self.row(i[:-1]), i[-1])), dtype=q.dtype, device=str(q.device))

    def rotvec(self, label, r, t):
        """the rotation vector of row r, after checking that it belongs to the rotation from the current to the target orientation t"""
        if not self.q: raise Unsupported('the rotation error is not computed by quaternion_to_axis_angle')
        w = self.w
        ix = (r,) if self.lead == 1 else (tm.idiv(r, self.M), tm.imod(r, self.M))
        q = [self.q[0](ix + (k,)) for k in range(4)]
        c = [tm.app('cur', (r, k)) for k in range(4)]
        w.check('precondition: ' + label + ': shorter way round', q[0] >= 0)
        w.same('precondition: ' + label + ': takes current to target', S.dot(S.quat_mul(q, c), t) * S.dot(S.quat_mul(q, c), t), 1)
        w.same('precondition: ' + label + ': unit', S.dot(q, q), 1)
        return [tm.app('rv', (r, k)) for k in range(3)]


class PoseCase:
    """N problems with M attempts each: current poses m (flat or (N, M)), targets"""

    def __init__(self, w, flat=True, pairs=False, dtype=None):
        t = w.torch
        self.w = w
        self.N, self.M = N, M = w.dim('N'), w.dim('M')
        NM = N * M if w.concrete else tm.imul(N, M)
        self.NM = NM
        self.dt = dt = dtype or t.float64
        self.Rm = w.rotation('cur', (NM,), dtype=dt)
        self.p = w.tensor('p', (NM, 3), dtype=dt)
        self.tp = w.tensor('tp', (N, 3), dtype=dt)
        self.tq = w.unit('tq', (N,), 4, dtype=dt)
        if w.concrete:
            m = t.zeros(NM, 4, 4, dtype=dt)
            m[:, :3, :3] = self.Rm
            m[:, :3, 3] = self.p
            m[:, 3, 3] = 1
            self.m = m if flat else m.reshape(N, M, 4, 4)
        else:
            self.stubs = PoseStubs(w, N, M, flat)
            E = lambda r: S.homog(S.quat_matrix([tm.app('cur', (r, c)) for c in range(4)]), [tm.app('p', (r, c)) for c in range(3)])
            if flat: self.m = w.make((NM, 4, 4), lambda r, i, j: R(E(r)[i][j]), dtype=dt)
            else: self.m = w.make((N, M, 4, 4), lambda n, k, i, j: R(E(tm.iadd(tm.imul(n, M), k))[i][j]), dtype=dt)

    def each(self):
        """(flat row, problem)"""
        w = self.w
        for n, k in w.idx((self.N, self.M)):
            yield (n * self.M + k if w.concrete else tm.iadd(tm.imul(n, self.M), k)), n

    def error(self, r, n):
        """expected pose error of row r"""
        w = self.w
        e = [w.at(self.tp, n, i) - w.at(self.p, r, i) for i in range(3)]
        if w.symbolic: return e + self.stubs.rotvec('rotation error', r, [w.at(self.tq, n, k) for k in range(4)])
        c = w.rot_quat('cur', r)
        d = S.quat_mul([w.at(self.tq, n, k) for k in range(4)], S.quat_conj(c))
        if d[0] < 0: d = [-x for x in d]
        self.half_turn = d[0] < 1e-7
        s = S.norm(d[1:])
        h = atan2(s, d[0])
        return e + [(2 * h / s if s > 1e-12 else 2) * x for x in d[1:]]


def check_dx(w, P, dx):
    w.shape('error shape', dx, (P.NM, 6, 1))
    for r, n in P.each():
        E = P.error(r, n)
        if w.concrete and P.half_turn and sum(w.at(dx, r, i, 0) * E[i] for i in (3, 4, 5)) < 0: E = E[:3] + [-x for x in E[3:]]   # either axis is right
        for i in range(6): w.same('dx[%d]' % i, w.at(dx, r, i, 0), E[i], tol=1e-6)


@contract(('C17', 'C03'), budget=60)
def delta_pose(w):
    """first half: target position minus current position; second half: the rotation vector taking the current to the target orientation;
    every row by itself"""
    P = PoseCase(w, flat=False)
    out = None
    if w.choose('out', ['none', 'buffer']) == 'buffer': out = w.tensor('out', (P.NM, 6, 1))
    dx, pd, rd = w.fn(IK, 'delta_pose')(P.m, P.tp, P.tq, out=out)
    check_dx(w, P, dx)
    w.shape('pos shape', pd, (P.NM, 3, 1))
    w.shape('rot shape', rd, (P.NM, 3, 1))
    for r, n in P.each():
        for i in range(3):
            w.same('pos_diff', w.at(pd, r, i, 0), w.at(dx, r, i, 0))
            w.same('rot_diff', w.at(rd, r, i, 0), w.at(dx, r, i + 3, 0))
    if out is not None: w.true('buffer used', dx is out)


@contract(('C17', 'C08'))
def rotation_error_zero(w):
    """the rotation vector of a unit quaternion with non-negative real part is zero exactly for the identity"""
    B = w.dim('B')
    if w.symbolic: q = w.unit('q', (B,), 4)
    else:
        q = w.unit('q', (B,), 4)
        if w.choose('kind', ['any', 'identity']) == 'identity': q = q * 0; q[..., 0] = 1
    w.assume(w.all((B,), lambda b: w.at(q, b, 0) >= 0))
    v = w.fn(RC, 'quaternion_to_axis_angle')(q)
    for b, in w.idx((B,)):
        im = [w.at(q, b, k) for k in (1, 2, 3)]
        z = land(*[feq(x, 0) for x in im])
        x = [w.at(v, b, k) for k in range(3)]
        w.check('zero for the identity', implies(z, land(*[feq(a, 0) for a in x])))
        w.check('zero only for the identity', implies(land(*[feq(a, 0) for a in x]), z))


class Solver:
    """torch.linalg.solve and torch.linalg.svd by contract: solve(A, b) is some y with A y = b; svd(A) some orthonormal triple with
    A = U D V (thin or full)"""

    def __init__(self, w):
        self.w = w
        self.solves, self.svds = [], []
        w.hooks['solve'] = self.solve
        w.hooks['svd'] = self.svd

    def solve(self, A, B, left=True):
        k = len(self.solves)
        self.solves.append((A._reader(), B._reader(), A.shape, B.shape))
        return self.w.make(tuple(A.shape[:-1]) + (B.shape[-1],), lambda *i: tm.app('y%d' % k, i), dtype=A.dtype, device=str(A.device))

    def svd(self, A, full_matrices=True, driver=None):
        w = self.w
        m, n = A.shape[-2], A.shape[-1]
        if not isinstance(m, int): raise Unsupported('svd of a matrix with a symbolic number of rows')
        k = min(m, n) if isinstance(n, int) else m      # contracts use n >= m when n is symbolic
        b = tuple(A.shape[:-2])
        c = len(self.svds)
        self.svds.append((A._reader(), k, full_matrices))
        mk = lambda nm, s: w.make(s, lambda *i: tm.app('%s%d' % (nm, c), i), dtype=A.dtype, device=str(A.device))
        return mk('U', b + (m, m if full_matrices else k)), mk('D', b + (k,)), mk('V', b + ((n if full_matrices else k), n))


def step_case(w, svd):
    """Jacobian, weights, regularization and damping"""
    t = w.torch
    P = PoseCase(w)
    nd = w.choose('joints', ['many', 1, 2, 3, 4, 5]) if svd else w.choose('joints', ['any'])
    if nd == 'many': n = w.dim('n', lo=6)
    elif nd == 'any': n = w.dim('n')
    else: n = nd
    J = w.tensor('J', (P.NM, 6, n))
    lam = w.real('lam', lo=w.near_only(0.001), pos=True)
    reg = w.make((6, 6), lambda i, j: ite(feq(i, j), R(lam) if w.symbolic else lam, R(0) if w.symbolic else 0.0))
    weight = w.choose('weight', ['none', 'given'])
    wt = w.tensor('wt', (6,)) if weight == 'given' else None
    d = w.choose('damping', ['none', 'given'])
    lm = w.real('lm', lo=w.near_only(0.001), pos=True) if d == 'given' else 0.0
    return P, J, n, lam, reg, wt, lm


def weighted(w, J, wt, e, r, n):
    W = [1] * 6 if wt is None else [w.at(wt, i) for i in range(6)]
    return (lambda i, c: W[i] * w.at(J, r, i, c)), [W[i] * e[i] for i in range(6)]


def normal_equations(w, P, J, n, lam, wt, lm, dq, dx):
    """(J_w^T J_w + mu I) dq = J_w^T dx_w with mu = lambda + lm |dx_w|^2   (numerically)"""
    for r, p in P.each():
        Jw, b = weighted(w, J, wt, [w.at(dx, r, i, 0) for i in range(6)], r, n)
        mu = lam + lm * S.dot(b, b)
        q = [w.at(dq, r, c, 0) for c in range(n)]
        Jq = [sum(Jw(i, c) * q[c] for c in range(n)) for i in range(6)]
        for c in range(n):
            rhs = sum(Jw(i, c) * b[i] for i in range(6))
            sc = 1 + abs(rhs) + sum(abs(Jw(i, c)) * sum(abs(Jw(i, k) * q[k]) for k in range(n)) for i in range(6)) + abs(mu * q[c])
            w.near('normal equations', sum(Jw(i, c) * Jq[i] for i in range(6)) + mu * q[c], rhs, 1e-6 * sc)


@contract(('C17', 'C03'), budget=90)
def ik_step(w):
    """the error is that of delta_pose, and the step is the damped least-squares step: dq = J_w^T y where (J_w J_w^T + (lambda + lm |dx_w|^2) I) y = dx_w,
    with torch.linalg.solve by contract; any number of problems, attempts and joints.  With lemma_push_through this solves the normal equations"""
    P, J, n, lam, reg, wt, lm = step_case(w, False)
    sv = Solver(w) if w.symbolic else None
    dq, dx = w.fn(IK, '_ik_step_kernel')(P.m, P.tp, P.tq, J, reg, P.M, lm_damping=lm, task_weight=wt)
    check_dx(w, P, dx)
    w.shape('step shape', dq, (P.NM, n, 1))
    if w.concrete: return normal_equations(w, P, J, n, lam, wt, lm, dq, dx)
    if len(sv.solves) != 1: raise Unsupported('one linear solve expected')
    A, b, sa, sb = sv.solves[0]
    if len(sa) != 3 or sa[1] != 6: raise Unsupported('the linear system is not in task space')
    for r, p in P.each():
        Jw, bw = weighted(w, J, wt, [w.at(dx, r, i, 0) for i in range(6)], r, n)
        mu = lam + lm * S.dot(bw, bw) if type(lm) is tm.T else lam
        for i in range(6):
            w.same('right-hand side', b((r, i, 0)), bw[i])
            for j in range(6):
                w.same('system[%d,%d]' % (i, j), A((r, i, j)), w.sum(n, lambda c: Jw(i, c) * Jw(j, c)) + (mu if i == j else 0))
        for c, in w.idx((n,)):
            w.same('step', w.at(dq, r, c, 0), S._sum(Jw(i, c) * tm.app('y0', (r, i, 0)) for i in range(6)))


@contract(('C17', 'C03'), budget=90)
def ik_step_svd(w):
    """SVD variant: the decomposed matrix is J_w and the step is sum_k D_k/(D_k^2 + lambda + lm |dx_w|^2) V_k (U_k . dx_w), with torch.linalg.svd by
    contract; any number of problems and attempts, 1 to 5 joints or any number from 6.  With lemma_svd_step this solves the normal equations"""
    P, J, n, lam, reg, wt, lm = step_case(w, True)
    sv = Solver(w) if w.symbolic else None
    dq, dx = w.fn(IK, '_ik_step_kernel_svd')(P.m, P.tp, P.tq, J, reg, P.M, lm_damping=lm, task_weight=wt)
    check_dx(w, P, dx)
    w.shape('step shape', dq, (P.NM, n, 1))
    if w.concrete: return normal_equations(w, P, J, n, lam, wt, lm, dq, dx)
    if len(sv.svds) != 1: raise Unsupported('one decomposition expected')
    A, m, full = sv.svds[0]
    for r, p in P.each():
        Jw, bw = weighted(w, J, wt, [w.at(dx, r, i, 0) for i in range(6)], r, n)
        mu = lam + lm * S.dot(bw, bw) if type(lm) is tm.T else lam
        for c, in w.idx((n,)):
            for i in range(6): w.same('decomposed matrix', A((r, i, c)), Jw(i, c))
            E = 0
            for k in range(m):
                D = tm.app('D0', (r, k))
                E = E + tm.app('V0', (r, k, c)) * D / (D * D + mu) * S._sum(tm.app('U0', (r, i, k)) * bw[i] for i in range(6))
            w.same('step', w.at(dq, r, c, 0), E)


@contract('C17', budget=60)
def lemma_push_through(w):
    """lemma: if (A A^T + mu I) y = b then dq = A^T y satisfies (A^T A + mu I) dq = A^T b, for 6 x n A, any n"""
    n = w.dim('n')
    A = w.tensor('A', (6, n))
    y = w.tensor('y', (6,))
    mu = w.real('mu', pos=True)
    a = lambda i, c: w.at(A, i, c)
    yv = vec(w, y, (), 6)
    b = [S._sum((w.sum(n, lambda c: a(i, c) * a(j, c))) * yv[j] for j in range(6)) + mu * yv[i] for i in range(6)]
    dq = lambda c: S._sum(a(i, c) * yv[i] for i in range(6))
    for i in range(6):
        w.lemma('A dq', feq(w.sum(n, lambda c: a(i, c) * dq(c)), S._sum((w.sum(n, lambda c: a(i, c) * a(j, c))) * yv[j] for j in range(6)))) if w.symbolic else None
    for c, in w.idx((n,)):
        L = S._sum(a(i, c) * w.sum(n, lambda k: a(i, k) * dq(k)) for i in range(6)) + mu * dq(c)
        w.same('normal equations', L, S._sum(a(i, c) * b[i] for i in range(6)), tol=1e-6)


@contract('C17', budget=60)
def lemma_svd_step(w):
    """lemma: if A = U D V with orthonormal U columns and V rows then dq = V^T D/(D^2 + mu) U^T b satisfies (A^T A + mu I) dq = A^T b, in steps:
    V dq = p, A dq = U D p, A^T A dq + mu dq = A^T b (n arbitrary for at least six joints; 1 to 5 singular values otherwise)"""
    m = w.choose('singular values', [6, 1, 2, 3, 4, 5])
    mu = w.real('mu', lo=w.near_only(0.01), pos=True)
    if w.concrete:
        t = w.torch
        n = w.dim('n', lo=6) if m == 6 else m
        if n < m: n = m
        A = w.tensor('A', (6, n))
        b = w.tensor('b', (6,))
        U, D, V = t.linalg.svd(A)
        Um, Vm = U[:, :m], V[:m]
        dq = Vm.T @ ((D / (D * D + mu)) * (Um.T @ b))
        w.near('normal equations', ((A.T @ A @ dq + mu * dq) - A.T @ b).abs().max().item(), 0, 1e-6 * (1 + A.abs().max().item()) ** 3 * (1 + b.abs().max().item()))
        return
    n = w.dim('n', lo=6) if m == 6 else m
    U, D, V, b = w.tensor('U', (6, m)), w.tensor('D', (m,)), w.tensor('V', (m, n)), w.tensor('b', (6,))
    u = lambda i, k: w.at(U, i, k)
    d = lambda k: w.at(D, k)
    v = lambda k, c: w.at(V, k, c)
    z = [S._sum(u(i, k) * w.at(b, i) for i in range(6)) for k in range(m)]
    p = [tm.app('p', (k,)) for k in range(m)]           # p_k = D_k z_k / (D_k^2 + mu)
    UU = [[tm.app('uu', (k, l)) for l in range(m)] for k in range(m)]
    dq = lambda c: S._sum(v(k, c) * p[k] for k in range(m))
    G = lambda k, l: w.sum(n, lambda c: v(k, c) * v(l, c))
    # step 1: V dq = (V V^T) p = p
    for l in range(m):
        w.same('V dq = (V V^T) p', w.sum(n, lambda c: v(l, c) * dq(c)), S._sum(G(l, k) * p[k] for k in range(m)))
    # step 2: A dq = U D (V dq), for every row
    for i in range(6):
        w.same('A dq = U D (V dq)', w.sum(n, lambda c: S._sum(u(i, k) * d(k) * v(k, c) for k in range(m)) * dq(c)),
               S._sum(u(i, k) * d(k) * w.sum(n, lambda c: v(k, c) * dq(c)) for k in range(m)))
    # step 3: with V dq = p:  A^T (U D p) = V^T D (U^T U) D p
    for c, in w.idx((n,)):
        L = S._sum(S._sum(u(i, k) * d(k) * v(k, c) for k in range(m)) * S._sum(u(i, l) * d(l) * p[l] for l in range(m)) for i in range(6))
        w.same('A^T U D p = V^T D (U^T U) D p', L, S._sum(v(k, c) * d(k) * S._sum(u(i, k) * u(i, l) for i in range(6)) * d(l) * p[l] for k in range(m) for l in range(m)))
        # step 4: with U^T U = I and (D_k^2 + mu) p_k = D_k z_k:  V^T D^2 p + mu dq = V^T D z = A^T b
        w.same('A^T b = V^T D z', S._sum(S._sum(u(i, k) * d(k) * v(k, c) for k in range(m)) * w.at(b, i) for i in range(6)), S._sum(v(k, c) * d(k) * z[k] for k in range(m)))
        q = [d(k) * z[k] / (d(k) * d(k) + mu) for k in range(m)]
        w.same('V^T D^2 p + mu V^T p = V^T D z', S._sum(v(k, c) * (d(k) * d(k) * q[k] + mu * q[k]) for k in range(m)), S._sum(v(k, c) * d(k) * z[k] for k in range(m)))


# ------------------------------------------------------------------ C16: limits
class Limits:
    """arbitrary joint limits: each joint has a lower limit or not, an upper limit or not"""

    def __init__(self, w, n, dtype=None):
        t = w.torch
        self.w, self.n = w, n
        dt = dtype or t.float64
        self.hl, self.hh = w.tensor('haslow', (n,), dtype=t.bool), w.tensor('hashigh', (n,), dtype=t.bool)
        L = w.tensor('low', (n,), dtype=dt)
        W = w.tensor('width', (n,), dtype=dt, lo=0)
        inf = tm.INF if w.symbolic else float('inf')
        ninf = tm.NINF if w.symbolic else float('-inf')
        self.L = lambda c: w.at(L, c)
        self.H = lambda c: w.at(L, c) + w.at(W, c)
        self.low = w.make((n,), lambda c: ite(w.at(self.hl, c), self.L(c), ninf), dtype=dt)
        self.high = w.make((n,), lambda c: ite(w.at(self.hh, c), self.H(c), inf), dtype=dt)
        if w.symbolic: w.assume(w.all((n,), lambda c: tm.le(tm.ZERO, tm.app('width', (c,)))))

    def above(self, c, x): return implies(self.w.at(self.hl, c), x >= self.L(c))
    def below(self, c, x): return implies(self.w.at(self.hh, c), x <= self.H(c))
    def inside(self, c, x): return land(self.above(c, x), self.below(c, x))


class StubObj:
    """an object with the fields a method reads; methods come from the real class"""

    def __init__(self, cls, fields):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_f', fields)

    def __getattr__(self, n):
        f = object.__getattribute__(self, '_f')
        if n in f: return f[n]
        cls = object.__getattribute__(self, '_cls')
        for k in getattr(cls, '__mro__', ()):
            if n in k.__dict__:
                m = k.__dict__[n]
                if isinstance(m, staticmethod): return m.__func__
                if callable(m): return m.__get__(self)
                if isinstance(m, property): return m.fget(self)
                return m
        raise Unsupported('field %s of the object under contract' % n)

    def __setattr__(self, n, v): self._f[n] = v


def obj(w, mod, cls, fields):
    """the object: a real instance without its constructor in the concrete world"""
    C = w.fn(mod, cls)
    if w.symbolic: return StubObj(C, fields)
    o = object.__new__(C)
    for k, v in fields.items():
        try: setattr(o, k, v)
        except AttributeError: object.__setattr__(o, k, v)
    return o


@contract(('C16', 'C03', 'C21'), budget=60)
def chain_clamp(w):
    """Chain.clamp: every joint lands inside its own limits, what was inside is unchanged, one-sided and missing limits included;
    any number of rows and joints"""
    B, n = w.dim('B'), w.dim('n')
    L = Limits(w, n)
    r = w.choose('rank', [1, 2])
    th = w.tensor('th', (n,) if r == 1 else (B, n))
    ch = obj(w, 'chain', 'Chain', dict(low=L.low, high=L.high, n_joints=n, dtype=w.torch.float64, device='cpu'))
    out = ch.clamp(th)
    w.shape('shape', out, th.shape)
    for ix in w.idx(th.shape):
        c = ix[-1]
        x, y = w.at(th, *ix), w.at(out, *ix)
        w.check('inside the limits', L.inside(c, y))
        w.check('unchanged inside', implies(L.inside(c, x), feq(x, y)))
        w.check('nearest limit', lor(feq(x, y), land(w.at(L.hl, c), feq(y, L.L(c))), land(w.at(L.hh, c), feq(y, L.H(c)))))
    w.unchanged('argument unchanged', th, 'th')


@contract('C16', budget=60)
def joint_clamp(w):
    """Joint.clamp with limits, and without"""
    J = w.fn('frame', 'Joint')
    lim = w.choose('limits', ['none', 'given'])
    lo = w.real('lo')
    wd = w.real('wd', lo=0)
    B = w.dim('B')
    j = J('j', joint_type='revolute', limits=None if lim == 'none' else (lo, lo + wd))
    th = w.tensor('th', (B,))
    y = j.clamp(th)
    for b, in w.idx((B,)):
        x, z = w.at(th, b), w.at(y, b)
        if lim == 'none': w.same('unchanged', x, z)
        else:
            w.check('inside', land(lo <= z, z <= lo + wd))
            w.check('unchanged inside', implies(land(lo <= x, x <= lo + wd), feq(x, z)))


def floor(x):
    import math
    return tm.fn('floor', R(x)) if type(x) is tm.T else math.floor(x + 1e-9)


@contract(('C16', 'C03', 'C21'), budget=60)
def wrap_revolute_joints(w):
    """wrapping changes revolute joints only, by whole turns, never away from the valid range: with two limits the result is the representative
    nearest the middle of the range; with one limit (or none) values inside stay and values outside move inside by the fewest turns"""
    B, n = w.dim('B'), w.dim('n')
    L = Limits(w, n)
    t = w.torch
    rev = w.tensor('rev', (n,), dtype=t.bool)
    q = w.tensor('q', (B, n))
    ik = obj(w, IK, 'PseudoInverseIK', dict(chain=obj(w, 'chain', 'SerialChain', dict(low=L.low, high=L.high)), _revolute_mask=rev, dof=n))
    out = ik._wrap_revolute_joints(q)
    w.shape('shape', out, (B, n))
    P2 = 2 * pi()
    e = 0 if w.symbolic else 1e-9
    for b, c in w.idx((B, n)):
        x, y = w.at(q, b, c), w.at(out, b, c)
        r = w.at(rev, c)
        hl, hh = w.at(L.hl, c), w.at(L.hh, c)
        w.check('other joints unchanged', implies(lnot(r), feq(x, y)))
        mid = (L.L(c) + L.H(c)) / 2
        w.check('nearest the middle', implies(land(r, hl, hh), absv(y - mid) <= P2 / 2 + e))
        w.check('inside stays', implies(land(lnot(land(hl, hh)), L.inside(c, x)), feq(x, y)))
        w.check('from below', implies(land(r, hl, lnot(hh), x < L.L(c)), land(y >= L.L(c) - e, y < L.L(c) + P2 + e)))
        w.check('from above', implies(land(r, hh, lnot(hl), x > L.H(c)), land(y <= L.H(c) + e, y > L.H(c) - P2 - e)))
        if bool(r) and not (bool(hl) and bool(hh)): bool(x < L.L(c)), bool(x > L.H(c))     # case distinction
        k = (y - x) / P2
        w.check('whole turns', feq(floor(k), k) if w.symbolic else abs(k - round(k)) < 1e-6)
    w.unchanged('argument unchanged', q, 'q')


# ------------------------------------------------------------------ C15: convergence bookkeeping
def norm3(w, v): return sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def solution(w, M, Rn, n, pt, rt, dt):
    """an IKSolution made by its constructor and then put into an arbitrary state"""
    t = w.torch
    sol = w.fn(IK, 'IKSolution')(n, M, Rn, pt, rt, device='cpu', dtype=dt)
    w.shape('solutions', sol.solutions, (M, Rn, n))
    for nm in ('err_pos', 'err_rot', 'converged', 'converged_pos', 'converged_rot'): w.shape(nm, getattr(sol, nm), (M, Rn))
    for nm in ('remaining', 'converged_any'): w.shape(nm, getattr(sol, nm), (M,))
    w.true('dtype', sol.solutions.dtype == dt and sol.err_pos.dtype == dt)
    for p, r in w.idx((M, Rn)):
        w.check('nothing converged at first', lnot(w.at(sol.converged, p, r)))
        w.check('no problem converged at first', lnot(w.at(sol.converged_any, p)))
        w.check('all problems remain at first', w.at(sol.remaining, p))
    return sol


def arbitrary_state(w, sol, M, Rn, n, dt):
    t = w.torch
    sol.solutions = w.tensor('sol', (M, Rn, n), dtype=dt)
    sol.err_pos = w.tensor('ep', (M, Rn), dtype=dt)
    sol.err_rot = w.tensor('er', (M, Rn), dtype=dt)
    sol.converged = w.tensor('cv', (M, Rn), dtype=t.bool)
    sol.converged_pos = w.tensor('cp', (M, Rn), dtype=t.bool)
    sol.converged_rot = w.tensor('cr', (M, Rn), dtype=t.bool)
    sol.remaining = w.tensor('rem', (M,), dtype=t.bool)
    any0 = w.tensor('any0', (M,), dtype=t.bool)
    sol.converged_any = any0
    return any0


@contract(('C15', 'C03', 'C21'), budget=60)
def ik_solution_update(w):
    """IKSolution.update, from any state: an attempt already converged keeps its values and errors; any other takes the given values and the norms
    of the given errors; converged becomes (converged or both errors below tolerance); the per-problem flags and the remaining problems follow;
    any number of problems, attempts and joints"""
    M, Rn, n = w.dim('M'), w.dim('R'), w.dim('n')
    t = w.torch
    dt = t.float64
    pt, rt = w.real('pt', pos=True), w.real('rt', pos=True)
    sol = solution(w, M, Rn, n, pt, rt, dt)
    any0 = arbitrary_state(w, sol, M, Rn, n, dt)
    cv0, sol0, ep0, er0, rem0 = sol.converged, sol.solutions, sol.err_pos, sol.err_rot, sol.remaining
    q = w.tensor('q', (M * Rn, n), dtype=dt)
    err = w.tensor('err', (M * Rn, 6), dtype=dt)
    cv, so, ep, er, an, rm = [w.snapshot(x) for x in (cv0, sol0, ep0, er0, any0, rem0)]
    mode = w.choose('mask', ['none', 'default', 'given'])
    keep = w.tensor('keep', (M,), dtype=t.bool) if mode == 'given' else None
    ret = sol.update(q, err, use_keep_mask=mode != 'none', keep_mask=keep)
    w.shape('returned', ret, (M,))
    e = lambda p, r, k: w.at(err, p * Rn + r, k)
    en = lambda p, r: (norm3(w, [e(p, r, k) for k in (0, 1, 2)]), norm3(w, [e(p, r, k) for k in (3, 4, 5)]))
    now = lambda p, r: land(en(p, r)[0] < pt, en(p, r)[1] < rt)
    for p, r in w.idx((M, Rn)):
        old = cv(p, r)
        c1 = w.at(sol.converged, p, r)
        w.check('converged', land(implies(c1, lor(old, now(p, r))), implies(lor(old, now(p, r)), c1)))
        w.same('error kept or new', w.at(sol.err_pos, p, r), ite(old, ep(p, r), en(p, r)[0]))
        w.same('error kept or new', w.at(sol.err_rot, p, r), ite(old, er(p, r), en(p, r)[1]))
        for c, in w.idx((n,)): w.same('values kept or new', w.at(sol.solutions, p, r, c), ite(old, so(p, r, c), w.at(q, p * Rn + r, c)))
    for p, in w.idx((M,)):
        new = w.exists((Rn,), lambda r: now(p, r))
        a1 = w.at(sol.converged_any, p)
        w.lemma('returned flag', implies(w.at(ret, p), new))
        w.lemma('returned flag', implies(new, w.at(ret, p)))
        an_, new_ = bool(an(p)), bool(w.at(ret, p))       # case distinction; the returned flag is `new` by the lemmas
        new = w.at(ret, p)
        w.check('flag of the problem', land(implies(a1, lor(an(p), new)), implies(lor(an(p), new), a1)))
        k = True if mode == 'none' else (w.at(keep, p) if mode == 'given' else lnot(new))
        r1 = w.at(sol.remaining, p)
        w.check('remaining', land(implies(r1, land(rm(p), k)), implies(land(rm(p), k), r1)))
    w.unchanged('values given', q, 'q')
    w.unchanged('errors given', err, 'err')


def set_local(fr, **kw):
    """replace local variables of a running frame"""
    l = fr.f_locals
    for k, v in kw.items(): l[k] = v
    if hasattr(ctypes.pythonapi, 'PyFrame_LocalsToFast'): ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(fr), ctypes.c_int(0))


_trees = {}


def loop_assigned(fr):
    """names of local variables assigned in the body of the for loop the frame is at"""
    f = fr.f_code.co_filename
    if f not in _trees:
        try: _trees[f] = ast.parse(open(f).read())
        except OSError: raise Unsupported('source of the loop')
    best = None
    for x in ast.walk(_trees[f]):
        if isinstance(x, ast.For) and x.lineno <= fr.f_lineno <= x.end_lineno and (best is None or x.lineno >= best.lineno): best = x
    if best is None: raise Unsupported('loop not found in the source')
    return {y.id for s in best.body for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}


class Solve:
    """PseudoInverseIK.solve on stand-ins: the Jacobian/pose function and the step function are represented by their contracts (C05, C17):
    pose and error are some functions of the joint values and the target; the error returned for joint values q is E_k(row), the pose error of q"""

    def __init__(self, w, opts):
        t = w.torch
        self.w = w
        self.M, self.R, self.n = w.dim('M'), w.dim('R'), w.dim('n')
        M, Rn, n = self.M, self.R, self.n
        self.NM = tm.imul(M, Rn)
        self.dt = dt = t.float64
        self.pt, self.rt = w.real('pt', pos=True), w.real('rt', pos=True)
        self.iters = w.dim('iters', lo=0)
        self.nref = w.dim('nref', lo=0)
        self.L = L = Limits(w, n)
        self.rev = w.tensor('rev', (n,), dtype=t.bool)
        self.target = w.tensor('target', (M, 4, 4), dtype=dt)
        self.init = w.tensor('init', {'shared': (Rn, n), 'each': (M, Rn, n), 'one': (n,)}[opts['init']], dtype=dt)
        self.opts = opts
        self.evals = []
        self.sol = None
        self.phase = 'before'
        me = self
        w.callee(RC, 'matrix_to_quaternion', self.m2q)
        chain = obj(w, 'chain', 'SerialChain', dict(low=L.low, high=L.high))

        class LineSearch:
            def do_line_search(self, *a, **k):
                me.lr = 'lr%d' % me.fresh()
                return w.tensor(me.lr, (me.NM,), dtype=dt), w.tensor('imp%d' % me.fresh(), (M,), dtype=dt)
        f = dict(chain=chain, dof=n, num_retries=Rn, pos_tolerance=self.pt, rot_tolerance=self.rt, device='cpu', dtype=dt, initial_config=self.init,
                 debug=False, max_iterations=self.iters, early_stopping_any_converged=opts['any'], early_stopping_no_improvement=opts['stop'],
                 early_stopping_no_improvement_patience=2, line_search=LineSearch() if opts['ls'] else None, lr=0.2, lm_damping=0.1,
                 _reg_matrix=w.tensor('reg', (6, 6), dtype=dt), _task_weight=w.tensor('wt', (6,), dtype=dt), clamp_to_limits=opts['clamp'],
                 enforce_joint_limits=opts['enforce'], num_limit_refinement_iterations=self.nref, _revolute_mask=self.rev,
                 _jacobian_fn=self.jacobian, _ik_step_fn=self.step, _fk_fn=None, _eef_frame_idx=0, regularlization=1e-9,
                 err=None, err_all=None, err_min=None, no_improve_counter=None, use_compile=getattr(w, 'compiled', False), _use_compile=getattr(w, 'compiled', False))
        if opts['enforce']: f['_wrap_revolute_joints'] = self.wrap
        self.wrapped = self.lr = self.dq = None
        self.ik = obj(w, IK, 'PseudoInverseIK', f)
        self.f = f
        self.versions = {id(x): x._root().st.version for x in (L.low, L.high)}
        self.count = 0
        w.loop(self.loop)

    def fresh(self):
        self.count += 1
        return self.count

    # ---- callees
    def m2q(self, m):
        w = self.w
        rd = m._reader()
        w.shape('precondition: rotation of the targets', m, (self.M, 3, 3))
        for p, in w.idx((self.M,)):
            for i in range(3):
                for j in range(3): w.same('precondition: rotation of the targets', rd((p, i, j)), tm.app('target', (p, i, j)))
        return w.make((self.M, 4), lambda p, k: tm.app('tq', (p, k)), dtype=self.dt)

    def jacobian(self, th, ret_eef_pose=False, *a, **kw):
        w = self.w
        if a or kw: raise Unsupported('arguments of the Jacobian function')
        w.shape('precondition: joint values', th, (self.NM, self.n))
        k = len(self.evals)
        self.evals.append((th._reader(), 'enforced' if self.wrapped else self.phase))
        J = w.make((self.NM, 6, self.n), lambda *i: tm.app('J%d' % k, i), dtype=self.dt)
        m = w.make((self.NM, 4, 4), lambda *i: tm.app('pose%d' % k, i), dtype=self.dt)
        return (J, m) if ret_eef_pose else J

    def step(self, m_flat, target_pos, target_wxyz, J, reg_matrix, num_retries, lm_damping=0.0, task_weight=None):
        w = self.w
        rm, rp, rq = m_flat._reader(), target_pos._reader(), target_wxyz._reader()
        w.check('precondition: attempts per problem', tm.ieq(num_retries, self.R))
        w.true('configured damping', lm_damping == 0.1)
        if task_weight is None: raise Unsupported('weights of the step')
        rr, rw = reg_matrix._reader(), task_weight._reader()
        for i in range(6):
            w.same('configured weight', rw((i,)), tm.app('wt', (i,)))
            for j in range(6): w.same('configured regularization', rr((i, j)), tm.app('reg', (i, j)))
        w.shape('precondition: targets', target_pos, (self.M, 3))
        w.shape('precondition: target quaternions', target_wxyz, (self.M, 4))
        for p, in w.idx((self.M,)):
            for i in range(3): w.same('precondition: target position', rp((p, i)), tm.app('target', (p, i, 3)))
            for i in range(4): w.same('precondition: target orientation', rq((p, i)), tm.app('tq', (p, i)))
        k = None
        for r, in w.idx((self.NM,)):
            x = rm((r, 0, 3))
            for kk in range(len(self.evals)):
                if x is tm.app('pose%d' % kk, (r, 0, 3)): k = kk
            if k is None: raise Unsupported('pose given to the step function')
            for i in range(3):
                for j in range(4): w.same('precondition: pose of the joint values', rm((r, i, j)), tm.app('pose%d' % k, (r, i, j)))
        c = self.fresh()
        self.dq = (k, 'dq%d' % c)
        dq = w.make((self.NM, self.n, 1), lambda *i: tm.app('dq%d' % c, i), dtype=self.dt)
        dx = w.make((self.NM, 6, 1), lambda r, j, z: tm.app('E%d' % k, (r, j)), dtype=self.dt)
        return dq, dx

    def wrap(self, q):
        """by contract (wrap_revolute_joints); turning revolute joints by whole turns leaves pose and error as they are (fk_kernel)"""
        w = self.w
        if self.wrapped: raise Unsupported('wrapping twice')
        w.shape('precondition: values to wrap', q, (self.NM, self.n))
        rd = q._reader()
        for p, r in w.idx((self.M, self.R)):
            for c, in w.idx((self.n,)): w.same('precondition: the reported values are wrapped', rd((self.row(p, r), c)), w.at(self.sol.solutions, p, r, c))
        self.wrapped = (w.snapshot(self.sol.converged), w.snapshot(self.sol.err_pos), w.snapshot(self.sol.err_rot))
        return w.make((self.NM, self.n), lambda *i: tm.app('qw', i), dtype=self.dt)

    def norms(self, k, r):
        e = [tm.app('E%d' % k, (r, j)) for j in range(6)]
        return norm3(self.w, e[:3]), norm3(self.w, e[3:])

    def Es(self, p, r):
        e = [tm.app('Es', (p, r, j)) for j in range(6)]
        return norm3(self.w, e[:3]), norm3(self.w, e[3:])

    # ---- loops
    def loop(self, rng, fr):
        if rng.hi is self.iters: return self.main(rng, fr)
        if rng.hi is self.nref: return self.refine(rng, fr)
        return None

    def havoc_locals(self, fr, shape, make):
        w = self.w
        self.carried = []
        for nm in sorted(loop_assigned(fr)):
            l = fr.f_locals
            if nm not in l: continue
            v = l[nm]
            if getattr(v, '_sym_tensor', False) and len(v.shape) == 2 and all(a is b or a == b for a, b in zip(v.shape, shape)):
                set_local(fr, **{nm: make(nm)})
                self.carried.append(nm)
            elif getattr(v, '_sym_tensor', False) or isinstance(v, (list, dict, int, float, bool)) and not isinstance(v, type(None)):
                if nm == '_': continue
                raise Unsupported('loop variable %s' % nm)

    def main(self, rng, fr):
        w = self.w
        sols = [v for v in fr.f_locals.values() if type(v).__name__ == 'IKSolution']
        if len(sols) != 1: raise Unsupported('solution object in the loop')
        self.sol = sol = sols[0]
        M, Rn, n, dt = self.M, self.R, self.n, self.dt
        w.true('tolerances of the solution object', sol.pos_tolerance is self.pt and sol.rot_tolerance is self.rt)
        for p, r in w.idx((M, Rn)): w.check('nothing converged at entry', lnot(w.at(sol.converged, p, r)))
        for p, in w.idx((M,)): w.check('flag clear at entry', lnot(w.at(sol.converged_any, p)))
        which = w.choose('loop', ['iteration', 'exit'])
        o = self.opts
        # what the rest of the path does not depend on is fixed
        if which == 'exit' and (o['ls'] or o['clamp'] or o['init'] != 'each') or which == 'iteration' and (o['enforce'] or o['init'] != 'each'): raise Stop()
        # an arbitrary state in which every converged attempt is good
        cv = w.tensor('cv', (M, Rn), dtype=w.torch.bool)
        sol.converged = cv
        sol.converged_pos = w.tensor('cp', (M, Rn), dtype=w.torch.bool)
        sol.converged_rot = w.tensor('cr', (M, Rn), dtype=w.torch.bool)
        sol.solutions = w.tensor('sol', (M, Rn, n), dtype=dt)
        sol.err_pos = w.make((M, Rn), lambda p, r: ite(tm.bapp('cv', (p, r)), self.Es(p, r)[0], tm.app('ep', (p, r))), dtype=dt)
        sol.err_rot = w.make((M, Rn), lambda p, r: ite(tm.bapp('cv', (p, r)), self.Es(p, r)[1], tm.app('er', (p, r))), dtype=dt)
        sol.converged_any = w.make((M,), lambda p: w.exists((Rn,), lambda r: tm.bapp('cv', (p, r))), dtype=w.torch.bool)
        sol.remaining = w.tensor('rem', (M,), dtype=w.torch.bool)
        sol.iterations = 0
        w.assume(w.all((M, Rn), lambda p, r: implies(tm.bapp('cv', (p, r)), land(self.Es(p, r)[0] < self.pt, self.Es(p, r)[1] < self.rt))))
        self.havoc_locals(fr, (self.NM, n), lambda nm: w.tensor('loc_' + nm, (self.NM, n), dtype=dt))
        f = self.f
        f['err'] = w.tensor('err0', (M, Rn), dtype=dt); f['err_all'] = w.tensor('err_all0', (self.NM, 6), dtype=dt)
        if f['early_stopping_no_improvement'] is not None and w.choose('counter', ['none', 'some']) == 'some':
            f['no_improve_counter'] = w.tensor('nic', (M, Rn), dtype=dt); f['err_min'] = w.tensor('emin', (M, Rn), dtype=dt)
        if which == 'exit':
            self.phase = 'after'
            return
        d = tm.ivar('it', 0, self.iters)
        self.phase = 'loop'
        before = {k: id(v) for k, v in f.items()}
        try: yield d
        except GeneratorExit:       # break
            self.phase = 'after'
            raise
        for k, v in f.items():
            if before.get(k) != id(v) and k not in ('err', 'err_all', 'err_min', 'no_improve_counter'): raise Unsupported('state %s carried by the loop' % k)
        self.frame()
        self.stepped(fr)
        self.good('preserved', False)
        raise Stop()

    def stepped(self, fr):
        """one iteration moves the joint values by the step length times the step of these values, then (if asked) into the limits"""
        w = self.w
        if self.dq is None or not self.carried: raise Unsupported('step taken in the loop')
        k, dq = self.dq
        part = w.choose('step', ['step', 'rest'])
        if part == 'rest': return
        for r, c in w.idx((self.NM, self.n)):
            was = self.evals[k][0]((r, c))
            nm = next((x for x in self.carried if was is tm.app('loc_' + x, (r, c))), None)
            if nm is None: raise Unsupported('joint values of the step')
            now = w.at(fr.f_locals[nm], r, c)
            ln = tm.app(self.lr, (r,)) if self.opts['ls'] and self.lr else R(0.2)
            to = was + ln * tm.app(dq, (r, c, 0))
            if self.opts['clamp']:
                L = self.L
                w.check('a clamped step ends inside the limits', L.inside(c, now))
                to = ite(land(w.at(L.hl, c), to < L.L(c)), L.L(c), to)
                to = ite(land(w.at(L.hh, c), to > L.H(c)), L.H(c), to)
            w.same('the step is taken', now, to)
        raise Stop()

    def refine(self, rng, fr):
        w = self.w
        inside = lambda T: [w.check('inside the limits', self.L.inside(c, w.at(T, r, c))) for r, c in w.idx((self.NM, self.n))]
        cand = [nm for nm in sorted(loop_assigned(fr)) if nm in fr.f_locals and getattr(fr.f_locals[nm], '_sym_tensor', False)]
        if len(cand) != 1: raise Unsupported('refinement loop')
        inside(fr.f_locals[cand[0]])
        which = w.choose('refinement loop', ['iteration', 'exit'])
        k = self.fresh()
        x = w.tensor('ref%d' % k, (self.NM, self.n), dtype=self.dt)
        w.assume(w.all((self.NM, self.n), lambda r, c: self.L.inside(c, tm.app('ref%d' % k, (r, c)))))
        set_local(fr, **{cand[0]: x})
        if which == 'exit': return
        yield tm.ivar('rit', 0, self.nref)
        inside(fr.f_locals[cand[0]])
        self.frame()
        raise Stop()

    def frame(self):
        """what was given is as it was given"""
        w, f = self.w, self.f
        w.unchanged('initial joint values unchanged', self.init, 'init')
        w.unchanged('targets unchanged', self.target, 'target')
        for k in ('_reg_matrix', '_task_weight', '_revolute_mask'):
            if f[k]._root().st.version: raise Unsupported('loop frame condition: %s written' % k)
        for x in (self.L.low, self.L.high):
            if x._root().st.version != self.versions[id(x)]: raise Unsupported('loop frame condition: limits written')

    # ---- what is checked of the solution object
    def row(self, p, r): return tm.iadd(tm.imul(p, self.R), r)

    def good(self, label, final):
        """every converged attempt (in the end: every attempt) reports errors that are those of its reported values, within the tolerances if
        converged; what was found is kept; the flag of a problem is that of its attempts"""
        w, sol = self.w, self.sol
        n = self.n
        part = w.choose('part', ['attempts', 'flags'] + (['kept'] if self.wrapped else []))
        for p, r in w.idx((self.M, self.R)) if part != 'flags' else ():
            if part == 'kept':
                self.restored(label, p, r, self.row(p, r), w.at(sol.converged, p, r))
                continue
            cv = bool(tm.bapp('cv', (p, r))) and not self.wrapped       # case distinction: converged before
            c1 = w.at(sol.converged, p, r)
            rw = self.row(p, r)
            E, X = self.source(p, r, rw, cv)
            ep, er = w.at(sol.err_pos, p, r), w.at(sol.err_rot, p, r)
            pre = True if final else c1
            for c, in w.idx((n,)):
                x = w.at(sol.solutions, p, r, c)
                w.check(label + ': errors belong to the reported values', implies(pre, feq(x, X(c))))
                if self.wrapped: w.check(label + ': inside the limits', self.L.inside(c, x))
            w.check(label + ': position error of the reported values', implies(pre, feq(ep, E[0])))
            w.check(label + ': rotation error of the reported values', implies(pre, feq(er, E[1])))
            w.check(label + ': no false convergence', implies(c1, land(E[0] < self.pt, E[1] < self.rt)))
            if cv: w.check(label + ': a solution found earlier is not lost', c1)
            for k in range(len(self.evals)):
                if self.wrapped and self.evals[k][1] != 'enforced': continue
                e = self.norms(k, rw)
                if final and not self.wrapped: w.check(label + ': a solution found is reported', implies(land(e[0] < self.pt, e[1] < self.rt), c1))
        for p, in w.idx((self.M,)) if part == 'flags' else ():
            bool(w.exists((self.R,), lambda r: tm.bapp('cv', (p, r)))) and w.at(sol.converged_any, p)
            a = bool(w.at(sol.converged_any, p))
            if a: w.check(label + ': problem flag only with a converged attempt', w.exists((self.R,), lambda r: w.at(sol.converged, p, r)))
            else:
                for r, in w.idx((self.R,)): w.check(label + ': problem flag for every converged attempt', lnot(w.at(sol.converged, p, r)))

    def restored(self, label, p, r, rw, c1):
        """limit enforcement: an attempt that was converged with values inside the limits (after wrapping) stays converged.  Errors are a function
        of the joint values: an evaluation at exactly the wrapped values gives the errors reported before"""
        w = self.w
        cv0, ep0, er0 = [f(p, r) for f in self.wrapped]
        qw = lambda c: tm.app('qw', (rw, c))
        pre = land(cv0, w.all((self.n,), lambda c: self.L.inside(c, qw(c))))
        if not bool(pre): return
        w.assume(land(ep0 < self.pt, er0 < self.rt))       # proved where the solution object was updated before
        for k, (rd, ph) in enumerate(self.evals):
            if ph != 'enforced': continue
            if bool(w.all((self.n,), lambda c: feq(rd((rw, c)), qw(c)))):
                e = self.norms(k, rw)
                w.assume(land(feq(e[0], ep0), feq(e[1], er0)))
        w.check(label + ': a solution inside the limits is not lost', c1)

    def source(self, p, r, rw, cv):
        """(errors, values) of the evaluation the reported row comes from"""
        w, sol = self.w, self.sol
        if cv: return self.Es(p, r), lambda c: tm.app('sol', (p, r, c))
        for _ in range(6):
            t = w.facts.simp(R(w.at(sol.err_pos, p, r)))
            x = next((x for x in tm.subterms(t) if x.op == 'ite'), None)
            if x is None: break
            bool(x.args[0])         # case distinction
        k = len(self.evals) - 1
        names = {x.args[0] for x in tm.subterms(t) if x.op == 'app'}
        for j in range(len(self.evals)):
            if 'E%d' % j in names: k = j
        return self.norms(k, rw), lambda c: self.evals[k][0]((rw, c))


def end_to_end(w, stop):
    """the real solver on an arbitrary robot, arbitrary limits and options"""
    from contracts import robots as rb
    from contracts.kinematics import random_serial
    t, r = w.torch, w.rng
    root, top, leaf = random_serial(w, 2)
    path = leaf.path(top)
    ds = [d for d in path[1:] if d.kind != 'fixed']
    if not ds or len(ds) > 10: raise Reject()
    lim = w.choose('limits', ['none', 'two', 'mixed', 'narrow'])
    for d in ds:
        lo, wd = r.gauss(0, 2), abs(r.gauss(0, 2)) + (0 if lim == 'narrow' else 1)
        if lim != 'none':
            k = r.choice(['both', 'low', 'high', 'none']) if lim == 'mixed' else 'both'
            d.limits = {'both': (lo, lo + wd), 'low': (lo, float('inf')), 'high': (float('-inf'), lo), 'none': None}[k]
    L = lambda d: d.limits or (float('-inf'), float('inf'))
    ch = rb.build_chain(w, root)
    sc = w.fn('chain', 'SerialChain')(ch, leaf.name, top.name)
    names = list(sc.get_joint_parameter_names())
    by = {d.joint_name: d for d in ds}
    N, M = w.dim('M'), w.dim('R')
    n = len(ds)

    goal = w.choose('goals', ['inside', 'inside', 'anywhere'])

    def inside():
        x = [r.gauss(0, 1.5) for nm in names]
        return x if goal == 'anywhere' else [min(max(v, L(by[nm])[0]), L(by[nm])[1]) for v, nm in zip(x, names)]
    kind = w.choose('seeds', ['far', 'near', 'exact'])
    goals = [inside() for _ in range(N)]
    T = w.make((N, 4, 4), lambda p, i, j: float(rb.pose_of(leaf, dict(zip(names, goals[p])), top)[i][j]))
    exact = {}
    per = kind == 'exact' or r.random() < 0.4
    init = t.randn(*((N, M, n) if per else (M, n)), dtype=t.float64) * 2
    if kind == 'near': init = init * 0.05 + t.tensor(goals[0], dtype=t.float64)
    if kind == 'exact':
        for p in range(N):
            exact[p] = r.randrange(M)
            init[p, exact[p]] = t.tensor(goals[p], dtype=t.float64)
    seeds = init.clone()
    enforce = w.choose('enforce', [False, True])
    clamp = w.choose('clamp', [False, False, True])
    pt, rt = r.choice([1e-3, 1e-2, 0.3]), r.choice([1e-2, 1e-1, 0.5])
    ls = w.fn(IK, 'BacktrackingLineSearch')() if w.choose('line search', [False, False, True]) else None
    C = w.fn(IK, w.choose('class', ['PseudoInverseIK', 'PseudoInverseIKWithSVD']))
    ik = C(sc, pos_tolerance=pt, rot_tolerance=rt, retry_configs=init.reshape(M, n) if not per else init, max_iterations=r.choice([0, 1, 2, 5, 30]), lr=r.choice([1.0, 0.5, 0.2]),
           line_search=ls, early_stopping_any_converged=r.random() < 0.5, early_stopping_no_improvement=stop, early_stopping_no_improvement_patience=r.choice([0, 1, 2]),
           enforce_joint_limits=enforce, num_limit_refinement_iterations=r.choice([0, 1, 5]), clamp_to_limits=clamp, position_weight=r.choice([1.0, 2.0]),
           orientation_weight=r.choice([1.0, 0.5]))
    target = w.module('transforms').Transform3d(matrix=T)
    if not per and r.random() < 0.3:
        # solvers are used again, with any number of targets
        T2 = w.module('transforms').Transform3d(matrix=T[[r.randrange(N) for _ in range(r.choice([1, 2, N + 1, N + 3]))]])
        w.shape('solutions of other targets', ik.solve(T2).solutions, (len(T2), M, n))
    sols = [ik.solve(target)]
    if r.random() < 0.3: sols.append(ik.solve(target))
    for sol in sols:
        w.shape('solutions', sol.solutions, (N, M, n))
        for p in range(N):
            w.check('flag of the problem', w.at(sol.converged_any, p) == any(w.at(sol.converged, p, k) for k in range(M)))
            for k in range(M):
                q = [w.at(sol.solutions, p, k, c) for c in range(n)]
                E = rb.pose_of(leaf, dict(zip(names, q)), top)
                ep = S.norm([float(T[p, i, 3]) - E[i][3] for i in range(3)])
                D = S.matmul([list(map(float, x[:3])) for x in T[p, :3].tolist()], S.transpose([x[:3] for x in E[:3]]))
                s3 = S.norm([D[2][1] - D[1][2], D[0][2] - D[2][0], D[1][0] - D[0][1]])
                er = atan2(s3, D[0][0] + D[1][1] + D[2][2] - 1)
                w.near('position error is that of the reported values', w.at(sol.err_pos, p, k), ep, 1e-6 * (1 + abs(ep)))
                w.near('rotation error is that of the reported values', w.at(sol.err_rot, p, k), er, 1e-4)
                c1 = w.at(sol.converged, p, k)
                if c1: w.check('no false convergence', ep < pt + 1e-6 and er < rt + 1e-6)
                else: w.check('a solution is reported', ep > pt - 1e-6 or er > rt - 1e-4)
                if enforce:
                    for nm, x in zip(names, q): w.check('inside the limits', L(by[nm])[0] - 1e-9 <= x <= L(by[nm])[1] + 1e-9)
                if exact.get(p) == k and (goal == 'inside' or not enforce and not clamp): w.check('a solution found earlier is not lost', c1)
                if clamp and any(math.isfinite(L(by[nm])[0]) for nm in names):
                    seed = seeds[p, k] if per else seeds[k]
                    if any(abs(x - float(s)) > 1e-12 for x, s in zip(q, seed)):
                        for nm, x in zip(names, q): w.check('a clamped step ends inside the limits', L(by[nm])[0] - 1e-9 <= x <= L(by[nm])[1] + 1e-9)
    w.true('seeds unchanged', t.equal(init, seeds))
    w.true('targets unchanged', t.equal(target.get_matrix(), T))
    for nm in ('solutions', 'err_pos', 'err_rot', 'converged'):
        if len(sols) > 1: w.true('the same again', t.equal(getattr(sols[0], nm), getattr(sols[1], nm)))


def solve_contract(name, stop):
    def f(w):
        """PseudoInverseIK.solve for every number of iterations (loop invariant), problems, attempts, joints: whatever the options, an attempt
        reported as converged has the errors of its reported values, both within tolerance; a solution found is kept and reported; the flag of a
        problem is true exactly when one of its attempts converged; with limit enforcement every value is inside its joint's limits and solutions
        inside them are kept"""
        if w.concrete: return end_to_end(w, stop)
        opts = dict(stop=stop, any=False, ls=False, clamp=False, enforce=False, init=w.choose('init', ['each', 'shared', 'one']))
        if opts['init'] == 'each':
            opts['any'] = w.choose('any', [False, True])
            opts['ls'], opts['clamp'], opts['enforce'] = w.choose('options', [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1)])
        G = Solve(w, opts)
        T = type('Target', (), dict(get_matrix=lambda self: G.target))()
        sol = G.ik.solve(T)
        G.sol = sol
        G.good('returned', True)
        G.frame()
    f.__name__ = name
    f.__qualname__ = name
    contract(('C15', 'C16', 'C17', 'C14', 'C21') if stop == 'all' else 'C15', budget=250, weight=3, samples=40)(f)


for _n, _s in (('ik_solve', None), ('ik_solve_all', 'all'), ('ik_solve_any', 'any'), ('ik_solve_ratio', 0.5)): solve_contract(_n, _s)


@contract(('C17', 'C14', 'C16', 'C21'), bounded='construction of the solver: four chains (geometry does not matter to it); weights and regularization unbounded', samples=80, budget=60)
def ik_constructor(w):
    """the solver uses the weights, regularization, tolerances and joint types it is configured with, in the precision of the chain; concretely:
    one iteration moves the joint values by the step length times the damped least-squares step of the weighted problem, with clamping into the limits"""
    from contracts import robots as rb
    from contracts.kinematics import random_serial
    t = w.torch
    cls = w.choose('class', ['PseudoInverseIK', 'PseudoInverseIKWithSVD'])
    dt = w.choose('dtype', [t.float64, t.float32])
    if w.symbolic:
        kinds = w.choose('chain', [('fixed', 'revolute'), ('fixed', 'prismatic', 'revolute'), ('revolute', 'revolute', 'fixed', 'prismatic'), ('prismatic', 'fixed', 'revolute', 'revolute', 'prismatic')])
        root = rb.design(w, tuple(range(-1, len(kinds) - 1)), kinds)
        nodes = list(root.walk())
        leaf = nodes[-1]
        ds = [d for d in nodes[1:] if d.kind != 'fixed']
    else:
        root, top, leaf = random_serial(w, 2)
        ds = [d for d in leaf.path(top)[1:] if d.kind != 'fixed']
        if not ds: raise Reject()
    n = len(ds)
    ch = rb.build_chain(w, root, dtype=dt)
    sc = w.fn('chain', 'SerialChain')(ch, leaf.name, *(() if w.symbolic else (top.name,)))
    lam = w.real('lam', pos=True) if w.symbolic else w.choose('lam', [1e-9, 1e-3, 0.1])
    wp, wo = (w.real('wp'), w.real('wo')) if w.symbolic else (w.choose('wp', [1.0, 0.3, 2.5, 0.0]), w.choose('wo', [1.0, 0.4, 1.7, 0.0]))
    if w.concrete and not (wp and wo): lam = max(lam, 1e-3)
    M = w.dim('M')
    q0 = w.tensor('q0', (M, n), dtype=dt)
    kw = dict(retry_configs=q0, regularlization=lam, position_weight=wp, orientation_weight=wo, pos_tolerance=1e-9, rot_tolerance=1e-9)
    if w.symbolic:
        ik = w.fn(IK, cls)(sc, **kw)
        for i in range(6):
            w.same('weight', w.at(ik._task_weight, i), wp if i < 3 else wo)
            for j in range(6): w.same('regularization', w.at(ik._reg_matrix, i, j), lam if i == j else 0)
        w.true('precision', ik._task_weight.dtype == dt and ik._reg_matrix.dtype == dt and ik.initial_config.dtype == dt)
        w.true('joint count', ik.dof == n)
        for k, d in enumerate(ds): w.check('revolute joints', w.at(ik._revolute_mask, k) if d.kind == 'revolute' else lnot(w.at(ik._revolute_mask, k)))
        w.shape('initial values', ik.initial_config, (M, n))
        w.true('attempts', ik.num_retries is M or bool(tm.ieq(ik.num_retries, M)))
        w.true('tolerances', ik.pos_tolerance == 1e-9 and ik.rot_tolerance == 1e-9)
        w.unchanged('seeds', q0, 'q0')
        return
    lm = w.choose('lm', [0.0, 0.1, 2.0])
    clamp = w.choose('clamp', [False, False, True])
    if clamp:
        lo, hi = sc.low.clone(), sc.high.clone()
        for k in range(n):
            a, b = w.rng.gauss(0, 1), abs(w.rng.gauss(0, 1))
            lim = w.rng.choice(['both', 'both', 'low', 'high', 'none'])
            lo[k], hi[k] = (a if lim in ('both', 'low') else -math.inf), (a + b if lim in ('both', 'high') else math.inf)
        sc.low, sc.high = lo, hi
    ik = w.fn(IK, cls)(sc, max_iterations=1, lm_damping=lm, enforce_joint_limits=False, lr=1.0, clamp_to_limits=clamp, **kw)
    N = w.dim('N')
    lengths = None
    T = w.rotation('target', (N,), dtype=t.float64)
    tp = w.tensor('tp', (N, 3))
    H = t.eye(4, dtype=t.float64).repeat(N, 1, 1)
    H[:, :3, :3] = T; H[:, :3, 3] = tp
    tdt = w.choose('target dtype', [t.float64, t.float32])
    how = w.choose('step length', ['full', 'half', 'searched'])
    if how == 'half': ik.lr = 0.5
    if how == 'searched':
        lengths = t.rand(N * M, dtype=dt) + 0.1
        ik.line_search = type('Search', (w.fn(IK, 'LineSearch'),), dict(do_line_search=lambda self, *a, **k: (lengths.clone(), t.zeros(N, dtype=dt))))()
    sol = ik.solve(w.module('transforms').Transform3d(matrix=H.to(tdt)))
    w.true('precision of the result', sol.solutions.dtype == dt and sol.err_pos.dtype == dt and sol.err_rot.dtype == dt)
    if clamp:
        if t.isfinite(lo).any():
            for p in range(N):
                for k in range(M):
                    x = [w.at(sol.solutions, p, k, c) for c in range(n)]
                    if any(abs(a - w.at(q0, k, c)) > 0 for c, a in enumerate(x)):
                        for c, a in enumerate(x): w.check('a clamped step ends inside the limits', w.at(lo, c) <= a <= w.at(hi, c))
        return
    if dt == t.float32 or tdt == t.float32: return
    names = [d.joint_name for d in ds]
    for p in range(N):
        for k in range(M):
            q = [w.at(q0, k, c) for c in range(n)]
            E = rb.pose_of(leaf, dict(zip(names, q)), top)
            ep = [w.at(tp, p, i) - E[i][3] for i in range(3)]
            D = S.matmul([[w.at(T, p, i, j) for j in range(3)] for i in range(3)], S.transpose([x[:3] for x in E[:3]]))
            v = [(D[2][1] - D[1][2]) / 2, (D[0][2] - D[2][0]) / 2, (D[1][0] - D[0][1]) / 2]
            sn = S.norm(v)
            ang = atan2(sn, (D[0][0] + D[1][1] + D[2][2] - 1) / 2)
            if ang > 3.1 or max(abs(x) for x in ep) < 1e-8 and ang < 1e-8 or ang < 1e-3: continue      # axis ill-conditioned; converged at once
            e = ep + [x / sn * ang for x in v]
            J = []
            h = 1e-5
            for d in names:
                a, b = dict(zip(names, q)), dict(zip(names, q))
                a[d] += h; b[d] -= h
                A, B = rb.pose_of(leaf, a, top), rb.pose_of(leaf, b, top)
                V = [[(A[i][j] - B[i][j]) / (2 * h) for j in range(4)] for i in range(3)]
                X = S.matmul([x[:3] for x in V], S.transpose([x[:3] for x in E[:3]]))
                J.append([V[0][3], V[1][3], V[2][3], X[2][1], X[0][2], X[1][0]])
            wt = [wp] * 3 + [wo] * 3
            Jw = t.tensor([[wt[i] * J[c][i] for c in range(n)] for i in range(6)], dtype=t.float64)
            ew = t.tensor([wt[i] * e[i] for i in range(6)], dtype=t.float64)
            mu = lam + lm * float(ew @ ew)
            ln = 1.0 if how == 'full' else 0.5 if how == 'half' else float(lengths[p * M + k])
            dq = t.tensor([(w.at(sol.solutions, p, k, c) - q[c]) / ln for c in range(n)], dtype=t.float64)
            res = Jw.T @ (Jw @ dq) + mu * dq - Jw.T @ ew
            sc_ = float((Jw.abs().T @ (Jw.abs() @ dq.abs() + ew.abs())).max()) + mu * float(dq.abs().max()) + 1e-3
            if sc_ > 1e6: continue
            w.near('damped least-squares step', float(res.abs().max()), 0, 1e-5 * sc_)


def _drawn(): raise Unsupported('samples drawn more than once')


@contract(('C16', 'C14'), budget=40)
def sampled_configs(w):
    """uniform initial joint values lie inside the given limits, in the precision of the chain, one
    row per attempt; samplers of the caller are used as they are; gaussian_around_config scales the generator by the deviation about the
    configuration.  Any number of rows and joints, every outcome of the generator"""
    t = w.torch
    n, m = w.dim('n'), w.dim('m')
    dt = w.choose('dtype', [t.float64, t.float32])
    how = w.choose('method', ['uniform', 'gaussian', 'callable', 'around'])
    gen = []
    def hook(name, kind, size):
        gen.append(name)
        if kind == 'rand': w.assume(w.all(tuple(size), lambda *i: tm.land(tm.le(tm.ZERO, tm.app(name, i)), tm.le(tm.app(name, i), tm.ONE))))
    w.hooks['random'] = hook
    if how == 'around':
        c = w.tensor('c', (n,), dtype=dt)
        std = w.real('std', pos=True) if w.symbolic else w.choose('std', [0.0, 1e-3, 2.0])
        f = w.fn(IK, 'gaussian_around_config')(c, std)
        if not w.symbolic:
            t.manual_seed(3)
            x = f(m)
            t.manual_seed(3)
            g = t.randn(m, n, dtype=dt)
        else: x = f(m)
        w.shape('shape', x, (m, n))
        w.true('precision', x.dtype == dt)
        for r, k in w.idx((m, n)):
            d = (tm.app(gen[0], (r, k)) if len(gen) == 1 else _drawn()) if w.symbolic else None
            if w.symbolic: w.same('around the configuration', w.at(x, r, k), w.at(c, k) + std * d)
            elif std == 0: w.same('around the configuration', w.at(x, r, k), w.at(c, k))
        w.unchanged('configuration', c, 'c')
        return
    lo = w.tensor('lo', (n,), dtype=t.float64)
    wd = w.tensor('wd', (n,), dtype=t.float64, lo=0)
    if w.symbolic: w.assume(w.all((n,), lambda c: tm.le(tm.ZERO, tm.app('wd', (c,)))))
    lim = t.stack([lo, lo + wd], dim=1)
    mine = w.tensor('mine', (m, n), dtype=dt)
    asked = []
    fn = lambda k: (asked.append(k), mine)[1]
    ik = obj(w, IK, 'InverseKinematics', dict(config_sampling_method=fn if how == 'callable' else how, joint_limits=lim, dof=n, dtype=dt, device='cpu'))
    x = ik.sample_configs(m)
    w.shape('shape', x, (m, n))
    w.true('precision', x.dtype == dt)
    if how == 'callable': w.true('the sampler of the caller', x is mine and asked == [m])
    if how == 'uniform':
        e = 0 if w.symbolic else (1e-9 if dt == t.float64 else 1e-4)
        for r, k in w.idx((m, n)):
            v, a, b = w.at(x, r, k), w.at(lo, k), w.at(lo, k) + w.at(wd, k)
            w.check('not below the limit', a <= v + e * (1 + abs(a)) if e else a <= v)
            w.check('not above the limit', v <= b + e * (1 + abs(b)) if e else v <= b)


@contract(('C21', 'C03'), samples=60, budget=60)
def line_search(w):
    """backtracking: one positive step size per attempt, at most the largest; arguments unchanged; an attempt's step size depends on its own row
    only.  Poses by contract (they are a function of the row's joint values)"""
    t = w.torch
    dt = t.float64
    N, M, n = w.dim('N'), w.dim('M'), w.dim('n')
    NM = N * M if w.concrete else tm.imul(N, M)
    q, dq = w.tensor('q', (NM, n), dtype=dt), w.tensor('dq', (NM, n, ), dtype=dt)
    dx = w.tensor('dx', (NM, 6, 1), dtype=dt)
    tp, tq = w.tensor('tp', (N, 3), dtype=dt), w.unit('tq', (N,), 4, dtype=dt)
    rem = w.tensor('rem', (N,), dtype=t.bool) if w.choose('remaining', ['none', 'given']) == 'given' else None
    ls = w.fn(IK, 'BacktrackingLineSearch')(max_iterations=w.choose('iterations', [1, 2] if w.symbolic else [1, 2, 5]))
    if w.symbolic:
        cnt = [0]

        def fk(x):
            w.shape('precondition: joint values', x, (NM, n))
            cnt[0] += 1
            k = cnt[0]
            return w.make((1, NM, 4, 4), lambda f, r, i, j: tm.app('pose%d' % k, (r, i, j)), dtype=dt)

        def dp(m, tp_, tq_, out=None):
            k = cnt[0]
            mk = lambda nm, s: w.make(s, lambda *i: tm.app('%s%d' % (nm, k), i), dtype=dt)
            return mk('E', (NM, 6, 1)), mk('Ep', (NM, 3, 1)), mk('Er', (NM, 3, 1))
        w.callee(IK, 'delta_pose', dp)
    else:
        A = t.randn(n, 3, dtype=t.float64)

        def fk(x):
            m = t.eye(4, dtype=t.float64).repeat(1, x.shape[0], 1, 1)
            m[0, :, :3, 3] = x @ A
            return m
    try: lr, imp = ls.do_line_search(None, q, dq, tp, tq, dx, problem_remaining=rem, fk_fn=fk, eef_frame_idx=0)
    finally:
        for a, nm in ((q, 'q'), (dq, 'dq'), (dx, 'dx'), (tp, 'tp'), (tq, 'tq')) + (((rem, 'rem'),) if rem is not None else ()): w.unchanged('argument unchanged', a, nm)
    w.shape('step sizes', lr, (NM,))
    w.shape('improvement', imp, (N,))
    for r, in w.idx((NM,)):
        x = w.at(lr, r)
        w.check('step size', land(0 < x, x <= 1))
