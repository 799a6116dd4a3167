"""C01: forward kinematics.  C04: analytical gradient.  C05: Jacobian.  (kernels: unbounded in tree, batch and joint count)"""
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported, R
from ptv.world import *
from contracts.rotations import vec, mat, eqmat
from contracts import robots as rb

CH = 'chain'


# ------------------------------------------------------------------ flattened trees
class Levels:
    """the list of breadth-first levels: level d holds exactly the frames of depth d, in an arbitrary order"""

    def __init__(self, G, start=0): self.G, self.start = G, start
    def sym_len(self): return tm.isub(self.G.D, self.start)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.stop is not None or k.step is not None or not isinstance(k.start or 0, int) or (k.start or 0) < 0: raise Unsupported('slice of levels')
            return Levels(self.G, self.start + (k.start or 0))
        return self.G.level(tm.iadd(self.start, k))

    def __iter__(self):
        import sys
        fr = sys._getframe(1)
        for d in self.G.w.iterate(Rng(self.start, self.G.D), fr): yield self.G.level(d)

    def enumerate(self, start=0):
        import sys
        fr = sys._getframe(1)
        for d in self.G.w.iterate(Rng(self.start, self.G.D), fr): yield tm.iadd(tm.isub(d, self.start), start), self.G.level(d)


class Rng:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi


class Stub:
    """an object with the fields a method reads, in place of a constructed chain; any other field is out of the contract's reach"""

    def __init__(self, cls, fields):
        object.__setattr__(self, '_cls', cls)
        object.__setattr__(self, '_f', fields)

    def __getattr__(self, n):
        if n.startswith('_sym'): raise AttributeError(n)
        f = object.__getattribute__(self, '_f')
        if n in f: return f[n]
        m = getattr(object.__getattribute__(self, '_cls'), n, None)
        if callable(m): return m.__get__(self) if not isinstance(object.__getattribute__(self, '_cls').__dict__.get(n), staticmethod) else m
        raise Unsupported('field %s of the flattened chain' % n)

    def __setattr__(self, n, v): self._f[n] = v


class Ghost:
    """an arbitrary flattened tree (symbolic world)"""

    def __init__(self, w, device='cpu', dtype=None, grad=False, modular=True):
        self.w = w
        self.modular = modular      # the loop's invariant is established by fk_kernel
        t = w.torch
        dt = self.dt = dtype or t.float64
        self.dev = device
        self.F, self.B, self.D = w.dim('F'), w.dim('B'), w.dim('D')
        case = w.choose('joints', ['none', 'revolute', 'prismatic', 'both'])
        self.rev, self.pris = case in ('revolute', 'both'), case in ('prismatic', 'both')
        self.none = case == 'none'
        self.J = 0 if self.none else w.dim('J')
        F, B, J = self.F, self.B, self.J
        self.th = w.tensor('th', (B, J), dtype=dt, device=device, requires_grad=grad)
        self.static = w.tensor('static', (F, 4, 4), dtype=dt, device=device)
        self.axes = w.unit('axes', (J,), 3, dtype=dt, device=device) if not self.none else w.tensor('axes', (0, 3), dtype=dt, device=device)
        self.jidx = w.tensor('jidx', (F,), dtype=t.int64, device=device, lo=0, hi=J if not self.none else 1)
        self.types = w.tensor('types', (F,), dtype=t.int64, device=device, lo=0, hi=3)
        self.par = w.tensor('par', (F,), dtype=t.int64, device=device, lo=-1, hi=F)
        tm.iapp_bounds['depth'] = (0, self.D)
        tm.iapp_bounds['pos'] = (0, None)
        tm.iapp_bounds['lev'] = (0, F)
        tm.iapp_bounds['levelsize'] = (1, None)
        for k, has in ((1, self.rev), (2, self.pris)):
            if not has: w.assume(w.all((F,), lambda f: lnot(tm.ieq(tm.iapp('types', (f,)), k))))
        f = dict(_static_offsets=self.static, _joint_indices_clamped=self.jidx, joint_type_indices=self.types, _direct_parent_idx=self.par,
                 _bfs_levels=Levels(self), axes=self.axes, _has_revolute=self.rev, _has_prismatic=self.pris, _num_frames=F,
                 dtype=dt, device=device, n_joints=J)
        self.fields = f
        w.loop(self.invariant)

    def depth(self, f): return tm.iapp('depth', (f,))

    def level(self, d):
        from ptv import symtorch as st
        import torch as rt

        def fn(ix):
            k = ix[0]
            if type(k) is tm.T and k.op == 'ip' and len(k.args) == 1 and len(k.args[0][0]) == 1 and k.args[0][1] == 1:
                a = k.args[0][0][0]
                if a.op == 'iapp' and a.args[0] == 'pos': return a.args[1][0]       # used only where depth(f) == d: lev(d, pos(f)) = f
            return tm.iapp('lev', (d, k))
        x = st.new(fn, (tm.iapp('levelsize', (d,)),), rt.int64, rt.device(self.dev))
        x.ghost_inv = (lambda f: tm.ieq(self.depth(f), d), lambda f: tm.iapp('pos', (f,)))
        return x

    # ---- the loop invariant: frames of the finished levels hold their world pose
    def W(self, f, b, i, j): return tm.app('W', (f, b, i, j)) if i != 3 else (1 if j == 3 else 0)

    def local(self, f, b):
        Of = [[tm.app('static', (f, i, j)) for j in range(4)] for i in range(4)]
        return S.matmul(Of, self.motion(f, b))

    def motion(self, f, b):
        ty = tm.iapp('types', (f,))
        I = S.eye(4)
        if self.none: return I
        jf = tm.iapp('jidx', (f,))
        a = [tm.app('axes', (jf, k)) for k in range(3)]
        q = tm.app('th', (b, jf))
        R = S.homog(S.rodrigues(a, q), [0, 0, 0])
        P = S.homog(S.eye(3), [x * q for x in a])
        return [[ite(tm.ieq(ty, 1), tm.R(R[i][j]), ite(tm.ieq(ty, 2), tm.R(P[i][j]), tm.R(I[i][j]))) for j in range(4)] for i in range(4)]

    def state(self, fr):
        shp = (self.F, self.B, 4, 4)
        c = [(n, v) for n, v in fr.f_locals.items() if getattr(v, '_sym_tensor', False) and v.ndim == 4 and v.base is None
             and all(a is b or a == b for a, b in zip(v.shape, shp))]
        w = self.written(fr)
        c = [nv for nv in c if nv[0] in w]
        if len(c) != 1: raise Unsupported('loop frame condition: %d accumulators found in the loop' % len(c))
        return c[0][1]

    def written(self, fr):
        """local variables that the loop being executed writes through a subscript, an augmented assignment or an in-place method"""
        import ast
        names = set()
        loops = [n for n in ast.walk(ast.parse(open(fr.f_code.co_filename).read())) if isinstance(n, ast.For) and n.lineno <= fr.f_lineno <= n.end_lineno]
        base = lambda n: n.id if isinstance(n, ast.Name) else base(n.value) if isinstance(n, (ast.Subscript, ast.Attribute)) else None
        for n in ast.walk(max(loops, key=lambda n: n.lineno)) if loops else ():
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store): names.add(base(n))
            elif isinstance(n, ast.AugAssign): names.add(base(n.target))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.endswith('_') and not n.func.attr.startswith('_'): names.add(base(n.func.value))
            elif isinstance(n, ast.Call): names.update(base(k.value) for k in n.keywords if k.arg == 'out')
        return names

    def invariant(self, rng, fr):
        if rng.hi is not self.D: return None
        w = self.w
        if self.modular: return self.after(rng, fr)
        return self.framed(w.cut(rng.lo, rng.hi, lambda: self.state(fr), self.check, self.havoc), fr)

    def framed(self, g, fr):
        """an iteration writes nothing but the accumulator"""
        acc = self.state(fr)

        def snap():
            out = {}
            for n, v in fr.f_locals.items():
                if getattr(v, '_sym_tensor', False):
                    if v._root() is not acc._root(): out[n] = (id(v._root()), v._root().st.version)
                elif isinstance(v, (list, dict, set)): out[n] = (id(v), len(v))
            return out
        for d in g:
            old = snap()
            yield d
            new = snap()
            if any(new.get(n) != v for n, v in old.items()) or self.state(fr) is not acc: raise Unsupported('loop frame condition: an iteration changes %s' % [n for n in old if new.get(n) != old[n]])

    def after(self, rng, fr):
        self.havoc(self.state(fr), rng.hi)
        return
        yield

    def havoc(self, T, d):
        # W(f) is unfolded by the contract where it is needed; in callers of the kernel the last row of a world pose is 0 0 0 1
        # (it is a product of matrices with that last row)
        T._write(lambda ix: tm.TRUE, lambda ix: ite(tm.ilt(self.depth(ix[0]), d), self.Wt(*ix), tm.app('junk', (d,) + tuple(ix))))

    def Wt(self, f, b, i, j):
        from ptv import symtorch as st
        return st.pick(4, i, lambda i: st.pick(4, j, lambda j: R(self.W(f, b, i, j)) if self.modular else tm.app('W', (f, b, i, j))))

    def facts(self, f):
        """well-formedness of the tables at frame f"""
        w = self.w
        dp, p = self.depth(f), tm.iapp('par', (f,))
        if bool(tm.ieq(dp, 0)): return True
        w.assume(tm.ile(0, p))
        w.assume(tm.ieq(self.depth(p), tm.isub(dp, 1)))
        return False

    def check(self, label, T, d):
        """T[f] = W(f) for every f with depth(f) < d"""
        w = self.w
        rd = T._reader()
        for f, b in w.idx((self.F, self.B)):
            root = self.facts(f)
            if not bool(tm.ilt(self.depth(f), d)): continue
            now = bool(tm.ieq(self.depth(f), tm.isub(d, 1)))
            E = None
            if now:
                L = self.local(f, b)
                if root: E = L
                else: E = S.matmul([[tm.app('W', (tm.iapp('par', (f,)), b, i, k)) for k in range(4)] for i in range(4)], L)
            for i in range(4):
                for j in range(4):
                    w.same('%s[%d,%d]' % (label, i, j), rd((f, b, i, j)), E[i][j] if now else tm.app('W', (f, b, i, j)))


def chain_stub(w, G, cls='Chain', extra=None):
    f = dict(G.fields)
    if extra: f.update(extra)
    return Stub(w.fn(CH, cls), f)


@contract(('C01', 'C03', 'C04', 'C05'), budget=90, weight=3)
def fk_kernel(w):
    """forward_kinematics_tensor: for every flattened tree, T[f, b] = W(f, b), where W(f) = local(f) at roots and W(parent f) local(f)
    elsewhere, local(f) = static(f) motion(f): proved with a loop invariant, for every number of frames, levels, joints and rows"""
    if w.symbolic:
        G = Ghost(w, modular=False)
        T = chain_stub(w, G).forward_kinematics_tensor(G.th)
        w.shape('shape', T, (G.F, G.B, 4, 4))
        rd = T._reader()
        for f, b in w.idx((G.F, G.B)):
            for i in range(4):
                for j in range(4): w.same('W[%d,%d]' % (i, j), rd((f, b, i, j)), tm.app('W', (f, b, i, j)))
        w.true('dtype', T.dtype == G.dt)
        return
    root = rb.random_tree(w)
    ch = rb.build_chain(w, root)
    n = len(rb.dofs(root))
    B = w.dim('B')
    th = w.tensor('th', (B, n))
    T = ch.forward_kinematics_tensor(th)
    check_poses(w, ch, root, T, th)


def check_poses(w, ch, root, T, th, tol=1e-9):
    names = [d.joint_name for d in rb.dofs(root)]
    for n in root.walk():
        fi = ch.get_frame_indices(n.name)
        for b in range(th.shape[0]):
            q = {nm: w.at(th, b, k) for k, nm in enumerate(names)}
            E = rb.pose_of(n, q)
            for i in range(4):
                for j in range(4): w.same('W[%d,%d]' % (i, j), T[fi[0], b, i, j].item(), E[i][j], tol=tol)


# ------------------------------------------------------------------ gradient
def twist(z, o, rev):
    """the 4x4 derivative operator of a joint with world axis z through o: d(pose)/dq = S pose"""
    if rev:
        zx = [[0, -z[2], z[1]], [z[2], 0, -z[0]], [-z[1], z[0], 0]]
        oz = S.cross(o, z)
        return [zx[i] + [oz[i]] for i in range(3)] + [[0, 0, 0, 0]]
    return [[0, 0, 0, z[i]] for i in range(3)] + [[0, 0, 0, 0]]


@contract(('C04', 'C03'), budget=90, weight=3)
def fk_backward(w):
    """the default gradient of forward_kinematics_tensor: for every upstream gradient G,
    grad[b, j] = sum over frames l and entries (r, c) of G[l, b, r, c] * mask[j, l] * (S_j W_l)[r, c],
    S_j the twist of joint j at its own frame; lemma_screw shows mask[j, l] S_j W_l = dW_l/dq_j"""
    if w.symbolic:
        G = Ghost(w, grad=True)
        if G.none: return
        t = w.torch
        F, B, J = G.F, G.B, G.J
        dofi = w.tensor('dofi', (J,), dtype=t.int64, lo=0, hi=F)
        mask = w.tensor('mask', (J, F), dtype=G.dt)
        isrev = w.tensor('isrev', (J,), dtype=t.bool)
        st = chain_stub(w, G, extra=dict(_dof_frame_indices=dofi, _dof_ancestor_mask=mask, _dof_is_revolute=isrev))
        T = st.forward_kinematics_tensor(G.th)
        up = w.tensor('G', (F, B, 4, 4), dtype=G.dt)
        g = w.grad(T, G.th, up)
        w.shape('shape', g, (B, J))
        rd = g._reader()
        for b, j in w.idx((B, J)):
            f = tm.iapp('dofi', (j,))
            a = [tm.app('axes', (j, k)) for k in range(3)]
            z = [S._sum(G.W(f, b, i, k) * a[k] for k in range(3)) for i in range(3)]
            o = [G.W(f, b, i, 3) for i in range(3)]
            rev = bool(tm.bapp('isrev', (j,)))
            Sj = twist(z, o, rev)

            def term(l):
                W = [[G.W(l, b, i, k) for k in range(4)] for i in range(4)]
                D = S.matmul(Sj, W)
                return S._sum(tm.app('G', (l, b, i, k)) * tm.app('mask', (j, l)) * D[i][k] for i in range(3) for k in range(4))
            w.same('gradient', rd((b, j)), w.sum(F, term))
        return
    t = w.torch
    root = rb.random_tree(w)
    ch = rb.build_chain(w, root)
    J = len(rb.dofs(root))
    B = w.dim('B')
    th = w.tensor('th', (B, J), requires_grad=True)
    T = ch.forward_kinematics_tensor(th)
    up = w.tensor('G', tuple(T.shape))
    if J == 0: return
    g = w.grad(T, th, up)
    th2 = th.detach().clone().requires_grad_(True)
    g2 = t.autograd.grad(ch.forward_kinematics_tensor(th2, analytical_grad=False), th2, up)[0]
    w.same_tensor('gradient', g, g2, tol=1e-8)
    eps = 1e-6
    b = w.one(B); j = w.one(J)
    d = t.zeros(B, J, dtype=t.float64); d[b, j] = eps
    fd = ((ch.forward_kinematics_tensor(th.detach() + d) - ch.forward_kinematics_tensor(th.detach() - d)) * up).sum() / (2 * eps)
    w.same('derivative', g[b, j].item(), fd.item(), tol=1e-5 * (1 + up.abs().max().item()) * (1 + T.detach().abs().max().item()))


@contract(('C04', 'C05'), budget=60)
def lemma_screw(w):
    """lemma: for a rigid pose X of a joint's frame before its motion, d/dq (X motion(q)) = S (X motion(q)), with S the twist of
    the joint's world axis and origin taken after the motion.  With dW_l/dq_j = (dW_p/dq_j) local_l for an ancestor's joint this gives,
    by induction on depth, dW_l/dq_j = S_j W_l below the joint's frame and 0 elsewhere"""
    rev = w.choose('kind', ['revolute', 'prismatic']) == 'revolute'
    dt = w.torch.float64
    a = w.unit('a', (1, 1), 3)
    q = w.tensor('q', (1, 1))
    M = w.fn('transforms.rotation_conversions', 'axis_and_angle_to_matrix_44' if rev else 'axis_and_d_to_pris_matrix')(a, q)
    Xq = w.unit('X', (), 4)
    p = w.tensor('p', (3,))
    X = S.homog(S.quat_matrix([w.at(Xq, i) for i in range(4)]), [w.at(p, i) for i in range(3)])
    Mv = [[w.at(M, 0, 0, i, j) for j in range(4)] for i in range(4)]
    A = [w.at(a, 0, 0, i) for i in range(3)]
    if w.symbolic: dM = [[tm.diff(x, w.at(q, 0, 0)) for x in r] for r in Mv]
    else:
        e = 1e-6
        f = w.fn('transforms.rotation_conversions', 'axis_and_angle_to_matrix_44' if rev else 'axis_and_d_to_pris_matrix')
        D = (f(a, q + e) - f(a, q - e)) / (2 * e)
        dM = [[w.at(D, 0, 0, i, j) for j in range(4)] for i in range(4)]
    Y = S.matmul(X, Mv)
    z = [S._sum(Y[i][k] * A[k] for k in range(3)) for i in range(3)]
    o = [Y[i][3] for i in range(3)]
    if not rev: o = [0, 0, 0]
    L = S.matmul(X, dM)
    R = S.matmul(twist(z, o, rev), Y)
    for i in range(4):
        for j in range(4): w.same('d(X M)=S X M[%d,%d]' % (i, j), L[i][j], R[i][j], tol=1e-5)


# ------------------------------------------------------------------ Jacobian
def serial_stub(w, G, grad=False):
    t = w.torch
    n = w.dim('n')
    e = tm.ivar('eef', 0, G.F)
    x = dict(_serial_dof_frame_indices=w.tensor('sdof', (n,), dtype=t.int64, lo=0, hi=G.F), _serial_dof_axes=w.tensor('saxes', (n, 3), dtype=G.dt),
             _serial_dof_types=w.tensor('stypes', (n,), dtype=t.int64, lo=1, hi=3), _serial_eef_frame_idx=e)
    return chain_stub(w, G, 'SerialChain', x), n, e


def jac_column(G, b, k, p):
    """geometric column of dof k for the point p"""
    f = tm.iapp('sdof', (k,))
    z = [S._sum(G.W(f, b, i, c) * tm.app('saxes', (k, c)) for c in range(3)) for i in range(3)]
    o = [G.W(f, b, i, 3) for i in range(3)]
    if bool(tm.ieq(tm.iapp('stypes', (k,)), 1)): return S.cross(z, [p[i] - o[i] for i in range(3)]) + z
    return z + [0, 0, 0]


def random_serial(w, nmin=2):
    r = w.rng
    while True:
        root = rb.random_tree(w, fixed_root=r.random() < 0.5)
        nodes = list(root.walk())
        leaf = r.choice(nodes)
        if len(leaf.path()) >= nmin or len(nodes) < nmin: break
    top = r.choice(leaf.path())
    if len(leaf.path(top)) < nmin: top = root
    return root, top, leaf


def check_jacobian(w, J, leaf, top, ds, q, offset=None, tol=2e-5):
    """J (6, n) against numerical derivatives of the specification"""
    pose = lambda q: rb.pose_of(leaf, q, top) if offset is None else S.matmul(rb.pose_of(leaf, q, top), offset)
    T0 = pose(q)
    for k, d in enumerate(ds):
        e = 1e-6
        qa, qb = dict(q), dict(q)
        qa[d.joint_name] += e; qb[d.joint_name] -= e
        A, B = pose(qa), pose(qb)
        D = [[(A[i][c] - B[i][c]) / (2 * e) for c in range(4)] for i in range(3)]
        for i in range(3): w.same('Jv[%d,%d]' % (i, k), w.at(J, i, k), D[i][3], tol=tol)
        Wx = S.matmul([r[:3] for r in D], S.transpose([r[:3] for r in T0[:3]]))
        wv = [Wx[2][1], Wx[0][2], Wx[1][0]]
        for i in range(3): w.same('Jw[%d,%d]' % (i, k), w.at(J, 3 + i, k), wv[i], tol=tol)


def serial_case(w):
    root, top, leaf = random_serial(w)
    ch = rb.build_chain(w, root)
    sc = w.fn(CH, 'SerialChain')(ch, leaf.name, top.name)
    ds = [d for d in leaf.path(top)[1:] if d.kind != 'fixed']
    B = w.dim('B')
    th = w.tensor('th', (B, len(ds)))
    return sc, top, leaf, ds, B, th


@contract(('C05', 'C03', 'C14'), budget=90, weight=3)
def jacobian_kernel(w):
    """jacobian_tensor, jacobian (plain, with the pose, with a tool offset): column k is (z_k x (p - o_k), z_k) for a revolute joint and
    (z_k, 0) for a prismatic one, p the end effector or the tool point; lemma_screw shows this is the derivative of the pose"""
    how = w.choose('how', ['tensor', 'tensor+pose', 'given', 'plain', 'pose', 'tool', 'tool+pose', 'toolrot+pose', 'tooltensor', 'tool32+pose'])
    if w.symbolic:
        t = w.torch
        G = Ghost(w)
        st, n, e = serial_stub(w, G)
        F, B = G.F, G.B
        T = None
        p = lambda b: [G.W(e, b, i, 3) for i in range(3)]
        E = lambda b: [[G.W(e, b, i, k) for k in range(4)] for i in range(4)]
        E1 = E
        if how == 'tensor': J = st.jacobian_tensor(G.th)
        elif how == 'tensor+pose': J, T = st.jacobian_tensor(G.th, ret_eef_pose=True)
        elif how == 'given':
            all_T = w.make((F, B, 4, 4), lambda f, b, i, j: G.W(f, b, i, j))
            J, T = st.jacobian_tensor(G.th, True, all_transforms=all_T)
        elif how == 'plain': J = st.jacobian(G.th)
        elif how == 'pose': J, T = st.jacobian(G.th, ret_eef_pose=True)
        else:
            nb = w.choose('tool batch', ['one', 'B'])
            m = 1 if nb == 'one' else B
            tdt = t.float32 if how == 'tool32+pose' else t.float64       # a tool of another precision than the chain
            off = w.tensor('off', (3,) if nb == 'one' else (m, 3), dtype=tdt)
            o = lambda b: [tm.app('off', (i,) if nb == 'one' else (b, i)) for i in range(3)]
            tool = off
            Rm = lambda b: S.eye(3)
            if how != 'tooltensor':
                kw = {}
                if how == 'toolrot+pose':
                    rot = w.rotation('rot', (m,))
                    kw = dict(rot=rot)
                    Rm = lambda b: S.quat_matrix(w.rot_quat('rot', 0 if nb == 'one' else b))
                tool = w.module('transforms').Transform3d(pos=off, dtype=tdt, **kw)
            r = st.jacobian(G.th, locations=tool, ret_eef_pose='pose' in how)
            J, T = r if 'pose' in how else (r, None)
            E1 = lambda b: S.matmul(E(b), S.homog(Rm(b), o(b)))
            p = lambda b: [E1(b)[i][3] for i in range(3)]
        w.shape('shape', J, (B, 6, n))
        rd = J._reader()
        for b, k in w.idx((B, n)):
            col = jac_column(G, b, k, p(b))
            for i in range(6): w.same('J[%d]' % i, rd((b, i, k)), col[i])
        if T is not None:
            rt = T._reader()
            w.shape('pose shape', T, (B, 4, 4))
            for (b,) in w.idx((B,)):
                for i in range(4):
                    for k in range(4): w.same('pose[%d,%d]' % (i, k), rt((b, i, k)), E1(b)[i][k])
        w.true('dtype', J.dtype == G.dt and (T is None or T.dtype == G.dt))
        return
    sc, top, leaf, ds, B, th = serial_case(w)
    T = offs = None
    if how == 'tensor': J = sc.jacobian_tensor(th)
    elif how == 'tensor+pose': J, T = sc.jacobian_tensor(th, ret_eef_pose=True)
    elif how == 'given': J, T = sc.jacobian_tensor(th, True, all_transforms=sc.forward_kinematics_tensor(th))
    elif how == 'plain': J = sc.jacobian(th)
    elif how == 'pose': J, T = sc.jacobian(th, ret_eef_pose=True)
    else:
        nb = w.choose('tool batch', ['one', 'B'])
        m = 1 if nb == 'one' else B
        tdt = w.torch.float32 if how == 'tool32+pose' else w.torch.float64
        off = w.tensor('off', (3,) if nb == 'one' else (m, 3), dtype=tdt)
        tool = off
        q = [[1.0, 0, 0, 0]] * m
        if how != 'tooltensor':
            kw = {}
            if how == 'toolrot+pose':
                rot = w.rotation('rot', (m,))
                q = [w.rot_quat('rot', b) for b in range(m)]
                kw = dict(rot=rot)
            tool = w.module('transforms').Transform3d(pos=off, dtype=tdt, **kw)
        r = sc.jacobian(th, locations=tool, ret_eef_pose='pose' in how)
        J, T = r if 'pose' in how else (r, None)
        offs = [S.homog(S.quat_matrix(q[b % m]), [w.at(off, *((i,) if nb == 'one' else (b, i))) for i in range(3)]) for b in range(B)]
    w.shape('shape', J, (B, 6, len(ds)))
    w.true('dtype', J.dtype == sc.dtype and (T is None or T.dtype == sc.dtype))
    for b in range(B):
        q = {d.joint_name: w.at(th, b, k) for k, d in enumerate(ds)}
        o = offs[b] if offs else None
        check_jacobian(w, J[b], leaf, top, ds, q, o)
        if T is not None:
            E = rb.pose_of(leaf, q, top)
            if o is not None: E = S.matmul(E, o)
            for i in range(4):
                for k in range(4): w.same('pose[%d,%d]' % (i, k), w.at(T, b, i, k), E[i][k], tol=1e-9)
