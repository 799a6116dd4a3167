"""C24: compiled kernels.

torch.compile is a dependency with an assumed contract: torch.compile(f) computes what the Python code of f computes while torch.compiler.is_compiling()
holds, provided f can be traced.  Against it the contracts below prove that the kernels meet the same specifications in that mode as outside it
(the specifications are functions of the inputs, so both modes agree), and that the solver built with use_compile runs the same kernels with the same
arguments.  That the kernels can be traced, and that the compiler keeps its contract on them, is only sampled (compiled_runs, compiled_solver)."""
from ptv import terms as tm
from ptv import runner
from ptv.world import *
from ptv.runner import contract
from contracts import robots as rb
from contracts import kinematics as kin
from contracts import ik as ikc
from contracts.ik import IK


def compiled(base, **kw):
    c = runner.CONTRACTS[base]

    def f(w):
        with w.compiling():
            w.compiled = True
            c.f(w)
    f.__name__ = 'compiled_' + base
    f.__doc__ = 'as compiled (torch.compiler.is_compiling() holds): ' + ' '.join(c.doc.split())
    contract('C24', functions=c.functions, bounded=c.bounded, budget=c.budget, weight=c.weight, samples=max(8, c.samples // 2), standins=c.standins, **kw)(f)


for _n in ('fk_kernel', 'fk_backward', 'jacobian_kernel', 'delta_pose', 'ik_step', 'ik_step_svd', 'ik_solve_all', 'chain_clamp', 'axis_and_angle_to_matrix_44',
           'axis_and_d_to_pris_matrix', 'quaternion_to_axis_angle', 'matrix_to_quaternion'): compiled(_n)


class Seen:
    """what a kernel was called with"""

    def __init__(self, name, mode, args, kw): self.v = (name, mode, args, tuple(sorted(kw.items())))


@contract('C24', samples=6, budget=60, standins=True, functions=('ik:PseudoInverseIK.__init__', 'ik:PseudoInverseIKWithSVD.__init__'))
def compiled_solver(w):
    """the solver built with use_compile calls, compiled, exactly the kernels the plain solver calls, with the arguments it is given; concretely: the
    two solvers return the same solutions"""
    cls = w.choose('class', ['PseudoInverseIK', 'PseudoInverseIKWithSVD'])
    if w.concrete: return same_solver(w, cls)
    t = w.torch
    m = w.module(IK)
    root = rb.design(w, (-1, 0, 1), ('fixed', 'revolute', 'prismatic'))
    sc = w.fn('chain', 'SerialChain')(rb.build_chain(w, root), list(root.walk())[-1].name)
    seen = lambda name: lambda *a, **k: Seen(name, t.compiler.is_compiling(), a, k)
    for n in ('_ik_step_kernel', '_ik_step_kernel_svd'): w.callee(IK, n, seen(n))
    sc.jacobian_tensor, sc.forward_kinematics_tensor = seen('jacobian_tensor'), seen('forward_kinematics_tensor')
    q0 = w.tensor("q0", (2, 2), dtype=t.float64)
    mk = lambda on: w.fn(IK, cls)(sc, retry_configs=q0, use_compile=on)
    on, off = mk(True), mk(False)
    for slot in ('_ik_step_fn', '_jacobian_fn', '_fk_fn'):
        a, k = (object(), object()), dict(lm_damping=object(), ret_eef_pose=True)
        x, y = (getattr(s, slot)(*a, **k) for s in (on, off))
        if not isinstance(x, Seen) or not isinstance(y, Seen): raise Unsupported('the kernel of the solver is another function')
        w.true('the compiled kernel is the plain one', x.v[0] == y.v[0], 'compiled %s, plain %s' % (x.v[0], y.v[0]))
        w.true('with the same arguments', x.v[2:] == y.v[2:])
        w.true('the plain solver compiles nothing', y.v[1] is False)
    skip = ('_ik_step_fn', '_jacobian_fn', '_fk_fn', '_use_compile', 'use_compile', 'initial_config')
    for k, v in vars(off).items():
        if k not in skip and isinstance(v, (int, float, str, bool, type(None))): w.true('the same configuration', getattr(on, k) == v, k)


def serial_robot(w):
    while True:
        root, top, leaf = kin.random_serial(w, w.rng.choice([2, 3, 5]))
        if 0 < sum(d.kind != 'fixed' for d in leaf.path(top)[1:]) < 10: break
    sc = w.fn('chain', 'SerialChain')(rb.build_chain(w, root), leaf.name, top.name)
    return sc, len(sc.get_joint_parameter_names())


def same_solver(w, cls):
    t = w.torch
    sc, n = serial_robot(w)
    N, M = w.dim('N'), w.dim('M')
    q = t.randn(N, n, dtype=t.float64)        # no special values: the rotation error of a half turn has two directions
    goal = sc.forward_kinematics(q)
    kw = dict(retry_configs=q[:1] + 0.3 * t.randn(M, n, dtype=t.float64), max_iterations=w.choose('iterations', [1, 3]), lr=w.choose('lr', [0.3, 1.0]), regularlization=1e-2,
              lm_damping=w.choose('lm', [0.0, 0.1]), enforce_joint_limits=w.choose('enforce', [False, True]), orientation_weight=w.choose('weight', [1.0, 0.5]))
    with backend(w, 'aot_eager'): sols = [w.fn(IK, cls)(sc, use_compile=on, **kw).solve(goal) for on in (True, False)]
    a, b = sols
    for nm in ('solutions', 'err_pos', 'err_rot'): close(w, nm, getattr(a, nm), getattr(b, nm), 1e-6)


class backend:
    """torch.compile with a back end that does not generate machine code, unless it is given one; problems of the compiler itself reject the sample"""

    def __init__(self, w, name): self.w, self.name = w, name

    def __enter__(self):
        import functools, torch._dynamo
        t = self.w.torch
        t._dynamo.reset()
        self.old = t.compile
        t.compile = functools.partial(self.old, backend=self.name)

    def __exit__(self, kind, e, tb):
        t = self.w.torch
        t.compile = self.old
        t._dynamo.reset()
        if e is None or isinstance(e, (Reject, Violation)): return
        if type(e).__module__.startswith(('torch._dynamo', 'torch._inductor')) and not isinstance(e, t._dynamo.exc.Unsupported):
            raise Reject()


def close(w, label, a, b, tol):
    w.shape(label + ': shape', a, tuple(b.shape))
    w.true(label + ': dtype', a.dtype == b.dtype)
    d = (a.detach() - b.detach()).abs().max().item() if b.numel() else 0.0
    s = 1 + (b.detach().abs().max().item() if b.numel() else 0.0)
    if b.isfinite().all(): w.true(label, d <= tol * s, 'differ by %g' % d)


@contract('C24', sym=False, samples=8, functions=('chain:Chain.forward_kinematics_tensor', 'chain:SerialChain.jacobian_tensor', 'ik:_ik_step_kernel', 'ik:_ik_step_kernel_svd'))
def compiled_runs(w):
    """the kernels traced in full and run through the real torch.compile (AOT back end; one sample in eight through TorchInductor) return the values and
    gradients of the plain ones, on arbitrary robots, for two batch sizes and after a change of precision"""
    t = w.torch
    sc, n = serial_robot(w)
    how = w.choose('kernel', ['fk', 'fk', 'jacobian', 'step', 'step svd'])
    name = 'inductor' if w.rng.random() < 0.1 else 'aot_eager'
    w.note(backend=name)
    tol = 1e-9
    with backend(w, name):
        if how in ('fk', 'jacobian'):
            plain = sc.forward_kinematics_tensor if how == 'fk' else sc.jacobian_tensor
            kw = {} if how == 'fk' else dict(ret_eef_pose=w.choose('pose', [False, True]))
            if how == 'fk' and w.choose('ordinary gradient', [False, True]): kw = dict(analytical_grad=False)
            f = t.compile(plain, fullgraph=True)
            dts = [t.float64, t.float64] + ([t.float32] if w.rng.random() < 0.3 else [])
            for k, dt in enumerate(dts):
                if dt != sc.dtype: sc.to(dtype=dt); tol = 1e-4
                th = t.randn(w.rng.choice([1, 2, n, 7]), n, dtype=dt)
                g = how == 'fk' and w.rng.random() < 0.7
                xs = [th.clone().requires_grad_(g) for _ in range(2)]
                ys = [h(x, **kw) for h, x in zip((f, plain), xs)]
                for a, b in zip(*[y if isinstance(y, tuple) else (y,) for y in ys]): close(w, 'value', a, b, tol)
                if g:
                    G = t.randn_like(ys[1])
                    close(w, 'gradient', *[t.autograd.grad((y * G).sum(), x)[0] for x, y in zip(xs, ys)], tol)
            return
        plain = w.fn(IK, '_ik_step_kernel' if how == 'step' else '_ik_step_kernel_svd')
        f = t.compile(plain, fullgraph=True)
        lm = w.choose('lm', [0.0, 0.1])
        R = w.rng.choice([1, 3])
        for N in (1, w.rng.choice([2, 4])):
            q = t.randn(N * R, n, dtype=t.float64)
            m = sc.forward_kinematics_tensor(q)[-1]
            tq = t.nn.functional.normalize(t.randn(N, 4, dtype=t.float64), dim=-1)
            a = (m, t.randn(N, 3, dtype=t.float64), tq, sc.jacobian_tensor(q), 1e-2 * t.eye(6, dtype=t.float64), R)
            kw = dict(lm_damping=lm, task_weight=w.choose('weighted', [None, t.rand(6, dtype=t.float64) + 0.5]))
            for x, y in zip(f(*a, **kw), plain(*a, **kw)): close(w, 'step', x, y, 1e-7)
