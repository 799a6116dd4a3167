"""Robot trees for the contracts: concrete geometry with exact rational rotations, symbolic joint values."""
import math
import itertools
from fractions import Fraction
from ptv import spec as S
from ptv.world import *
from ptv import terms as tm

# rooted ordered trees as parent lists in preorder
TREES = {1: [(-1,)]}


def _grow(n):
    out = set()
    for t in TREES[n - 1]:
        # attach the next preorder node to any node on the rightmost path
        p = n - 2
        while p != -1:
            out.add(t + (p,))
            p = t[p]
    return sorted(out)


for _n in range(2, 7): TREES[_n] = _grow(_n)

KINDS = ('fixed', 'revolute', 'prismatic')
AXES = [(0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.6, 0.0, 0.8), (0.0, -1.0, 0.0), (0.0, 0.28, -0.96)]
QUATS = [(1, 1, 0, 0), (1, 2, 3, 1), (2, 0, 1, 0), (1, -1, 1, 2), (1, 0, 0, -3), (3, 1, 0, 2)]
TRANS = [(0.5, -0.25, 1.0), (0.0, 0.75, 0.125), (-1.5, 0.0, 0.25), (0.0, 0.0, 0.5), (1.0, 2.0, -0.5)]


def ratrot(q, w):
    n = sum(x * x for x in q)
    f = (lambda a: w.const(Fraction(a, n))) if w.symbolic else (lambda a: a / n)
    a, b, c, d = q
    return [[f(a * a + b * b - c * c - d * d), f(2 * (b * c - a * d)), f(2 * (b * d + a * c))],
            [f(2 * (b * c + a * d)), f(a * a - b * b + c * c - d * d), f(2 * (c * d - a * b))],
            [f(2 * (b * d - a * c)), f(2 * (c * d + a * b)), f(a * a - b * b - c * c + d * d)]]


class Node:
    """what the robot is: the specification side of a frame"""

    def __init__(self, name, parent, kind, axis, link, joint, joint_name, link_name, limits=None):
        self.name, self.parent, self.kind, self.axis = name, parent, kind, axis
        self.link, self.joint = link, joint             # 4x4 nested lists or None
        self.joint_name, self.link_name = joint_name, link_name
        self.limits = limits
        self.children = []
        if parent is not None: parent.children.append(self)

    def walk(self):
        yield self
        for c in self.children: yield from c.walk()

    def path(self, root=None):
        p = [self]
        while p[-1] is not root and p[-1].parent is not None: p.append(p[-1].parent)
        return p[::-1]


def dofs(root): return [n for n in root.walk() if n.kind != 'fixed']


def motion(n, q):
    """the joint motion as a 4x4"""
    if n.kind == 'revolute': return S.homog(S.rodrigues(n.axis, q), [0, 0, 0])
    if n.kind == 'prismatic': return S.homog(S.eye(3), [a * q for a in n.axis])
    return S.eye(4)


def pose_of(node, q, root=None):
    """product along the path; q: joint name -> value.  With a root, that frame is the origin of the result"""
    M = S.eye(4)
    for n in node.path(root):
        if root is not None and n is root: continue
        for A in (n.link, n.joint):
            if A is not None: M = S.matmul(M, A)
        if n.kind != 'fixed': M = S.matmul(M, motion(n, q[n.joint_name]))
    return M


def design(w, parents, kinds, salt=0, offsets=None):
    """a tree with varied exact geometry"""
    nodes = []
    names = ['base', 'arm', 'tip', 'hand', 'a', 'z9', 'm_1', 'b', 'c', 'd']
    for i, (p, k) in enumerate(zip(parents, kinds)):
        h = (i * 7 + salt * 3) % 4 if offsets is None else offsets[i]
        link = S.homog(ratrot(QUATS[(i + salt) % 6], w), [c(w, x) for x in TRANS[(i + salt) % 5]]) if h in (1, 3) else None
        joint = S.homog(ratrot(QUATS[(2 * i + salt + 1) % 6], w), [c(w, x) for x in TRANS[(2 * i + salt) % 5]]) if h in (2, 3) else None
        axis = [c(w, x) for x in AXES[(i + salt) % 5]]
        nm = names[(i * 3 + salt) % 10]
        nodes.append(Node(nm, nodes[p] if p >= 0 else None, k, axis, link, joint, 'j%d_%s' % ((9 - i) % 10, nm), 'link_' + nm))
    return nodes[0]


def c(w, x): return w.const(str(x)) if w.symbolic else x


def t4(w, A, dtype=None, device='cpu'):
    return w.make((1, 4, 4), lambda b, i, j: A[i][j], dtype=dtype, device=device)


def build_frames(w, node, dtype=None, device='cpu'):
    """the frames of the tree, through the package's own constructors"""
    fr = w.module('frame')
    T3 = w.module('transforms').Transform3d
    dt = dtype or w.torch.float64
    off = lambda A: None if A is None else T3(matrix=t4(w, A, dt, device))
    f = fr.Frame(node.name, link=fr.Link(node.link_name, offset=off(node.link)),
                 joint=fr.Joint(node.joint_name, offset=off(node.joint), joint_type=node.kind,
                                axis=w.make((3,), lambda i: node.axis[i], dtype=dt, device=device), dtype=dt, device=device, limits=node.limits))
    for ch in node.children: f.add_child(build_frames(w, ch, dt, device))
    return f


def build_chain(w, node, dtype=None, device='cpu'):
    dt = dtype or w.torch.float64
    w.calls.add('chain:Chain.__init__')
    return w.module('chain').Chain(build_frames(w, node, dt, device), dtype=dt, device=device)


def random_names(r, n):
    """names of frames, joints and links, different within each kind only: they may contain, begin or repeat one another across kinds"""
    style = r.choice(['plain', 'plain', 'nested', 'parts', 'case'])
    if style == 'plain': pool = ['f%d' % i for i in range(n)]
    elif style == 'nested': pool = ['a' * (i + 1) for i in range(n)]
    elif style == 'parts': pool = ['arm', 'arm_1', '1_arm', '_', 'tip', 'arm_1_tip', 'tip_arm', 'ar', 'm_1'] + ['arm_%d' % i for i in range(2, n)]
    else: pool = [x for i in range(n) for x in ('Arm%d' % i, 'arm%d' % i)]
    pool = pool[:n]
    kinds = []
    for prefix in ('', 'j', 'l'):
        xs = list(pool)
        r.shuffle(xs)
        kinds.append(xs)
    if r.random() < 0.6: kinds[1], kinds[2] = ['j' + x for x in kinds[1]], (['l' + x for x in kinds[2]] if r.random() < 0.5 else list(kinds[0]))
    return kinds


def random_tree(w, n=None, fixed_root=False):
    """concrete world: an arbitrary tree"""
    r = w.rng
    n = n or r.choice([1, 2, 3, 4, 5, 6, 8, 12, 16])
    shape = r.choice(['mixed', 'mixed', 'mixed', 'mixed', 'star', 'path', 'bush', 'bush'])
    if shape == 'bush' and r.random() < 0.5: n = max(n, r.choice([10, 14]))
    forks = r.choice([2, 3])
    hub = r.randrange(min(n, 3))
    parents = [-1] + [(hub if i > hub else i - 1) if shape == 'star' else i - 1 if shape == 'path' else
                      (0 if i <= forks else r.randrange(1, forks + 1)) if shape == 'bush' else
                      r.randrange(max(0, i - r.choice([1, 1, 2, 4])), i) for i in range(1, n)]
    style = r.choice(['mixed', 'mixed', 'revolute', 'prismatic', 'fixed'])
    names, jnames, lnames = random_names(r, n)
    nodes = []
    for i, p in enumerate(parents):
        k = r.choice(KINDS) if style == 'mixed' else r.choice([style, style, 'fixed'])
        if i == 0 and fixed_root: k = 'fixed'
        ax = [r.gauss(0, 1) for _ in range(3)] if r.random() < 0.6 else list(r.choice(AXES))
        nr = sum(x * x for x in ax) ** 0.5
        ax = [x / nr for x in ax]
        rig = lambda: None if r.random() < 0.35 else S.homog(_rrot(r), [r.gauss(0, 1) for _ in range(3)])
        nodes.append(Node(names[i], nodes[p] if p >= 0 else None, k, ax, rig(), rig(), jnames[i], lnames[i]))
    # children are visited in insertion order
    w.sizes.append(max(1, sum(1 for x in nodes if x.kind != 'fixed')))
    return nodes[0]


def _rrot(r):
    if r.random() < 0.25: return S.eye(3)
    q = [r.gauss(0, 1) for _ in range(4)]
    n = sum(x * x for x in q) ** 0.5
    return S.quat_matrix([x / n for x in q])


# orthogonal array: every pair of joint types at every pair of positions
OA = list(itertools.product(range(3), repeat=2))
OA4 = [(a, b, (a + b) % 3, (a + 2 * b) % 3) for a, b in OA]


def small_robots():
    """(parents, kinds): every tree of up to three frames with every joint type assignment; every tree of four frames with
    an orthogonal array of assignments; some larger ones"""
    out = []
    for n in (1, 2, 3):
        for t in TREES[n]:
            for k in itertools.product(range(3), repeat=n): out.append((t, tuple(KINDS[i] for i in k)))
    for t in TREES[4]:
        for k in OA4: out.append((t, tuple(KINDS[i] for i in k)))
    out.append(((-1, 0, 0, 2, 3, 2, 1), ('fixed', 'revolute', 'prismatic', 'revolute', 'fixed', 'prismatic', 'revolute')))
    out.append(((-1, 0, 1, 2, 3, 4), ('fixed', 'revolute', 'revolute', 'prismatic', 'revolute', 'fixed')))
    return out


ROBOTS = small_robots()
ROBOT_BOUND = ('the tree: every rooted ordered tree with up to 3 frames and every joint type assignment, every tree with 4 frames and a pairwise-covering '
               'set of joint types, two trees with 6 and 7 frames; fixed rational link and joint geometry; joint values and batch size unbounded')


def any_limits(w, name, form):
    """a pair of arbitrary numbers, one of them infinite, or no pair at all; concretely also equal, zero, one-signed and huge ones"""
    if form == 'none': return None
    inf = float('inf')
    if not w.concrete: lo, hi = (w.real('%s_%s' % (name, k)) for k in ('low', 'high'))
    else:
        a, b = sorted(w._sample() for _ in range(2))
        lo, hi = w.rng.choice([(a, b), (a, b), (a, a), (0.0, 0.0), (0.0, abs(b)), (-abs(a), 0.0), (abs(a), abs(a) + abs(b)), (-abs(a) - abs(b), -abs(a)), (-100.0, 100.0 + b),
                               (-3, 2), (-math.pi, math.pi), (-2 * math.pi, 2 * math.pi)])
    return {'both': (lo, hi), 'low': (lo, inf), 'high': (-inf, hi)}[form]
