"""C18, C19, C20: robot descriptions.  The documents are enumerated (a bound on their structure); every number in them is arbitrary:
in the symbolic world a number is a token that the package's own float() turns into a symbolic real."""
import math
import random
from ptv.runner import contract
from ptv import spec as S
from ptv import terms as tm
from ptv.terms import Unsupported
from ptv.world import *
from contracts import robots as rb

FORMATS = ['%r', '%r', '%.3f', '%.6e', '%g', '%d', '+', '.']


class Nums:
    """numbers written into a document"""

    def __init__(self, w, rng): self.w, self.rng, self.n = w, rng, 0

    def num(self, **k):
        w = self.w
        self.n += 1
        v = w.real('x%d' % self.n, **k)
        if w.symbolic:
            from ptv import shadow
            t = 'tk%d' % self.n
            shadow.TOKENS[t] = v
            return v, t
        f = self.rng.choice(FORMATS)
        if f == '+': t = ('+' if v >= 0 else '') + repr(v)
        elif f == '.': t = ('%.4f' % v).replace('0.', '.') if 0 < v < 1 else repr(v)
        elif f == '%d': t = '%d' % round(v)
        else: t = f % v
        return float(t), t

    def vec(self, n=3, **k):
        vs = [self.num(**k) for _ in range(n)]
        sep = self.rng.choice([' ', ' ', '  ', '\n   ', '\t'])
        pre = self.rng.choice(['', '', ' '])
        return [v for v, _ in vs], pre + sep.join(t for _, t in vs) + pre

    def axis(self):
        """a nonzero direction"""
        while True:
            v, t = self.vec()
            if self.w.symbolic:
                self.w.assume(S.dot(v, v) > self.w.const(DEGENERATE))
                return v, t
            if S.dot(v, v) > 1e-4: return v, t
            if self.n > 2000: return [0.0, 0.6, -0.8], '0 0.6 -0.8'


NAMES = ['base', 'link_1', 'tip', 'a', 'hand left', 'z9', 'arm.upper', 'b/c', 'camera', 'x', 'l10', 'l2']


def names_for(w, k):
    """names of links; concrete world: sometimes names which contain, begin or repeat one another"""
    if w.symbolic or len(NAMES) != 12: return list(NAMES)
    return [NAMES, NAMES, ['a' * (i + 1) for i in range(12)],
            ['arm', 'arm_1', '1_arm', '_', 'tip', 'arm_1_tip', 'tip_arm', 'ar', 'm_1', 'Arm', 'Tip', 'm']][random.Random(k + 7).randrange(4)][:]


class Joint:
    pass


def tree(rng, symbolic, k):
    """parents, in an order in which a parent precedes its children"""
    if symbolic:
        ts = [t for n in (1, 2, 3, 4) for t in rb.TREES[n]]
        return list(ts[k % len(ts)])
    n = rng.choice([1, 2, 3, 4, 5, 7, 10])
    return [-1] + [rng.randrange(max(0, i - rng.choice([1, 2, 5])), i) for i in range(1, n)]


VARIANTS = 9 * 7       # in the symbolic world: each of the 9 trees with up to four links, seven times with different features


def structure(w, kinds):
    """names, parents, joint order and the features of every joint; the same choices in both worlds for a given variant"""
    k = w.choose('variant', list(range(VARIANTS)) if w.symbolic else list(range(100000)))
    rng = random.Random(k)
    par = tree(rng, w.symbolic, k)
    names = names_for(w, k)
    rng.shuffle(names)
    joints = []
    for i, p in enumerate(par):
        if p < 0: continue
        j = Joint()
        j.parent, j.child = names[p], names[i]
        j.name = rng.choice(['j_%s', 'joint %s', '%s']) % names[i]
        j.type = rng.choice(kinds)
        joints.append(j)
    if w.concrete and random.Random(k + 11).random() < 0.2:            # joints called like other links
        calls = list(names)
        random.Random(k + 13).shuffle(calls)
        for j, c in zip(joints, calls): j.name = c
    order = rng.choice(['tree', 'reversed', 'shuffled'])
    if order == 'reversed': joints.reverse()
    if order == 'shuffled': rng.shuffle(joints)
    links = [names[i] for i in range(len(par))]
    if len(links) > 1 and rng.random() < 0.5: rng.shuffle(links)
    return rng, Nums(w, rng), names[0], links, joints


def arrange(rng, links, joints, junk):
    """elements of the robot in some order, with unrelated elements between them"""
    how = rng.choice(['links', 'joints', 'mixed'])
    els = links + joints if how == 'links' else joints + links
    if how == 'mixed':
        els, a, b = [], list(links), list(joints)
        while a or b: els.append((a if a and (not b or rng.random() < 0.5) else b).pop(0))
    for x in junk: els.insert(rng.randrange(len(els) + 1), x)
    return '\n'.join(els)


# ------------------------------------------------------------------ common postconditions
def frames(w, chain): return {f.name: f for f in walk(chain._root)}


def walk(f):
    yield f
    for c in f.children: yield from walk(c)


def check_structure(w, chain, root, links, joints):
    fs = list(walk(chain._root))
    by = {f.name: f for f in fs}
    w.true('one frame per link', len(fs) == len(links) and set(by) == set(links), 'frames %s for links %s' % ([f.name for f in fs], links))
    w.true('root', chain._root.name == root, 'root is %s' % chain._root.name)
    w.true('link names', all(f.link.name == f.name for f in fs))
    for j in joints:
        w.true('parent', any(c.name == j.child for c in by[j.parent].children), '%s is not a child of %s' % (j.child, j.parent))
        w.true('joint name', by[j.child].joint.name == j.name, 'joint of %s is called %s' % (j.child, by[j.child].joint.name))
    w.true('number of edges', sum(len(f.children) for f in fs) == len(joints))
    move = [j.name for j in joints if j.kind != 'fixed']
    got = list(chain.get_joint_parameter_names())
    w.true('movable joints', sorted(got) == sorted(move), 'movable joints %s, declared %s' % (got, move))
    w.true('joint count', chain.n_joints == len(move))
    return by


def offset_of(f):
    """the product of the offsets of link and joint: 4x4 reader"""
    ms = [o.get_matrix() for o in (f.link.offset, f.joint.offset) if o is not None]
    if not ms: return None
    return ms[0] if len(ms) == 1 else ms[0] @ ms[1]


def check_offset(w, label, f, E):
    M = offset_of(f)
    for i in range(4):
        for k in range(4):
            got = (1.0 if i == k else 0.0) if M is None else w.at(M, 0, i, k)
            w.same('%s[%d,%d]' % (label, i, k), got, E[i][k], tol=1e-5)


def check_axis(w, f, axis):
    n = S.norm(axis)
    for i in range(3): w.same('axis[%d]' % i, w.at(f.joint.axis, i) * n, axis[i], tol=1e-5)


def bound(x, sign):
    """None stands for no bound"""
    return (-math.inf if sign < 0 else math.inf) if x is None else x


def check_limits(w, label, got, want):
    """want: None (no limits) or a pair; an absent or infinite pair means no limits"""
    if want is None:
        w.true(label, got is None or (got[0] == -math.inf and got[1] == math.inf), '%s are %r, none are declared' % (label, got))
        return
    w.true(label + ' present', got is not None, 'no %s, declared %r' % (label, want))
    for i in range(2):
        g, e = got[i], want[i]
        if hasattr(g, 'item'): g = g.item()
        if not w.symbolic or isinstance(e, float) and math.isinf(e) or isinstance(g, float) and math.isinf(g):
            w.true('%s[%d]' % (label, i), same_number(w, g, e), '%s are %r, declared %r' % (label, got, want))
        else: w.same('%s[%d]' % (label, i), g, e)


def same_number(w, g, e):
    if type(g) is T or type(e) is T: return g is e
    return g == e or abs(g - e) <= 1e-6 * (1 + abs(e))


def check_kinematics(w, chain, root, joints, edge, root_pose):
    """concrete world: the chain moves as the description says (single precision)"""
    if w.symbolic: return
    names = list(chain.get_joint_parameter_names())
    q = {n: w.rng.uniform(-2, 2) for n in names}
    r = chain.forward_kinematics(w.torch.tensor([[q[n] for n in names]]))
    pose = {root: root_pose}
    todo = list(joints)
    while todo:
        for j in list(todo):
            if j.parent not in pose: continue
            todo.remove(j)
            M = S.matmul(pose[j.parent], edge(j))
            if j.kind == 'revolute': M = S.matmul(M, S.homog(S.rodrigues(unitv(j.direction), q[j.name]), [0, 0, 0]))
            if j.kind == 'prismatic': M = S.matmul(M, S.homog(S.eye(3), [x * q[j.name] for x in unitv(j.direction)]))
            pose[j.child] = M
    s = 1 + max(abs(x) for M in pose.values() for row in M for x in row)
    for n, M in pose.items():
        G = r[n].get_matrix()
        for i in range(4):
            for k in range(4): w.near('pose of %s[%d,%d]' % (n, i, k), G[0, i, k].item(), M[i][k], 1e-4 * s)


def unitv(a):
    n = sum(x * x for x in a) ** 0.5
    return [x / n for x in a]


def check_serial(w, sc, root, end, joints, start=None):
    """a serial chain built from the description is the path from its root to its end"""
    up = {j.child: j for j in joints}
    path, at = [], end
    while at != (start or root):
        path.append(up[at]); at = up[at].parent
    path.reverse()
    w.true('serial joints', list(sc.get_joint_parameter_names()) == [j.name for j in path if j.kind != 'fixed'],
           'joints %s' % (list(sc.get_joint_parameter_names()),))
    w.true('serial end', sc._serial_frames[-1].name == end)


# ------------------------------------------------------------------ URDF
URDF_KIND = {'revolute': 'revolute', 'continuous': 'revolute', 'prismatic': 'prismatic', 'fixed': 'fixed'}
URDF_JUNK = ['<!-- a comment -->', '<gazebo reference="base"><material>Gazebo/Grey</material></gazebo>', '<material name="blue"><color rgba="0 0 0.8 1"/></material>',
             '<transmission name="t1"><type>transmission_interface/SimpleTransmission</type><joint name="j_a"><hardwareInterface>P</hardwareInterface></joint>'
             '<actuator name="m1"><mechanicalReduction>1</mechanicalReduction></actuator></transmission>', '<unknown_tag x="1"/>']
URDF_LINK = ['', '<inertial><origin xyz="1 2 3" rpy="0.1 0 0"/><mass value="2"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial>',
             '<visual><origin xyz="0 0 0.5" rpy="0 1 0"/><geometry><box size="1 2 3"/></geometry></visual>',
             '<visual><geometry><cylinder radius="0.1" length="2"/></geometry><material name="blue"/></visual>'
             '<collision><geometry><sphere radius="0.3"/></geometry></collision>',
             '<visual><geometry><mesh filename="package://x/y.stl" scale="1 1 1"/></geometry></visual><!-- c -->']


def urdf_document(w, with_axis=True):
    rng, nums, root, links, joints = structure(w, ['revolute', 'continuous', 'prismatic', 'fixed', 'revolute', 'prismatic'])
    for i, j in enumerate(joints):
        j.kind = URDF_KIND[j.type]
        parts = []
        j.xyz, j.rpy = [0, 0, 0], [0, 0, 0]
        how = rng.choice(['both', 'both', 'both', 'xyz', 'rpy', 'none', 'empty'])
        if how != 'none':
            a = []
            if how in ('both', 'xyz'):
                j.xyz, t = nums.vec(); a.append('xyz="%s"' % t)
            if how in ('both', 'rpy'):
                j.rpy, t = nums.vec(); a.append('rpy="%s"' % t)
            if rng.random() < 0.5: a.reverse()
            parts.append('<origin %s/>' % ' '.join(a))
        j.axis = None
        if with_axis and (j.kind != 'fixed' or rng.random() < 0.3):
            if j.kind == 'fixed' and rng.random() < 0.5: t = '0 0 0'
            else: j.axis, t = nums.axis()
            parts.append('<axis xyz="%s"/>' % t)
        j.direction = j.axis or [1.0, 0.0, 0.0]
        parts += ['<parent link="%s"/>' % j.parent, '<child link="%s"/>' % j.child]
        j.limits = j.velocity = j.effort = None
        if j.type in ('revolute', 'prismatic') or rng.random() < 0.5:
            a = []
            j.effort, t = nums.num(); a.append('effort="%s"' % t)
            j.velocity, t = nums.num(); a.append('velocity="%s"' % t)
            lo = up = 0
            full = rng.choice(['both', 'both', 'both', 'lower', 'upper', 'none']) if j.type != 'fixed' else 'none'
            if full in ('both', 'lower'):
                lo, t = nums.num(); a.append('lower="%s"' % t)
            if full in ('both', 'upper'):
                up, t = nums.num(); a.append('upper="%s"' % t)
            rng.shuffle(a)
            if j.type not in ('continuous', 'fixed'): j.limits = (lo, up)
            parts.append('<limit %s/>' % ' '.join(a))
        if rng.random() < 0.3: parts.append('<dynamics damping="0.5" friction="0.1"/>')
        if rng.random() < 0.2 and len(joints) > 1: parts.append('<mimic joint="%s" multiplier="2" offset="0.1"/>' % joints[i - 1].name)
        if rng.random() < 0.2: parts.append('<safety_controller k_velocity="1" k_position="2" soft_lower_limit="-0.1" soft_upper_limit="0.1"/>')
        if rng.random() < 0.2: parts.append('<calibration rising="0.3"/>')
        if rng.random() < 0.2: parts.append('<!-- note -->')
        rng.shuffle(parts)
        at = ['name="%s"' % j.name, 'type="%s"' % j.type]
        if rng.random() < 0.5: at.reverse()
        j.text = '<joint %s>\n%s</joint>' % (' '.join(at), '\n  '.join(parts))
    ls = ['<link name="%s">%s</link>' % (l, rng.choice(URDF_LINK)) for l in links]
    head = rng.choice(['', '<?xml version="1.0"?>\n', '<!-- robot -->\n'])
    doc = '%s<robot name="r">\n%s\n</robot>' % (head, arrange(rng, ls, [j.text for j in joints], rng.sample(URDF_JUNK, rng.choice([0, 1, 3]))))
    w.note(document=doc)
    return rng, root, links, joints, doc


def urdf_edge(j): return S.homog(S.rpy_matrix(*j.rpy), j.xyz)


DOC_BOUND = ('document structure: %d documents, every tree with up to four links, element orders, joint types and optional elements varied; '
             'every number of the document that describes the kinematics or limits is arbitrary' % VARIANTS)


def quiet(f, *a):
    """the parser reports unknown elements on stderr"""
    import contextlib, io
    with contextlib.redirect_stderr(io.StringIO()): return f(*a)


@contract(('C18',), bounded=DOC_BOUND, samples=150, budget=100, weight=3, functions=('urdf:build_chain_from_urdf', 'urdf_parser_py.urdf:Robot'))
def urdf_chain(w):
    """build_chain_from_urdf: frames, joints, origins, axes, limits and names are the declared ones"""
    rng, root, links, joints, doc = urdf_document(w)
    chain = quiet(w.fn('urdf', 'build_chain_from_urdf'), doc)
    by = check_structure(w, chain, root, links, joints)
    check_offset(w, 'root offset', by[root], S.eye(4))
    for j in joints:
        f = by[j.child]
        w.true('joint type', f.joint.joint_type == j.kind, '%s became %s' % (j.type, f.joint.joint_type))
        check_offset(w, 'origin', f, urdf_edge(j))
        if j.kind != 'fixed':
            check_axis(w, f, j.axis)
            check_limits(w, 'limits', f.joint.limits, j.limits)
            check_limits(w, 'velocity limits', f.joint.velocity_limits, None if j.velocity is None else (-j.velocity, j.velocity))
            check_limits(w, 'effort limits', f.joint.effort_limits, None if j.effort is None else (-j.effort, j.effort))
    check_kinematics(w, chain, root, joints, urdf_edge, S.eye(4))


@contract(('C18',), bounded=DOC_BOUND, samples=60, functions=('urdf:build_serial_chain_from_urdf',))
def urdf_serial_chain(w):
    """build_serial_chain_from_urdf: the path from the root, or from the named link, to the end link"""
    rng, root, links, joints, doc = urdf_document(w)
    end = rng.choice(links)
    up = {j.child: j.parent for j in joints}
    above = [end]
    while above[-1] in up: above.append(up[above[-1]])
    start = w.choose('start', [None, 'somewhere'])
    if start and len(above) > 2: start = rng.choice(above[1:])
    else: start = None
    f = w.fn('urdf', 'build_serial_chain_from_urdf')
    w.assume(len(above) > 1)
    sc = quiet(f, doc, end) if start is None else quiet(f, doc, end, start)
    check_serial(w, sc, root, end, joints, start)


@contract(('C18',), sym=False, samples=20, functions=('urdf:build_chain_from_urdf',))
def urdf_default_axis(w):
    """a movable joint without an axis element moves along the axis the format gives as default, (1, 0, 0)"""
    kind = w.choose('kind', ['revolute', 'continuous', 'prismatic'])
    doc = ('<robot name="r"><link name="a"/><link name="b"/><joint name="j" type="%s"><parent link="a"/><child link="b"/>'
           '<limit effort="1" velocity="1" lower="-1" upper="1"/></joint></robot>' % kind)
    w.note(document=doc)
    w.finding = 'no axis element'
    chain = w.fn('urdf', 'build_chain_from_urdf')(doc)
    f = frames(w, chain)['b']
    for i, e in enumerate([1.0, 0.0, 0.0]): w.same('axis[%d]' % i, w.at(f.joint.axis, i), e)


# ------------------------------------------------------------------ SDF
SDF_LINK = ['', '<inertial><mass>2</mass><inertia><ixx>1</ixx><ixy>0</ixy><ixz>0</ixz><iyy>1</iyy><iyz>0</iyz><izz>1</izz></inertia></inertial>',
            '<inertial><mass>2</mass></inertial>', '<visual name="v"><pose>0 0 1 0 0 0.5</pose><geometry><box><size>1 2 3</size></box></geometry></visual>',
            '<visual name="v"><geometry><cylinder><radius>0.1</radius><length>2</length></cylinder></geometry></visual>'
            '<collision name="c"><geometry><sphere><radius>0.3</radius></sphere></geometry></collision>', '<gravity>0</gravity>']
SDF_JUNK = ['<!-- a comment -->', '<static>0</static>', '<plugin name="p" filename="f.so"><x>1</x></plugin>']


def sdf_document(w):
    rng, nums, root, links, joints = structure(w, ['revolute', 'prismatic', 'fixed', 'revolute', 'prismatic'])
    pose, text = {}, {}
    for l in links:
        parts = []
        x = rng.choice(SDF_LINK)
        if x: parts.append(x)
        if rng.random() < 0.8:
            pose[l], t = nums.vec(6)
            parts.append('<pose>%s</pose>' % t)
        else: pose[l] = [0, 0, 0, 0, 0, 0]
        rng.shuffle(parts)
        text[l] = '<link name="%s">%s</link>' % (l, ''.join(parts))
    for j in joints:
        j.kind = j.type
        j.axis = j.limits = None
        j.model_frame = False
        parts = ['<parent>%s</parent>' % j.parent, '<child>%s</child>' % j.child]
        if j.kind != 'fixed' or rng.random() < 0.3:
            j.axis, t = nums.axis()
            ax = ['<xyz>%s</xyz>' % t]
            how = rng.choice(['none', 'both', 'both', 'lower', 'upper', 'empty'])
            lo = up = None
            b = []
            if how in ('both', 'lower'):
                lo, t = nums.num(); b.append('<lower>%s</lower>' % t)
            if how in ('both', 'upper'):
                up, t = nums.num(); b.append('<upper>%s</upper>' % t)
            if rng.random() < 0.3: b.append('<effort>10</effort>')
            rng.shuffle(b)
            if how != 'none':
                ax.append('<limit>%s</limit>' % ''.join(b))
                if lo is not None or up is not None: j.limits = (bound(lo, -1), bound(up, 1))
            u = rng.choice([None, None, '0', '1', 'false', 'true'])
            if u is not None:
                ax.append('<use_parent_model_frame>%s</use_parent_model_frame>' % u)
                j.model_frame = u in ('1', 'true')
            if rng.random() < 0.3: ax.append('<dynamics><damping>0.5</damping></dynamics>')
            rng.shuffle(ax)
            parts.append('<axis>%s</axis>' % ''.join(ax))
        if rng.random() < 0.2: parts.append('<!-- note -->')
        rng.shuffle(parts)
        j.text = '<joint name="%s" type="%s">%s</joint>' % (j.name, j.type, ''.join(parts))
    W = {l: S.homog(S.rpy_matrix(*p[3:]), p[:3]) for l, p in pose.items()}
    for j in joints:
        j.direction = None if j.axis is None else S.matvec([[W[j.child][c][r] for c in range(3)] for r in range(3)], j.axis) if j.model_frame else j.axis
    head = rng.choice(['', '<?xml version="1.0" ?>\n'])
    doc = '%s<sdf version="1.6"><model name="m">\n%s\n</model></sdf>' % (head, arrange(rng, [text[l] for l in links], [j.text for j in joints],
                                                                           rng.sample(SDF_JUNK, rng.choice([0, 1, 2]))))
    w.note(document=doc)
    return rng, root, links, joints, doc, W


@contract(('C19',), bounded=DOC_BOUND, samples=150, budget=150, weight=4, functions=('sdf:build_chain_from_sdf', 'urdf_parser_py.sdf:SDF'))
def sdf_chain(w):
    """build_chain_from_sdf: frames, joints, poses, axes, limits and names are the declared ones; links are at their declared poses at zero"""
    rng, root, links, joints, doc, W = sdf_document(w)
    chain = quiet(w.fn('sdf', 'build_chain_from_sdf'), doc)
    by = check_structure(w, chain, root, links, joints)
    check_offset(w, 'root pose', by[root], W[root])
    edge = lambda j: S.matmul(S.rigid_inv(W[j.parent]), W[j.child])
    for j in joints:
        f = by[j.child]
        w.true('joint type', f.joint.joint_type == j.kind, '%s became %s' % (j.type, f.joint.joint_type))
        check_offset(w, 'pose', f, edge(j))
        if j.kind != 'fixed':
            check_axis(w, f, j.direction)
            check_limits(w, 'limits', f.joint.limits, j.limits)
    check_kinematics(w, chain, root, joints, edge, W[root])
    if w.concrete:
        zero = chain.forward_kinematics(w.torch.zeros(1, chain.n_joints))
        s = 1 + max(abs(x) for M in W.values() for row in M for x in row)
        for l in links:
            G = zero[l].get_matrix()
            for i in range(4):
                for k in range(4): w.near('pose at zero of %s[%d,%d]' % (l, i, k), G[0, i, k].item(), W[l][i][k], 1e-4 * s)


@contract(('C19',), bounded=DOC_BOUND, samples=60, functions=('sdf:build_serial_chain_from_sdf',))
def sdf_serial_chain(w):
    """build_serial_chain_from_sdf: the path from the root, or from the named link, to the end link"""
    rng, root, links, joints, doc, W = sdf_document(w)
    end = rng.choice(links)
    up = {j.child: j.parent for j in joints}
    above = [end]
    while above[-1] in up: above.append(up[above[-1]])
    start = w.choose('start', [None, 'somewhere'])
    if start and len(above) > 2: start = rng.choice(above[1:])
    else: start = None
    f = w.fn('sdf', 'build_serial_chain_from_sdf')
    w.assume(len(above) > 1)
    sc = quiet(f, doc, end) if start is None else quiet(f, doc, end, start)
    check_serial(w, sc, root, end, joints, start)


# ------------------------------------------------------------------ MJCF
class Records:
    """a record with the fields of a MuJoCo view; anything else is out of the contract's reach"""

    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, n): raise Unsupported('MuJoCo field ' + n)


def mj_structure(w, bad=False):
    """bodies in depth-first order as MuJoCo numbers them; body 0 is the world"""
    k = w.choose('variant', list(range(VARIANTS)) if w.symbolic else list(range(100000)))
    rng = random.Random(k)
    par = tree(rng, w.symbolic, k)
    n = len(par)
    kids = [[i for i in range(n) if par[i] == p] for p in range(n)]
    order = []

    def go(i):
        order.append(i)
        for c in kids[i]: go(c)
    go(0)
    names = names_for(w, k)
    rng.shuffle(names)
    bodies = []
    for new, old in enumerate(order):
        b = Joint()
        b.id = new
        b.name = 'world' if new == 0 else names[new]
        b.parent = order.index(par[old]) if new else 0
        b.joints = []
        b.sites = []
        b.pos, b.quat = [0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0]
        bodies.append(b)
    return rng, bodies


def mj_fill(w, rng, nums, bodies):
    js = 0
    for b in bodies:
        if b.id:
            if rng.random() < 0.8: b.pos, _ = nums.vec()
            if rng.random() < 0.8: b.quat = nums.unit('q%d' % b.id)
            for _ in range(rng.choice([0, 1, 1, 1])):
                j = Joint()
                j.name = 'joint_%d' % (9 - js)
                j.id = js
                js += 1
                j.kind = rng.choice(['revolute', 'prismatic'])
                j.axis = nums.unit('a%d' % b.id, 3)
                j.limited = rng.random() < 0.5
                j.range = [nums.num()[0], nums.num()[0]] if w.symbolic else w.rng.choice([[w.rng.uniform(-2, 2), w.rng.uniform(2.1, 3)], [0.0, 2.0], [-1.5, 0.0], [0.25, 0.75], [-0.75, -0.25], [-9.0, 8.0], [-1, 1]])
                j.ref = 0
                if rng.random() < 0.4:
                    j.ref = nums.num()[0] if w.symbolic else w.rng.uniform(-1, 1)
                    w.assume(absv(j.ref) > w.const('0.001'))       # below, axis_angle_to_quaternion_small bounds the deviation
                b.joints.append(j)
        for s in range(rng.choice([0, 0, 1, 2])):
            t = Joint()
            t.name = 'site_%d_%d' % (b.id, 1 - s) if w.symbolic or s or rng.random() < 0.6 else 'at ' + b.name
            t.pos, _ = nums.vec()
            t.quat = nums.unit('s%d_%d' % (b.id, s))
            b.sites.append(t)


class MjNums(Nums):
    def unit(self, name, n=4):
        w = self.w
        u = w.unit('u' + name, (), n)
        return [w.at(u, k) for k in range(n)]

    def num(self, **k):
        self.n += 1
        v = self.w.real('x%d' % self.n, **k)
        return v, None

    def vec(self, n=3, **k): return [self.num()[0] for _ in range(n)], None


def fake_mujoco(w, bodies):
    """what mujoco.MjModel.from_xml_string returns for the model, as the documented views (symbolic world: the compiler of MuJoCo is external)"""
    import mujoco
    import numpy as np
    from ptv import shadow
    arr = lambda xs: shadow.SymArray(w.make((len(xs),), lambda i: tm.R(xs[i]), dtype=w.torch.float64))
    joints = [j for b in bodies for j in b.joints]
    sites = [(b, s) for b in bodies for s in b.sites]
    one = lambda x: np.array([x], dtype=np.int32)
    bv, adr = [], 0
    for b in bodies:
        bv.append(Records(id=b.id, name=b.name, parentid=one(b.parent), jntnum=one(len(b.joints)), jntadr=one(adr if b.joints else -1),
                          pos=arr(b.pos), quat=arr(b.quat)))
        adr += len(b.joints)
    T = {'revolute': mujoco.mjtJoint.mjJNT_HINGE, 'prismatic': mujoco.mjtJoint.mjJNT_SLIDE}
    jv = [Records(id=j.id, name=j.name, type=one(int(T[j.kind])), axis=arr(j.axis), pos=arr([0.0, 0.0, 0.0]), range=arr(j.range),
                  limited=np.array([1 if j.limited else 0], dtype=np.uint8), qpos0=arr([j.ref])) for j in joints]
    sv = [Records(id=i, name=s.name, bodyid=one(b.id), pos=arr(s.pos), quat=arr(s.quat)) for i, (b, s) in enumerate(sites)]

    def view(vs, what):
        def get(i):
            if isinstance(i, str):
                m = [v for v in vs if v.name == i]
                if not m: raise KeyError('Invalid name %r' % i)
                return m[0]
            return vs[int(i)]
        return get
    model = Records(nbody=len(bv), njnt=len(jv), nsite=len(sv), ngeom=0, body=view(bv, 'body'), joint=view(jv, 'joint'), jnt=view(jv, 'joint'), site=view(sv, 'site'))

    class MjModel:
        @staticmethod
        def from_xml_string(data, assets=None):
            if data != 'DOCUMENT': raise Unsupported('the document was changed')
            return model
    m = Records(MjModel=MjModel, mjtJoint=mujoco.mjtJoint)
    w.callee('mjcf', 'mujoco', m)
    return 'DOCUMENT'


def mj_document(w, rng, bodies):
    f = lambda xs: ' '.join(repr(float(x)) for x in xs)
    out = ['<mujoco model="m"><compiler angle="radian"/><worldbody>']

    def go(b):
        if b.id: out.append('<body name="%s" pos="%s" quat="%s">' % (b.name, f(b.pos), f(b.quat)))
        inner = []
        for j in b.joints:
            t = {'revolute': 'hinge', 'prismatic': 'slide'}[j.kind]
            inner.append('<joint name="%s" type="%s" axis="%s"%s%s/>' % (j.name, t, f([2.5 * x for x in j.axis]), ' ref="%r"' % j.ref if j.ref else '',
                         rng.choice([' limited="true"', '']) + ' range="%s"' % f(j.range) if j.limited else rng.choice(['', ' limited="false"', ' limited="false" range="%s"' % f(getattr(j, "range", [-1, 1]))])))
        for s in b.sites: inner.append('<site name="%s" pos="%s" quat="%s"/>' % (s.name, f(s.pos), f(s.quat)))
        inner.append(rng.choice(['<geom size="0.1"/>', '<geom type="capsule" size="0.1 0.2" pos="0 0 1"/>', '<geom size="0.1"/><geom type="box" size="1 1 1" euler="0 1 0"/>']))
        if b.id and rng.random() < 0.5: inner.append('<inertial pos="0 0 0" mass="1" diaginertia="1 1 1"/>')
        kids = [c for c in bodies if c.id and c.parent == b.id]
        rng.shuffle(inner)
        out.extend(inner)
        for c in kids: go(c)
        if b.id: out.append('</body>')
    go(bodies[0])
    out.append('</worldbody></mujoco>')
    return '\n'.join(out)


MJ_BOUND = ('model structure: %d models, every tree with up to four bodies, with joints, reference values, limits and sites varied; positions, '
            'orientations, axes, ranges and reference values arbitrary' % VARIANTS)


def mj_model(w):
    rng, bodies = mj_structure(w)
    mj_fill(w, rng, MjNums(w, rng), bodies)
    if w.symbolic: return rng, bodies, fake_mujoco(w, bodies)
    doc = mj_document(w, rng, bodies)
    w.note(document=doc)
    return rng, bodies, doc


def local(b): return S.homog(S.quat_matrix(b.quat), b.pos)


@contract(('C20',), bounded=MJ_BOUND, samples=150, budget=150, weight=4, functions=('mjcf:build_chain_from_mjcf', 'mjcf:_build_chain_recurse'))
def mjcf_chain(w):
    """build_chain_from_mjcf: bodies and sites at their declared places, joints with the declared type, axis, limits, reference value and name"""
    rng, bodies, doc = mj_model(w)
    how = w.choose('body', ['whole', 'whole', 'name', 'number'] if w.concrete else ['whole', 'name', 'number'])
    top = bodies[0] if how == 'whole' else bodies[rng.randrange(len(bodies))]
    f = w.fn('mjcf', 'build_chain_from_mjcf')
    chain = f(doc) if how == 'whole' else f(doc, top.name if how == 'name' else top.id)
    inside = [b for b in bodies if top in up_to_world(bodies, b)]
    fs = list(walk(chain._root))
    want = {b.name for b in inside} | {s.name for b in inside for s in b.sites}
    w.true('one frame per body and site', {x.name for x in fs} == want and len(fs) == len(want), 'frames %s, declared %s' % ([x.name for x in fs], want))
    by = {x.name: x for x in fs}
    w.true('root', chain._root.name == top.name)
    for b in inside:
        x = by[b.name]
        if b is not top: w.true('parent', any(c.name == b.name for c in by[bodies[b.parent].name].children), '%s is not a child of %s' % (b.name, bodies[b.parent].name))
        for s in b.sites:
            w.true('site parent', any(c.name == s.name for c in x.children))
            w.true('site is fixed', by[s.name].joint.joint_type == 'fixed')
            check_offset(w, 'site pose', by[s.name], local(s))
        w.true('link name', x.link.name == b.name)
        if b is top: continue
        E = local(b)
        if b.joints:
            j = b.joints[0]
            w.true('joint type', x.joint.joint_type == j.kind)
            w.true('joint name', x.joint.name == j.name)
            for i in range(3): w.same('axis[%d]' % i, w.at(x.joint.axis, i), j.axis[i], tol=1e-5)
            check_limits(w, 'limits', x.joint.limits, tuple(j.range) if j.limited else None)
            back = S.homog(S.rodrigues(j.axis, -j.ref), [0, 0, 0]) if j.kind == 'revolute' else S.homog(S.eye(3), [-j.ref * a for a in j.axis])
            if not (type(j.ref) is int and j.ref == 0): E = S.matmul(E, back)
        else: w.true('joint type', x.joint.joint_type == 'fixed')
        check_offset(w, 'pose', x, E)
    move = [b.joints[0].name for b in inside if b.joints and b is not top]
    w.true('movable joints', sorted(chain.get_joint_parameter_names()) == sorted(move), 'movable joints %s' % (chain.get_joint_parameter_names(),))
    if w.concrete and how == 'whole': against_mujoco(w, bodies, doc, chain)


def up_to_world(bodies, b):
    r = [b]
    while r[-1].id: r.append(bodies[r[-1].parent])
    return r


def against_mujoco(w, bodies, doc, chain):
    import mujoco
    m = mujoco.MjModel.from_xml_string(doc)
    d = mujoco.MjData(m)
    names = list(chain.get_joint_parameter_names())
    q = {n: w.rng.uniform(-1.5, 1.5) for n in names}
    for n in names: d.joint(n).qpos[0] = q[n]
    mujoco.mj_kinematics(m, d)
    r = chain.forward_kinematics(w.torch.tensor([[q[n] for n in names]]))
    for b in bodies:
        for nm, pos, mat in [(b.name, d.body(b.name).xpos, d.body(b.name).xmat)] + [(s.name, d.site(s.name).xpos, d.site(s.name).xmat) for s in b.sites]:
            G = r[nm].get_matrix()[0]
            sc = 1 + max(abs(float(x)) for x in pos)
            for i in range(3):
                w.near('position of %s as MuJoCo computes it' % nm, G[i, 3].item(), float(pos[i]), 1e-4 * sc)
                for k in range(3): w.near('orientation of %s as MuJoCo computes it' % nm, G[i, k].item(), float(mat[3 * i + k]), 1e-4)


@contract(('C20',), sym=False, samples=40, functions=('mjcf:build_chain_from_mjcf',))
def mjcf_several_joints(w):
    """a body with several joints is rejected"""
    rng, bodies = mj_structure(w)
    mj_fill(w, rng, MjNums(w, rng), bodies)
    w.assume(len(bodies) > 1)
    b = bodies[rng.randrange(1, len(bodies))]
    while len(b.joints) < 2:
        j = Joint()
        j.name, j.kind, j.axis, j.limited, j.ref = 'extra%d' % len(b.joints), 'revolute', [0.0, 0.0, 1.0], False, 0
        b.joints.append(j)
    if rng.random() < 0.3: b.joints.append(b.joints[-1].__class__()); b.joints[-1].__dict__.update(b.joints[0].__dict__, name='third')
    doc = mj_document(w, rng, bodies)
    w.note(document=doc)
    w.raises('several joints rejected', lambda: w.fn('mjcf', 'build_chain_from_mjcf')(doc), ValueError)


@contract(('C20',), bounded=MJ_BOUND, samples=60, functions=('mjcf:build_serial_chain_from_mjcf',))
def mjcf_serial_chain(w):
    """build_serial_chain_from_mjcf: the path to the end body or site"""
    rng, bodies, doc = mj_model(w)
    b = bodies[rng.randrange(len(bodies))]
    path = up_to_world(bodies, b)[::-1]
    f = w.fn('mjcf', 'build_serial_chain_from_mjcf')
    end = b.name
    if b.sites and rng.random() < 0.5: end = b.sites[0].name
    k = 0
    if w.choose('start', [None, 'somewhere']) and len(path) > 2: k = rng.randrange(0, len(path) - 1)
    w.assume(end != 'world')
    sc = f(doc, end) if not k else f(doc, end, path[k].name)
    w.true('serial joints', list(sc.get_joint_parameter_names()) == [x.joints[0].name for x in path[k + (1 if k else 0):] if x.joints], 'joints %s' % (list(sc.get_joint_parameter_names()),))
    w.true('serial end', sc._serial_frames[-1].name == end)
