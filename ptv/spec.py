"""Mathematical specification functions (generic over terms and floats)."""
from .world import sin, cos, sqrt, atan2, acos, absv, ite, pi


def quat_matrix(q):
    """rotation matrix of a unit quaternion (w, x, y, z)"""
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def quat_mul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw]


def quat_conj(q): return [q[0], -q[1], -q[2], -q[3]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): s = s + x * y
    return s


def norm(v): return sqrt(dot(v, v))


def matmul(A, B):
    n, m, p = len(A), len(B), len(B[0])
    return [[_sum(A[i][k] * B[k][j] for k in range(m)) for j in range(p)] for i in range(n)]


def _sum(it):
    s = None
    for x in it: s = x if s is None else s + x
    return s


def matvec(A, v): return [_sum(A[i][k] * v[k] for k in range(len(v))) for i in range(len(A))]
def transpose(A): return [list(r) for r in zip(*A)]
def eye(n): return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def rodrigues(axis, t):
    """rotation by t about the unit axis"""
    x, y, z = axis
    c, s = cos(t), sin(t)
    C = 1 - c
    return [[c + x * x * C, x * y * C - z * s, x * z * C + y * s],
            [y * x * C + z * s, c + y * y * C, y * z * C - x * s],
            [z * x * C - y * s, z * y * C + x * s, c + z * z * C]]


def rot_axis(k, t):
    """elementary rotation about coordinate axis k (0,1,2)"""
    c, s = cos(t), sin(t)
    if k == 0: return [[1, 0, 0], [0, c, -s], [0, s, c]]
    if k == 1: return [[c, 0, s], [0, 1, 0], [-s, 0, c]]
    return [[c, -s, 0], [s, c, 0], [0, 0, 1]]


def rpy_matrix(r, p, y):
    """fixed-axis roll, pitch, yaw:  Rz(yaw) Ry(pitch) Rx(roll)"""
    return matmul(rot_axis(2, y), matmul(rot_axis(1, p), rot_axis(0, r)))


def homog(Rm, t):
    return [list(Rm[i]) + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]


def det3(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1])
            - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


def rigid_inv(A):
    """inverse of a rigid 4x4"""
    Rt = [[A[j][i] for j in range(3)] for i in range(3)]
    t = matvec(Rt, [A[i][3] for i in range(3)])
    return homog(Rt, [-x for x in t])
