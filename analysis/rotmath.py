"""Reference rotation formulas (mpmath), written from the documentation."""
import mpmath
M = mpmath.mpf


def matmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), M(0)) for j in range(len(B[0]))] for i in range(len(A))]


def axis_rot(ax, c, s):
    j, k = (ax + 1) % 3, (ax + 2) % 3
    R = [[M(int(i == q)) for q in range(3)] for i in range(3)]
    R[j][j] = R[k][k] = c
    R[k][j] = s
    R[j][k] = -s
    return R


def quat_mul(a, b):      # (w, x, y, z)
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [aw * bw - ax * bx - ay * by - az * bz, aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw]


def quat_rot(q, p):      # q p q* (scaled by |q|^2)
    c = [q[0], -q[1], -q[2], -q[3]]
    return quat_mul(quat_mul(q, [M(0)] + list(p)), c)[1:]


def quat_mat(q):         # scaled rotation: columns are the rotated basis vectors
    cols = [quat_rot(q, [M(int(i == k)) for i in range(3)]) for k in range(3)]
    return [[cols[j][i] for j in range(3)] for i in range(3)]


def aa_quat(a):
    n = mpmath.sqrt(sum(x * x for x in a))
    if n == 0:
        return [M(1), M(0), M(0), M(0)]
    s = mpmath.sin(n / 2) / n
    return [mpmath.cos(n / 2)] + [s * x for x in a]


def unit(q):
    n = mpmath.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def cross(x, y):
    return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]


def mp(x):
    from fractions import Fraction
    return M(x.numerator) / x.denominator if isinstance(x, Fraction) else M(x)
