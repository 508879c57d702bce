"""Independent reference computations used by the monitors.

Everything here is pure Python (floats, ints, Fractions): no numpy, and
nothing from the code under test, so a defect there cannot hide itself.
Matrices are lists of rows.
"""
from math import sqrt, floor, ceil, cos, sin, pi, acos, radians
from itertools import product, permutations
from fractions import Fraction


# ---------------------------------------------------------------- linear algebra
def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def T(A):
    return [list(r) for r in zip(*A)]


def mul(A, B):
    Bt = list(zip(*B))
    return [[sum(a * b for a, b in zip(r, c)) for c in Bt] for r in A]


def mulv(A, v):
    return [sum(a * b for a, b in zip(r, v)) for r in A]


def sub(A, B):
    return [[a - b for a, b in zip(r, s)] for r, s in zip(A, B)]


def add(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]


def scal(k, A):
    return [[k * a for a in r] for r in A]


def outer(a, b):
    return [[x * y for y in b] for x in a]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(v):
    return sqrt(dot(v, v))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def maxabs(A):
    return max(abs(a) for r in A for a in r)


def maxdiff(A, B):
    """largest entry difference; inf when shapes differ or an entry is NaN or not real"""
    if len(A) != len(B):
        return float('inf')
    m = 0.0
    for r, s in zip(A, B):
        if len(r) != len(s):
            return float('inf')
        for a, b in zip(r, s):
            d = abs(a - b)
            if not d <= 1e300:
                return float('inf')
            if d > m:
                m = d
    return m


def det(A):
    """determinant; exact for integer entries (Bareiss), partial pivoting otherwise"""
    n = len(A)
    if all(isinstance(x, int) for r in A for x in r):
        M = [list(r) for r in A]
        sign, prev = 1, 1
        for k in range(n - 1):
            if M[k][k] == 0:
                for i in range(k + 1, n):
                    if M[i][k] != 0:
                        M[k], M[i] = M[i], M[k]
                        sign = -sign
                        break
                else:
                    return 0
            for i in range(k + 1, n):
                for j in range(k + 1, n):
                    M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
            prev = M[k][k]
        return sign * M[n - 1][n - 1]
    M = [[float(x) for x in r] for r in A]
    d = 1.0
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        if M[p][k] == 0:
            return 0.0
        if p != k:
            M[p], M[k] = M[k], M[p]
            d = -d
        d *= M[k][k]
        for i in range(k + 1, n):
            f = M[i][k] / M[k][k]
            if f:
                for j in range(k, n):
                    M[i][j] -= f * M[k][j]
    return d


def inv(A):
    n = len(A)
    M = [[float(x) for x in r] + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        M[p], M[k] = M[k], M[p]
        q = M[k][k]
        M[k] = [x / q for x in M[k]]
        for i in range(n):
            if i != k and M[i][k]:
                f = M[i][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


def inv_int(A):
    """exact inverse of an integer matrix, as Fractions"""
    n = len(A)
    M = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    for k in range(n):
        p = next(i for i in range(k, n) if M[i][k] != 0)
        M[p], M[k] = M[k], M[p]
        q = M[k][k]
        M[k] = [x / q for x in M[k]]
        for i in range(n):
            if i != k and M[i][k]:
                f = M[i][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [r[n:] for r in M]


def jacobi(A):
    """eigenvalues (ascending) and eigenvectors (rows) of a real symmetric matrix"""
    n = len(A)
    A = [[float((A[i][j] + A[j][i])) / 2 for j in range(n)] for i in range(n)]
    V = eye(n)
    for _ in range(100):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-300 or off < 1e-34 * sum(A[i][i] ** 2 for i in range(n)):
            break
        for p in range(n - 1):
            for q in range(p + 1, n):
                if A[p][q] == 0.0:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = (1.0 if th >= 0 else -1.0) / (abs(th) + sqrt(th * th + 1))
                c = 1 / sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    a, b = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * a - s * b, s * a + c * b
                for k in range(n):
                    a, b = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * a - s * b, s * a + c * b
                for k in range(n):
                    a, b = V[k][p], V[k][q]
                    V[k][p], V[k][q] = c * a - s * b, s * a + c * b
    order = sorted(range(n), key=lambda i: A[i][i])
    return [A[i][i] for i in order], [[V[k][i] for k in range(n)] for i in order]


def sqrtm(C):
    w, V = jacobi(C)
    n = len(C)
    return [[sum(sqrt(max(w[k], 0.0)) * V[k][i] * V[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def is_rotation(Q, tol=1e-8):
    n = len(Q)
    return maxdiff(mul(Q, T(Q)), eye(n)) <= tol and abs(det(Q) - 1) <= 10 * tol


def rodrigues(t, axis):
    a = norm(axis)
    x, y, z = [u / a for u in axis]
    c, s, k = cos(t), sin(t), 1 - cos(t)
    return [[c + x * x * k, x * y * k - z * s, x * z * k + y * s],
            [y * x * k + z * s, c + y * y * k, y * z * k - x * s],
            [z * x * k - y * s, z * y * k + x * s, c + z * z * k]]


def gram(E):
    return mul(T(E), E)


def cholesky_upper(G):
    """R upper triangular with R^T R = G"""
    n = len(G)
    R = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            s = G[i][j] - sum(R[k][i] * R[k][j] for k in range(i))
            if i == j:
                R[i][i] = sqrt(s)
            else:
                R[i][j] = s / R[i][i]
    return R


# ---------------------------------------------------------------- lattices
def short_vectors(E, bound):
    """all integer vectors l with |E l| <= bound (brute force over an exact box)"""
    n = len(E)
    Ei = inv(E)
    b = [int(floor(norm(r) * bound + 1e-9)) for r in Ei]
    out = []
    cols = T(E)
    lim = bound * bound * (1 + 1e-12) + 1e-300
    for l in product(*[range(-k, k + 1) for k in b]):
        v = [sum(l[j] * cols[j][i] for j in range(n)) for i in range(n)]
        q = sum(x * x for x in v)
        if q <= lim:
            out.append((list(l), v, q))
    return out


def lattice_group(E, rtol=1e-7):
    """all integer M with M^T G M = G, by exhaustive search over short vectors"""
    n = len(E)
    G = gram(E)
    scale = max(G[i][i] for i in range(n))
    bound = sqrt(scale) * (1 + 1e-6)
    sv = short_vectors(E, bound)
    cand = [[(l, v) for l, v, q in sv if abs(q - G[i][i]) <= rtol * scale] for i in range(n)]
    out = []

    def rec(k, chosen):
        if k == n:
            M = T([l for l, _ in chosen])
            if abs(det(M)) == 1:
                out.append(M)
            return
        for l, v in cand[k]:
            if all(abs(dot(v, chosen[i][1]) - G[i][k]) <= rtol * scale for i in range(k)):
                rec(k + 1, chosen + [(l, v)])
    rec(0, [])
    return out


def cauchy_dist(L, EA, EM):
    Fi = mul(mul(EA, L), inv(EM))
    C = mul(Fi, T(Fi))
    n = len(L)
    return sum((C[i][j] - (1 if i == j else 0)) ** 2 for i in range(n) for j in range(n))


def strain_dist(L, EA, EM):
    Fi = mul(mul(EA, L), inv(EM))
    w, _ = jacobi(mul(Fi, T(Fi)))
    return sum((sqrt(max(x, 0.0)) - 1) ** 2 for x in w)


def ericksen_dist(L, EA, EM):
    g2 = gram(EM)
    M = sub(mul(mul(T(L), gram(EA)), L), g2)
    return sum(x * x for r in M for x in r) / sum(x * x for r in g2 for x in r)


def all_correspondences(EA, EM, D, dets=None, limit=2000000):
    """every integer L, det L != 0, with Cauchy distance <= D (exact branch and bound).

    Returns a list of (distance, L), or None when more than limit nodes are visited.
    """
    n = len(EA)
    R = cholesky_upper(gram(EM))
    rad = sqrt(1 + sqrt(D)) * (1 + 1e-9)
    eM = [norm(c) for c in T(EM)]
    # |E_A l_j| <= sqrt(1+sqrt(D)) |e_j|
    pool = short_vectors(EA, rad * max(eM))
    cand = []
    for j in range(n):
        lim = (rad * eM[j]) ** 2
        cand.append([(l, v) for l, v, q in pool if 0 < q <= lim])
    out = []
    nodes = [0]
    Dlim = D * (1 + 1e-9) + 1e-12

    def rec(k, Y, ls, part):
        if k == n:
            L = T(ls)
            d = det(L)
            if d != 0 and (dets is None or d in dets or -d in dets):
                out.append((part, L))
            return True
        for l, v in cand[k]:
            nodes[0] += 1
            if nodes[0] > limit:
                return False
            y = list(v)
            for i in range(k):
                f = R[i][k]
                if f:
                    y = [a - f * b for a, b in zip(y, Y[i])]
            y = [a / R[k][k] for a in y]
            p = part + (dot(y, y) - 1) ** 2
            if p > Dlim:
                continue
            for i in range(k):
                p += 2 * dot(y, Y[i]) ** 2
            if p > Dlim:
                continue
            if not rec(k + 1, Y + [y], ls + [l], p):
                return False
        return True
    if not rec(0, [], [], 0.0):
        return None
    return out


def classes(cors, GA, GM):
    """group correspondences into equivalence classes; sorted list of (distance, representative)"""
    seen = set()
    res = []
    for d, L in sorted(cors, key=lambda x: x[0]):
        key = tuple(x for r in L for x in r)
        if key in seen:
            continue
        res.append((d, L))
        for a in GA:
            aL = mul(a, L)
            for b in GM:
                seen.add(tuple(x for r in mul(aL, b) for x in r))
    return res


# ---------------------------------------------------------------- integers
def divisors(n):
    return tuple(i for i in range(1, n + 1) if n % i == 0)


def hnf_count(n, N):
    """number of sublattices of index n in Z^N"""
    if N == 1:
        return 1
    return sum(d ** (N - 1) * hnf_count(n // d, N - 1) for d in divisors(n))


def is_hnf(H):
    """lower triangular, positive diagonal, -H_ii < H_ij <= 0 left of the diagonal"""
    n = len(H)
    for i in range(n):
        if not H[i][i] > 0:
            return False
        for j in range(n):
            if j > i and H[i][j] != 0:
                return False
            if j < i and not (-H[i][i] < H[i][j] <= 0):
                return False
    return True


def hnf(M):
    """column-style Hermite normal form of a nonsingular integer matrix, convention as is_hnf"""
    n = len(M)
    c = [list(x) for x in zip(*M)]      # columns
    for r in range(n):
        for j in range(r + 1, n):
            while c[j][r] != 0:
                q = c[r][r] // c[j][r]
                c[r] = [a - q * b for a, b in zip(c[r], c[j])]
                c[r], c[j] = c[j], c[r]
        if c[r][r] < 0:
            c[r] = [-a for a in c[r]]
    for j in range(n):
        for r in range(j + 1, n):
            q = -((-c[j][r]) // c[r][r])      # ceil
            c[j] = [a - q * b for a, b in zip(c[j], c[r])]
    return [list(x) for x in zip(*c)]
