"""Workload generators shared by the property modules (pure Python, seeded)."""
from math import acos, degrees, pi, sqrt, cos
from . import oracles as O

NPAR = {3: [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6], 2: [1, 2, 2, 1, 3]}
LAUE_ORDER = {3: [24, 24, 24, 12, 6, 8, 8, 4, 4, 4, 4, 2, 2, 1], 2: [4, 2, 2, 6, 2]}
POINT_ORDER_2D = [8, 4, 4, 12, 2]
CENTRING = {3: [1, 4, 2, 1, 1, 1, 2, 1, 2, 4, 2, 1, 2, 1], 2: [1, 1, 2, 1, 1]}


def length(rnd):
    return rnd.choice([rnd.uniform(0.7, 6.0), rnd.uniform(1, 4), rnd.uniform(2, 12), float(rnd.randint(1, 9)),
                       round(rnd.uniform(1, 6), 3)])


def lengths(rnd, n, sep=0.03):
    while True:
        v = [length(rnd) for _ in range(n)]
        if max(v) / min(v) < 6 and all(abs(a - b) > sep * a for i, a in enumerate(v) for b in v[i + 1:]):
            return v


def triclinic_ok(al, be, ga):
    a, b, c = [cos(x * pi / 180) for x in (al, be, ga)]
    return 1 + 2 * a * b * c - a * a - b * b - c * c > 0.15


def angle(rnd, lo=62, hi=118):
    while True:
        a = rnd.choice([rnd.uniform(lo, hi), round(rnd.uniform(lo, hi), 2), float(rnd.randint(lo, hi))])
        if abs(a - 90) > 1.5 and abs(a - 60) > 1.5 and abs(a - degrees(acos(-1 / 3.))) > 1.5 and abs(a - 120) > 1.5:
            return a


NLEN = {3: [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3], 2: [1, 2, 2, 1, 2]}
UNITS = [1e-10, 1e-8, 1e-3, 0.05, 25.0, 100.0, 1e3, 1e6]


def wide(rnd, lid, p, dim=3):
    """the same cell in another unit of length now and then (metres, nanometres, picometres)"""
    if rnd.random() < 0.15:
        k = rnd.choice(UNITS)
        return [x * k if i < NLEN[dim][lid - 1] else x for i, x in enumerate(p)]
    return p


def bravais_params(rnd, lid, dim=3):
    """generic parameters of a Bravais type"""
    if dim == 2:
        return {1: lambda: lengths(rnd, 1), 2: lambda: lengths(rnd, 2), 3: lambda: lengths(rnd, 2),
                4: lambda: lengths(rnd, 1), 5: lambda: lengths(rnd, 2) + [angle(rnd)]}[lid]()
    if lid <= 3:
        return lengths(rnd, 1)
    if lid in (4, 6, 7):
        return lengths(rnd, 2)
    if lid == 5:
        return lengths(rnd, 1) + [angle(rnd, 40, 115)]
    if lid <= 11:
        return lengths(rnd, 3)
    if lid <= 13:
        return lengths(rnd, 3) + [angle(rnd)]
    while True:
        a = [angle(rnd, 65, 115) for _ in range(3)]
        if triclinic_ok(*a) and min(abs(a[0] - a[1]), abs(a[0] - a[2]), abs(a[1] - a[2])) > 1:
            return lengths(rnd, 3) + a


def special_params(rnd, lid, dim=3):
    """parameters at which a type has the symmetry of a higher one"""
    a, b, c = lengths(rnd, 3)
    if dim == 2:
        return {1: [a], 2: [a, a], 3: rnd.choice([[a, a], [a, a * sqrt(3)], [a * sqrt(3), a]]), 4: [a],
                5: rnd.choice([[a, b, 90.], [a, a, 90.], [a, a, 60.], [a, a, 120.]])}[lid]
    if lid <= 3:
        return [a]
    if lid == 4:
        return [a, a]
    if lid == 5:
        return [a, angle(rnd, 40, 115)]     # its axes are not along those of a cubic lattice at 60, 90 or 109.47 degrees
    if lid in (6, 7):
        return [a, a]
    if lid == 8:
        return rnd.choice([[a, a, c], [a, b, a], [a, b, b], [a, a, a]])
    if lid == 9:
        return rnd.choice([[a, a, c], [a, a * sqrt(3), c], [a * sqrt(3), a, c]])
    if lid in (10, 11):
        return rnd.choice([[a, a, a], [a, a, c]] if lid == 11 else [[a, a, a]])
    if lid in (12, 13):
        return [a, b, c, 90.]
    return [a, b, c, 90., 90., 90.]


def conv_metric(lid, p, dim=3):
    """lengths and angles (degrees) of the conventional cell"""
    if dim == 2:
        return {1: ([p[0]] * 2, 90.), 2: (p[:2], 90.), 3: (p[:2], 90.), 4: ([p[0]] * 2, 60.),
                5: (p[:2], p[-1])}[lid]
    if lid <= 3:
        return [p[0]] * 3, [90.] * 3
    if lid == 4:
        return [p[0], p[0], p[1]], [90., 90., 60.]
    if lid == 5:
        return [p[0]] * 3, [p[1]] * 3
    if lid in (6, 7):
        return [p[0], p[0], p[1]], [90.] * 3
    if lid <= 11:
        return list(p), [90.] * 3
    if lid <= 13:
        return list(p[:3]), [90., p[3], 90.]
    return list(p[:3]), list(p[3:])


def centrings(lid, dim=3):
    """fractional positions of the lattice points of the conventional cell"""
    if dim == 2:
        return [(0, 0), (.5, .5)] if lid == 3 else [(0, 0)]
    if lid in (2, 10):
        return [(0, 0, 0), (.5, .5, 0), (.5, 0, .5), (0, .5, .5)]
    if lid in (3, 7, 11):
        return [(0, 0, 0), (.5, .5, .5)]
    if lid in (9, 13):
        return [(0, 0, 0), (.5, .5, 0)]
    return [(0, 0, 0)]


def unimodular(rnd, n, steps=None, size=2, limit=60, proper=False):
    """random integer matrix of determinant +-1, entries bounded by limit"""
    while True:
        M = [[int(i == j) for j in range(n)] for i in range(n)]
        if n > 1:
            for _ in range(rnd.randint(1, 3 * n) if steps is None else steps):
                i, j = rnd.sample(range(n), 2)
                k = rnd.choice([-1, 1]) * rnd.randint(1, size)
                for r in range(n):
                    M[r][j] += k * M[r][i]
            p = list(range(n))
            rnd.shuffle(p)
            M = [[row[k] for k in p] for row in M]
        if rnd.random() < 0.5:
            j = rnd.randrange(n)
            for r in range(n):
                M[r][j] = -M[r][j]
        if proper and O.det(M) != 1:
            for r in range(n):
                M[r][0] = -M[r][0]
        if O.maxabs(M) <= limit:
            return M


def rotation3(rnd):
    while True:
        ax = [rnd.gauss(0, 1) for _ in range(3)]
        if O.norm(ax) > 0.1:
            return O.rodrigues(rnd.uniform(0.1, 6.1), ax)


def rotation(rnd, n):
    """random proper rotation by Gram-Schmidt"""
    while True:
        rows = []
        good = True
        for _ in range(n):
            v = [rnd.gauss(0, 1) for _ in range(n)]
            for r in rows:
                d = O.dot(v, r)
                v = [a - d * b for a, b in zip(v, r)]
            k = O.norm(v)
            if k < 0.1:
                good = False
                break
            v = [a / k for a in v]
            for r in rows:          # twice is enough
                d = O.dot(v, r)
                v = [a - d * b for a, b in zip(v, r)]
            k = O.norm(v)
            rows.append([a / k for a in v])
        if good:
            if O.det(rows) < 0:
                rows[0] = [-a for a in rows[0]]
            return rows


def base(rnd, n):
    """well conditioned random base"""
    while True:
        E = [[rnd.uniform(-1, 1) + (1.5 if i == j else 0) for j in range(n)] for i in range(n)]
        k = rnd.choice([1.0, rnd.uniform(0.3, 5)])
        E = [[k * x for x in r] for r in E]
        d = abs(O.det(E))
        if d > 0.25 * k ** n:
            if rnd.random() < 0.3:
                E = [[-x if j == 0 else x for j, x in enumerate(r)] for r in E]
            return E


def wide_base(rnd, n):
    E = base(rnd, n)
    if rnd.random() < 0.15:
        k = rnd.choice(UNITS)
        E = [[k * x for x in r] for r in E]
    return E


KINDS = ['tetragonal', 'orthorhombic', 'orthorhombic110', 'rhombohedral', 'monoclinic', 'monoclinic110', 'triclinic',
         'cubic', 'mono_x', 'mono_y', 'tetra_x']


def stretch(rnd, kind, s=None):
    """transformation stretch tensor of a given symmetry, away from higher symmetry"""
    s = s if s is not None else rnd.choice([0.04, 0.08, 0.15, 0.25])
    while True:
        def r():
            return 1 + s * rnd.uniform(-1, 1)

        def o():
            return s * rnd.choice([-1, 1]) * rnd.uniform(0.25, 0.9)
        a, c, d, b, e = r(), r(), r(), o(), o()
        if kind == 'cubic':
            U = [[a, 0, 0], [0, a, 0], [0, 0, a]]
        elif kind == 'tetragonal':
            U = [[a, 0, 0], [0, a, 0], [0, 0, c]]
        elif kind == 'tetra_x':
            U = [[c, 0, 0], [0, a, 0], [0, 0, a]]
        elif kind == 'orthorhombic':
            U = [[a, 0, 0], [0, c, 0], [0, 0, d]]
        elif kind == 'orthorhombic110':
            U = [[a, b, 0], [b, a, 0], [0, 0, d]]
        elif kind == 'rhombohedral':
            U = [[a, b, b], [b, a, b], [b, b, a]]
        elif kind == 'monoclinic':
            U = [[a, b, 0], [b, c, 0], [0, 0, d]]
        elif kind == 'mono_x':
            U = [[a, 0, 0], [0, c, b], [0, b, d]]
        elif kind == 'mono_y':
            U = [[a, 0, b], [0, c, 0], [b, 0, d]]
        elif kind == 'monoclinic110':
            U = [[a, b, e], [b, a, e], [e, e, d]]
        else:
            g = o()
            U = [[a, b, e], [b, c, g], [e, g, d]]
        vals = [U[0][0], U[1][1], U[2][2]]
        gap = 0.08 * s
        if kind in ('orthorhombic', 'triclinic') and (abs(a - c) < gap or abs(a - d) < gap or abs(c - d) < gap):
            continue
        if kind in ('monoclinic', 'mono_x', 'mono_y') and min(abs(vals[0] - vals[1]), abs(vals[0] - vals[2]),
                                                              abs(vals[1] - vals[2])) < gap:
            continue
        if kind in ('tetragonal', 'tetra_x') and abs(a - c) < gap:
            continue
        if kind in ('orthorhombic110',) and abs(abs(d - a) - abs(b)) < gap:
            continue
        if kind == 'monoclinic110' and (abs(b - e) < gap or abs(b + e) < gap or abs(a - d) < gap):
            continue
        if kind == 'triclinic' and min(abs(abs(b) - abs(e)), abs(abs(b) - abs(g)), abs(abs(e) - abs(g))) < gap:
            continue
        w, _ = O.jacobi(U)
        if w[0] > 0.45:
            return U


def lists(A):
    return [list(map(float, r)) for r in A]
