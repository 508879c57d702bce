"""workloads and monitors shared by the lattice correspondence properties"""
import sys
import importlib
from . import oracles as O, gen as G
from .core import Skip
from .util import mat, vec, imat

NLEN = {3: [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3], 2: [1, 2, 2, 1, 2]}
DIST = {'Cauchy': O.cauchy_dist, 'strain': O.strain_dist, 'Ericksen': O.ericksen_dist}


def module(name):
    return importlib.import_module('structrans.marttrans.lat_cor.' + name)


def scaled(lid, p, k, d):
    return [x * k if j < NLEN[d][lid - 1] else x for j, x in enumerate(p)]


def volume(lid, p, d):
    from structrans import BravaisLattice
    return abs(O.det(BravaisLattice(lid, p, dim=d).base().tolist()))


def pair(rnd, d, ia=None, im=None, ratios=(1, 1, 2, 2, 3, 4), spread=.07):
    """parent and product lattices with a given ratio of primitive cell volumes"""
    n = 14 if d == 3 else 5
    ia = ia or rnd.randint(1, n)
    im = im or rnd.randint(1, n)
    pa, pm = G.bravais_params(rnd, ia, d), G.bravais_params(rnd, im, d)
    r = rnd.choice(ratios) * (1 + spread * rnd.uniform(-1, 1))
    pm = scaled(im, pm, (r * volume(ia, pa, d) / volume(im, pm, d)) ** (1. / d), d)
    return ia, pa, im, pm


def realistic(rnd):
    """textbook transformations with scattered lattice parameters"""
    a = rnd.uniform(2.9, 3.1)

    def j(x, s=.03):
        return x * (1 + s * rnd.uniform(-1, 1))
    return rnd.choice([
        lambda: (2, [a], 7, [j(a / 2 ** .5), j(a)]),                              # fcc to bct (Bain)
        lambda: (1, [a], 6, [j(a), j(a)]),                                        # cubic to tetragonal
        lambda: (3, [a], 2, [j(1.26 * a)]),                                       # bcc to fcc
        lambda: (1, [a], 8, [j(a), j(a), j(a)]),
        lambda: (3, [a], 7, [j(a), j(a)]),
    ])()


def near(rnd, others=False):
    """3D pairs close to each other, for which the exhaustive solver is fast"""
    a = rnd.uniform(2, 4)

    def j(x, s=.05):
        return x * (1 + s * rnd.uniform(-1, 1))
    c = [lambda: (1, [a], 1, [j(a)]), lambda: (1, [a], 6, [j(a), j(a)]), lambda: (1, [a], 8, [j(a), j(a), j(a)]),
         lambda: (1, [a], 12, [j(a), j(a), j(a), 90 + rnd.choice([-1, 1]) * rnd.uniform(2, 6)]),
         lambda: (6, [a, j(a)], 8, [j(a), j(a), j(a)]),
         lambda: (1, [a], 5, [j(a), 90 + rnd.choice([-1, 1]) * rnd.uniform(2, 6)])]
    if others:
        c = [lambda: (2, [a], 7, [j(a / 2 ** .5), j(a)]), lambda: (3, [a], 7, [j(a), j(a)]), lambda: (3, [a], 2, [j(1.26 * a)])]
    return rnd.choice(c)()


def flat(rnd):
    """2D pair for which the singular integer matrix ((5, 5), (3, 3)), whose floating point determinant is not zero, is
    among the closest ones"""
    b = rnd.uniform(1.08, 1.12)
    h = b / (1 + b * b) ** .5                       # the product lattice projected on the normal of (1, -1)
    v, u = (h, 0.), (rnd.uniform(.19, .21), rnd.uniform(1.18, 1.22))
    a1 = [2 * x - 3 * y for x, y in zip(v, u)]
    a2 = [-3 * x + 5 * y for x, y in zip(v, u)]     # 5 a1 + 3 a2 = v
    n1, n2 = O.norm(a1), O.norm(a2)
    return 5, [n1, n2, O.acos(O.dot(a1, a2) / n1 / n2) * 180 / O.pi], 5, [1., b, 90.]


def lattices(ia, pa, im, pm, d):
    """bases, conventional transformations and exhaustive lattice groups"""
    from structrans import BravaisLattice
    A, M = BravaisLattice(ia, pa, dim=d), BravaisLattice(im, pm, dim=d)
    EA, EM = mat(A.base()), mat(M.base())
    return EA, EM, mat(A.conventional_trans()), mat(M.conventional_trans()), O.lattice_group(EA), O.lattice_group(EM)


def proper(Gp):
    return [m for m in Gp if O.det(m) > 0]


def key(L):
    return tuple(x for r in L for x in r)


def orbit(L, GA, GM):
    out = set()
    for a in GA:
        aL = O.mul(a, L)
        for b in GM:
            out.add(key(O.mul(aL, b)))
    return out


def total(sol):
    """the correspondence between primitive cells of one returned solution"""
    l = imat(sol['l'], 'l', 1e-9)
    if 'h' in sol:
        return O.mul(imat(sol['h'], 'h', 1e-9), l), imat(sol['h'], 'h', 1e-9), l
    return l, None, l


def check_solutions(mon, sols, lat, d, nsol, dist, direct):
    EA, EM, CA, CM, GA, GM = lat
    mon.ok(isinstance(sols, list) and len(sols) > 0, 'no solution is returned')
    groups = (GA, GM) if direct else (proper(GA), proper(GM))
    seen = {}
    last = None
    CAi = O.inv(CA)
    for k, s in enumerate(sols):
        L, h, l = total(s)
        det = O.det(L)
        mon.ok(det != 0, 'singular correspondence', L=L)
        if any(O.det(g) < 0 for g in groups[0] + groups[1]):
            mon.ok(det > 0, 'reverses the orientation, although an equivalent one preserves it', L=L)
        if h is not None:
            mon.ok(O.is_hnf(h), 'h is not a Hermite normal form', h=h)
            mon.ok(abs(O.det(l)) == 1, 'l does not describe the same sublattice as h', l=l)
        dd = float(s['d'])
        want = DIST[dist](L, EA, EM)
        mon.ok(abs(dd - want) < 1e-7 * (1 + want), 'distance is not that of the returned correspondence', d=dd, want=want, L=L, dist=dist)
        mon.ok(last is None or dd >= last - 1e-9 * (1 + last), 'solutions are not sorted by distance', k=k, d=dd, last=last)
        last = dd
        cor = mat(s['cor'], 'cor')
        mon.ok(O.maxdiff(cor, O.mul(O.mul(CAi, L), CM)) < 1e-8 * (1 + O.maxabs(cor)), 'cor is not the correspondence of the conventional cells',
               cor=cor, L=L)
        F = O.mul(EM, O.inv(O.mul(EA, L)))
        C = O.mul(O.T(F), F)
        U = mat(s['u'], 'u')
        sc = O.maxabs(C)
        mon.ok(O.maxdiff(O.mul(U, U), C) < 1e-6 * sc, 'u^2 is not F^T F', u=U, L=L)
        mon.ok(O.maxdiff(U, O.T(U)) < 1e-6 * sc, 'u is not symmetric', u=U)
        w, _ = O.jacobi(U)
        mon.ok(w[0] > 0, 'u is not positive definite', w=w)
        lam = vec(s['lams'], 'lams')
        mon.ok(len(lam) == d and max(abs(x - y) for x, y in zip(lam, w)) < 1e-6 * sc, 'lams are not the sorted eigenvalues of u', lams=lam, w=w)
        kk = key(L)
        mon.ok(kk not in seen, 'two solutions are equivalent', first=seen.get(kk), second=k, L=L)
        for o in orbit(L, *groups):
            seen[o] = k
        mon.count('solutions checked')
    if len(sols) > nsol:
        t = float(sols[nsol - 1]['d'])
        mon.ok(all(float(s['d']) <= t * (1 + 1e-9) + 1e-12 for s in sols[nsol:]),
               'more solutions than asked for, and they are not tied with the last one', nsol=nsol, d=[float(s['d']) for s in sols])
        mon.count('ties beyond nsol')


def window(EA, EM, vol_th):
    """admissible sublattice indices; Skip when the volume ratio is at the edge of the window"""
    r = abs(O.det(EM)) / abs(O.det(EA))
    lo, hi = (1 - vol_th) * r, (1 + vol_th) * r
    for x in (lo, hi, 2 * r):
        if abs(x - round(x)) < 1e-6:
            raise Skip('volume ratio at the edge of the window')
    v = [k for k in range(max(1, int(O.ceil(lo))), int(O.floor(hi)) + 1)]
    return v or [max(1, int(round(r)))]


def hnfs(n, d):
    """all Hermite normal forms of determinant n"""
    out = []
    for diag in O.product(O.divisors(n), repeat=d):
        p = 1
        for x in diag:
            p *= x
        if p != n:
            continue
        slots = [(i, j) for i in range(d) for j in range(i)]
        for vals in O.product(*[range(diag[i]) for i, j in slots]):
            H = [[diag[i] if i == j else 0 for j in range(d)] for i in range(d)]
            for (i, j), v in zip(slots, vals):
                H[i][j] = -v
            out.append(H)
    return out


def hnf_orbits(dets, GA, d):
    """partition of the Hermite normal forms into classes of symmetry-related sublattices"""
    cls, k = {}, 0
    for n in dets:
        for H in hnfs(n, d):
            if key(H) in cls:
                continue
            for g in GA:
                cls[key(O.hnf(O.mul(g, H)))] = k
            k += 1
    return cls, k
