"""Rank-one connections: the solvers return exactly the solutions of the compatibility equation"""
import random
import numpy as np
from math import sqrt
from .. import oracles as O, gen as G
from ..util import mat, vec, dress_arr

RULE = ('symmetric positive definite tensors with middle eigenvalue 1 (from random shears b, m and from prescribed spectra, also '
        'with 1 as a double eigenvalue), with middle eigenvalue away from 1, indefinite and non-symmetric ones; every returned '
        '(b, m) is put back into (I + m b)(I + b m) = C, the shear used to build C must be among the answers; compatibility of '
        'pairs of deformations is compared with the spectrum; non-trivial when solutions exist')
FLOORS = {'solutions checked': 800, 'incompatible': 200, 'pair verdicts': 300, 'rejections observed': 100}


def cases(tier, rnd):
    for i in range(160 if tier == 'quick' else 5000):
        for k in ('shear', 'shear', 'spectrum', 'spectrum', 'edge', 'far', 'far', 'pair', 'pair', 'bad'):
            yield {'kind': k, 'i': i}


def unit(rnd, n=3):
    while True:
        v = [rnd.gauss(0, 1) for _ in range(n)]
        if O.norm(v) > .2:
            return [x / O.norm(v) for x in v]


def shear(rnd, s):
    """I + b m with positive determinant, |m| = 1"""
    while True:
        b, m = [s * x for x in unit(rnd)], unit(rnd)
        if rnd.random() < .3:
            m = rnd.choice([[1., 0, 0], [0, 0, 1.], [sqrt(.5), sqrt(.5), 0]])
        if 1 + O.dot(b, m) > 0.3:
            return b, m


def left(b, m):
    F = O.add(O.eye(3), O.outer(b, m))
    return O.mul(O.T(F), F)


def spectrum(rnd, w):
    R = G.rotation3(rnd) if rnd.random() < .7 else O.eye(3)
    C = O.mul(O.mul(R, [[w[i] if i == j else 0. for j in range(3)] for i in range(3)]), O.T(R))
    return [[(C[i][j] + C[j][i]) / 2 for j in range(3)] for i in range(3)]


def check(mon, sols, C, what, tol, known=None):
    mon.ok(sols is not None and len(sols) == 2, what + ': two solutions expected', C=C, sols=sols)
    out = []
    for b, m in sols:
        b, m = vec(b, what), vec(m, what)
        mon.ok(abs(O.norm(m) - 1) < 1e-9, what + ': m is not a unit vector', C=C, m=m)
        mon.ok(O.maxdiff(left(b, m), C) < tol, what + ': (I + m b)(I + b m) is not C', C=C, b=b, m=m, err=O.maxdiff(left(b, m), C))
        mon.ok(1 + O.dot(b, m) > 0, what + ': I + b m reverses the orientation', C=C, b=b, m=m)
        out.append(O.outer(b, m))
        mon.count('solutions checked')
    if known:
        K = O.outer(*known)
        mon.ok(any(O.maxdiff(K, o) < 10 * tol for o in out), what + ': the shear C was made from is not among the solutions', C=C,
               known=K, sols=out)
    return out


def run(case, mon):
    from structrans import AM_Solver, isCompatible
    from structrans.util import solve_rank1
    from structrans.marttrans.Compatibility import CompatibilityError
    rnd = random.Random(case['s'])
    kind = case['kind']
    if kind in ('shear', 'spectrum', 'edge'):
        known, tol = None, 1e-7
        if kind == 'shear':
            b, m = shear(rnd, rnd.choice([.003, .02, .1, .3, .8]))
            C, known = left(b, m), (b, m)
        elif kind == 'spectrum':
            C = spectrum(rnd, [rnd.uniform(.3, .99), 1., rnd.uniform(1.01, 2.5)])
        else:                            # 1 is a double eigenvalue
            C = spectrum(rnd, rnd.choice([[rnd.uniform(.3, .95), 1., 1.], [1., 1., rnd.uniform(1.05, 2.)]]))
            tol = 1e-6
        for f, name in ((AM_Solver, 'AM_Solver'), (solve_rank1, 'solve_rank1')):
            arg = dress_arr(rnd, C)
            keep = arg.tolist()
            out = check(mon, f(arg), C, name, tol, known)
            mon.ok(arg.tolist() == keep, name + ': the input was changed')
            if kind == 'spectrum':
                mon.ok(O.maxdiff(*out) > 1e-5, name + ': the two solutions coincide', C=C)
    elif kind == 'far':
        w = sorted(rnd.uniform(.4, 2) for _ in range(3))
        if rnd.random() < .4:
            w = [rnd.uniform(.3, .97), 1 + rnd.choice([-1, 1]) * rnd.choice([5e-4, 1e-3, 3e-3, 8e-3]), rnd.uniform(1.03, 2)]
        if abs(w[1] - 1) < 4e-4:
            w = [.5, 1.3, 1.5]
        if rnd.random() < .3:
            w = rnd.choice([[1., rnd.uniform(1.01, 1.2), 1.5], [.5, rnd.uniform(.8, .99), 1.]])
        C = spectrum(rnd, w)
        mon.ok(AM_Solver(dress_arr(rnd, C)) is None, 'AM_Solver found an interface for a middle eigenvalue other than 1', C=C, w=w)
        mon.count('incompatible')
        mon.trivial = True
    elif kind == 'pair':
        B = G.base(rnd, 3) if rnd.random() < .5 else G.stretch(rnd, rnd.choice(G.KINDS))
        k = rnd.randrange(4)
        if k == 0:
            A = O.mul(G.rotation3(rnd), O.add(B, O.outer([rnd.choice([.02, .2, 1.]) * x for x in unit(rnd)], unit(rnd))))
        elif k == 1:
            A = O.mul(O.mul(G.rotation3(rnd), B), G.rotation3(rnd))
        elif k == 2:
            # 1 is an extreme relative stretch: not compatible
            w = rnd.choice([[1., rnd.uniform(1.05, 1.3), 1.6], [.5, rnd.uniform(.7, .95), 1.]])
            A = O.mul(O.mul(G.rotation3(rnd), O.sqrtm(spectrum(rnd, w))), B)
        elif rnd.random() < .5:
            w = [rnd.uniform(.3, .97), 1 + rnd.choice([-1, 1]) * rnd.choice([2e-4, 1e-3, 5e-3]), rnd.uniform(1.03, 2)]
            A = O.mul(O.mul(G.rotation3(rnd), O.sqrtm(spectrum(rnd, w))), B)
        else:
            A = G.base(rnd, 3)
        Bi = O.inv(B)
        F = O.mul(A, Bi)
        w, _ = O.jacobi(O.mul(O.T(F), F))
        dev = abs(w[1] - 1)
        if dev < 1e-8 or dev > 1e-4:
            got = isCompatible(dress_arr(rnd, A), dress_arr(rnd, B))
            mon.ok(bool(got) == (dev < 1e-8), 'isCompatible against the spectrum', A=A, B=B, w=w)
            mon.count('pair verdicts')
        mon.trivial = dev > 1e-8
    else:
        C = spectrum(rnd, [rnd.uniform(.3, .9), 1., rnd.uniform(1.1, 2.)])
        N = [list(r) for r in C]
        i, j = rnd.sample(range(3), 2)
        N[i][j] += rnd.choice([-1, 1]) * rnd.uniform(1e-3, .3)
        mon.raises(CompatibilityError, AM_Solver, 'AM_Solver of a non-symmetric matrix', np.array(N))
        mon.raises(TypeError, solve_rank1, 'solve_rank1 of a non-symmetric matrix', np.array(N))
        S = spectrum(rnd, [-rnd.uniform(.1, 1.), 1., rnd.uniform(1.1, 2.)])
        try:
            r = AM_Solver(np.array(S))
        except Exception:
            r = None
        mon.ok(r is None, 'AM_Solver found an interface for an indefinite tensor', C=S, got=r)
        w = [rnd.uniform(.3, 2) for _ in range(3)]
        for i in rnd.sample(range(3), rnd.choice([1, 2, 3])):
            w[i] = -w[i]
        mon.raises(TypeError, solve_rank1, 'solve_rank1 of a matrix that is not positive definite', np.array(spectrum(rnd, w)))
        mon.raises(TypeError, solve_rank1, 'solve_rank1 of a 2 x 2 matrix', np.eye(2))
        mon.trivial = True
