"""Hermite normal form decomposition"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..core import Skip
from ..util import imat, dress
from .c07 import modules

RULE = ('random non-singular integer matrices of dimension 1-5 (small, large, sparse, triangular, negative, already normal, '
        'with zero leading entries), list and array input; M = H L with unimodular L, H normal and equal to an independent '
        'exact computation, H unchanged under unimodular column operations; input left alone; non-trivial unless M is its own '
        'normal form')
FLOORS = {'decompositions': 1000, 'column operations': 1000}


def cases(tier, rnd):
    for i in range(1800 if tier == 'quick' else 60000):
        yield {'dim': rnd.choice([1, 2, 2, 3, 3, 3, 3, 4, 4, 5]),
               'kind': rnd.choice(['small', 'small', 'medium', 'large', 'sparse', 'tri', 'normal', 'uni', 'neg'])}


def draw(rnd, n, kind):
    for _ in range(200):
        if kind == 'small':
            M = [[rnd.randint(-4, 4) for _ in range(n)] for _ in range(n)]
        elif kind == 'medium':
            b = 20 if n < 5 else 7
            M = [[rnd.randint(-b, b) for _ in range(n)] for _ in range(n)]
        elif kind == 'large':
            b = {1: 10 ** 6, 2: 10 ** 4, 3: 300, 4: 30, 5: 8}[n]
            M = [[rnd.randint(-b, b) for _ in range(n)] for _ in range(n)]
        elif kind == 'sparse':
            M = [[rnd.choice([0, 0, 0, 1, -1, 2, -3]) for _ in range(n)] for _ in range(n)]
        elif kind == 'tri':
            M = [[rnd.randint(-6, 6) if j >= i else 0 for j in range(n)] for i in range(n)]
            if rnd.random() < .5:
                M = O.T(M)
        elif kind == 'neg':
            M = [[-rnd.randint(0, 9) for _ in range(n)] for _ in range(n)]
        elif kind == 'uni':
            M = G.unimodular(rnd, n, limit=40)
        else:
            d = [rnd.choice([1, 2, 3, 4, 6]) for _ in range(n)]
            M = [[d[i] if i == j else (-rnd.randrange(d[i]) if j < i else 0) for j in range(n)] for i in range(n)]
        if 0 < abs(O.det(M)) < 10 ** 8:
            return M
    raise Skip('singular draws')


def run(case, mon):
    from structrans.crystallography import HNFDecomposition
    rnd = random.Random(case['s'])
    n = case['dim']
    M = draw(rnd, n, case['kind'])
    want = O.hnf(M)
    mon.trivial = want == M
    for f in [HNFDecomposition] + [m.hnfd for m in modules()]:
        arg = dress(rnd, M, True)
        keep = np.array(arg).tolist()
        H, L = f(arg)
        mon.ok(np.array(arg).tolist() == keep, 'the input was changed', M=M)
        for x in (H, L):
            mon.ok(np.asarray(x).dtype.kind in 'iu', 'result is not an integer matrix')
        H, L = imat(H), imat(L)
        mon.ok(O.is_hnf(H), 'H is not in Hermite normal form', M=M, H=H)
        mon.ok(O.mul(H, L) == M, 'H L is not the matrix', M=M, H=H, L=L)
        mon.ok(abs(O.det(L)) == 1, 'L is not unimodular', M=M, L=L)
        mon.ok(H == want, 'not the normal form of the column lattice', M=M, H=H, want=want)
        only = imat(f(arg, onlyH=True))
        mon.ok(only == H, 'onlyH gives another normal form', M=M, H=H, only=only)
        mon.count('decompositions')
        A = G.unimodular(rnd, n, limit=12 if n < 5 else 6)
        MA = O.mul(M, A)
        H2, L2 = f(dress(rnd, MA, True))
        mon.ok(imat(H2) == H, 'H depends on the base of the column lattice', M=M, A=A, H=H, H2=imat(H2))
        mon.ok(O.mul(imat(H2), imat(L2)) == MA, 'H L is not the matrix', M=MA)
        mon.count('column operations')
