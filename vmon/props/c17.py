"""Directions and planes are carried between the phases consistently"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import vec, mat, dress

RULE = ('random invertible correspondences (integer, rational, real, 1-4 dimensions, list or array), lists of directions and planes; '
        'L d\' = d for directions, p\' d\' = p d for every plane and direction, single item = list of one, order kept, inputs left alone; '
        'non-trivial when L is not the identity')
FLOORS = {'directions': 1500, 'planes': 1500, 'incidences': 3000}


def cases(tier, rnd):
    for i in range(2500 if tier == 'quick' else 20000):
        yield {'dim': rnd.choice([2, 3, 3, 3, 3, 4]), 'i': i}


def run(case, mon):
    from structrans import direc_trans, plane_trans
    rnd = random.Random(case['s'])
    n = case['dim']
    kind = rnd.randrange(4)
    while True:
        if kind == 0:
            L = [[rnd.randint(-3, 3) for _ in range(n)] for _ in range(n)]
        elif kind == 1:
            L = [[rnd.randint(-4, 4) / 2. for _ in range(n)] for _ in range(n)]
        elif kind == 2:
            L = G.unimodular(rnd, n, limit=9)
        else:
            L = [[rnd.uniform(-2, 2) for _ in range(n)] for _ in range(n)]
        if abs(O.det(L)) > .2:
            break
    ints = kind in (0, 2)
    real = rnd.random() < .3

    def items(m):
        return [[rnd.uniform(-4, 4) if real else rnd.randint(-top, top) for _ in range(n)] for _ in range(m)]
    m1, m2 = rnd.choice([1, 1, 2, 3, 5, n]), rnd.choice([1, 2, 3, n, n + 1])
    if case['i'] % 50 == 0:
        m1, m2 = rnd.choice([(1, 120), (130, 3), (64, 2)])
    top = rnd.choice([5, 5, 5, 60])
    D, P = items(m1), items(m2)
    La = dress(rnd, L, ints)
    keepL = np.array(La).tolist()
    res = []
    for f, X, name in ((direc_trans, D, 'directions'), (plane_trans, P, 'planes')):
        arg = dress(rnd, X, not real)
        keep = np.array(arg).tolist()
        out = f(La, arg)
        mon.ok(np.array(arg).tolist() == keep and np.array(La).tolist() == keepL, name + ': an input was changed')
        rows = [vec(out)] if len(X) == 1 and np.ndim(out) == 1 else mat(out)
        mon.ok(len(rows) == len(X) and all(len(r) == n for r in rows), name + ': one result per item', got=len(rows), want=len(X))
        for x, y in zip(X, rows):
            one = vec(f(La, dress(rnd, x, not real)))
            mon.ok(len(one) == n and max(abs(a - b) for a, b in zip(one, y)) < 1e-9, name + ': single item differs from the list', x=x)
            mon.count(name)
        res.append(rows)
    d1, p1 = res
    for x, y in zip(D, d1):
        back = O.mulv(L, y)
        mon.ok(max(abs(a - b) for a, b in zip(back, x)) < 1e-7, 'the correspondence does not map the new direction to the old one', L=L, d=x, new=y)
    for x, y in zip(P, p1):
        want = O.mulv(O.T(L), x)
        mon.ok(max(abs(a - b) for a, b in zip(want, y)) < 1e-9, 'plane indices', L=L, p=x, new=y)
        for u, v in zip(D, d1):
            mon.ok(abs(O.dot(x, u) - O.dot(y, v)) < 1e-6, 'incidence of plane and direction is lost', L=L, p=x, d=u, p1=y, d1=v)
            mon.count('incidences')
    mon.trivial = L == [[int(i == j) for j in range(n)] for i in range(n)]
