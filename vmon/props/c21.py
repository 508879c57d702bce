"""The distances measure what they say and do not depend on the description of the lattices"""
import random
import numpy as np
from .. import oracles as O, gen as G, latc
from ..util import vec, dress_arr

RULE = ('random bases and integer matrices in 2-3 dimensions, singly and in batches of 1 to 400 (both sides of the size at which the vectorized path '
        'takes over); values against independent formulas, batch = one by one in the same order, zero exactly for a rigid rotation, '
        'invariance under rotation of either lattice, change of base of either lattice and common scaling; non-trivial unless the distance is zero')
FLOORS = {'distances compared': 3000, 'batches compared': 80, 'large batches': 30, 'invariances': 1500}


def cases(tier, rnd):
    for i in range(480 if tier == 'quick' else 6000):
        yield {'dim': 2 + i % 2, 'kind': rnd.choice(['values', 'batch', 'batch', 'invariance', 'rigid']), 'i': i}


def run(case, mon):
    D = latc.module('dist')
    rnd = random.Random(case['s'])
    n = case['dim']
    E1, E2 = G.base(rnd, n), G.base(rnd, n)

    def rint():
        while True:
            L = [[rnd.randint(-3, 3) for _ in range(n)] for _ in range(n)]
            if O.det(L) != 0:
                return L

    def value(name, L, A, B):
        if name == 'Ericksen':
            return float(D.Eric_dist(dress_arr(rnd, L, True), np.array(A), np.array(B)))
        f = D.strain_dist if name == 'strain' else D.Cauchy_dist
        return float(f(dress_arr(rnd, L, True), np.array(A), np.linalg.inv(np.array(B))))
    kind = case['kind']
    if kind == 'values':
        for _ in range(12):
            L = rint()
            for name, f in latc.DIST.items():
                w = f(L, E1, E2)
                g = value(name, L, E1, E2)
                mon.ok(abs(g - w) < 1e-8 * (1 + w), name + ' distance', got=g, want=w, L=L, E1=E1, E2=E2)
                # flat vectors are accepted as well
                mon.count('distances compared')
    elif kind == 'batch':
        m = rnd.choice([1, 2, 50, 99, 100, 101, 150, 400])
        xs = [[rnd.randint(-3, 3) for _ in range(n * n)] for _ in range(m)]
        got = vec(D.Cauchy_dist_vec(np.array(xs), np.array(E1), np.linalg.inv(np.array(E2))))
        mon.ok(len(got) == m, 'one distance per matrix', got=len(got), want=m)
        for x, g in zip(xs, got):
            w = O.cauchy_dist([x[i * n:i * n + n] for i in range(n)], E1, E2)
            mon.ok(abs(g - w) < 1e-8 * (1 + w), 'distance in a batch of %d' % m, got=g, want=w, x=x, E1=E1, E2=E2)
            mon.count('distances compared')
        mon.count('batches compared')
        mon.count('large batches', m >= 100)
    elif kind == 'invariance':
        for _ in range(5):
            L = rint()
            R1, R2 = G.rotation(rnd, n), G.rotation(rnd, n)
            A, B = G.unimodular(rnd, n, limit=4), G.unimodular(rnd, n, limit=4)
            Ai = [[int(x) for x in r] for r in O.inv_int(A)]
            k = rnd.uniform(.3, 3)
            for name in latc.DIST:
                d0 = value(name, L, E1, E2)
                tests = [('rotation of the parent', L, O.mul(R1, E1), E2), ('rotation of the product', L, E1, O.mul(R2, E2)),
                         ('another base of the parent', O.mul(Ai, L), O.mul(E1, A), E2),
                         ('common scaling', L, O.scal(k, E1), O.scal(k, E2))]
                if name != 'Ericksen':
                    tests.append(('another base of the product', O.mul(L, B), E1, O.mul(E2, B)))
                for what, l, a, b in tests:
                    d1 = value(name, l, a, b)
                    mon.ok(abs(d1 - d0) < 1e-7 * (1 + d0), name + ' distance changes under ' + what, d0=d0, d1=d1, L=L, E1=E1, E2=E2)
                    mon.count('invariances')
    else:
        for _ in range(6):
            L = rint()
            R = G.rotation(rnd, n)
            E = O.mul(R, O.mul(E1, L))
            for name in latc.DIST:
                g = value(name, L, E1, E)
                mon.ok(abs(g) < 1e-9 * (1 + O.maxabs(E) ** 2), name + ' distance of a rigid rotation is not zero', d=g, L=L, E1=E1)
                t = [list(r) for r in E]
                t[0][0] += .05
                g = value(name, L, E1, t)
                mon.ok(g > 1e-9, name + ' distance of a strained cell is zero', d=g, L=L)
                mon.count('distances compared')
        mon.trivial = True
