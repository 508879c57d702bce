"""Lattice equality is unimodular equivalence of bases"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import dress

RULE = ('random well-conditioned bases in dimension 1-6 (either handedness, list/array/int/view inputs); the second base is '
        'E*A with A unimodular, integer of |det|>=2, an inverse of such, non-integer, or a rotated base; every pair is '
        'compared in both directions with the exact oracle, plus transitivity and rejection of invalid bases; a case is '
        'non-trivial unless A is the identity')
FLOORS = {'equal pairs': 100, 'sublattice pairs': 60, 'non-integer pairs': 60, 'rejections observed': 20}


def cases(tier, rnd):
    n = 2400 if tier == 'quick' else 40000
    for i in range(n):
        yield {'kind': ['uni', 'sub', 'super', 'frac', 'rot', 'trans', 'uni', 'sub', 'bravais', 'shape'][i % 10],
               'dim': rnd.choice([1, 2, 2, 3, 3, 3, 4, 5, 6])}
    for k in range(31):
        yield {'kind': 'invalid', 'k': k}


def same(mon, L1, L2, want, **d):
    a, b = (L1 == L2), (L2 == L1)
    mon.ok(bool(a) == want and bool(b) == want, 'lattice equality should be %s in both directions' % want,
           got=[bool(a), bool(b)], **d)
    mon.ok(bool(L1 != L2) == (not want), 'inequality must be the negation of equality', **d)
    mon.ok(bool(L1 == L1) and bool(L2 == L2), 'a lattice equals itself', **d)
    mon.count('equal pairs' if want else 'unequal pairs')


def run(case, mon):
    from structrans import Lattice, BravaisLattice
    rnd = random.Random(case['s'])
    if case['kind'] == 'invalid':
        bad = [[[1, 2, 3], [4, 5, 6]], [[1, 0], [0, 0]], [[0, 0, 0], [0, 1, 0], [0, 0, 1]], [1, 2, 3], 5, None,
               [[[1, 0], [0, 1]]], 'lattice', [[1, 2], [3]], np.zeros((3, 3)), np.zeros((2, 3)), [],
               [[1, 2], [2, 4]], np.ones((2, 2)), [['a', 'b'], ['c', 'd']], np.eye(3)[:2], np.zeros((4, 4)),
               [[1, 0, 0], [0, 1, 0], [1, 0, 0]], np.eye(2).reshape(4), [[0]], {}, [[1.0, 0.0], [5.0, 0.0]],
               np.ones((3, 1)), [[2, 0, 0], [0, 3, 0], [0, 0, 0]],
               [[float('nan'), 0], [0, 1]], [[1, 0], [0, float('inf')]], np.full((3, 3), np.nan),
               [[1 + 0j, 0], [0, 1]], [[1 + 1j, 0], [0, 2.]], np.diag([1, 2, 3j]), np.eye(3, dtype=complex)]
        mon.raises(ValueError, Lattice, 'invalid base %r' % (bad[case['k']],), bad[case['k']])
        L = Lattice(np.eye(3))
        for x in (1, None, 'a', [[1, 0, 0], [0, 1, 0], [0, 0, 1]]):
            mon.ok(bool(L == x) is False, 'a lattice is not equal to something else')
        return
    n = case['dim']
    ints = rnd.random() < 0.2
    E = [[rnd.randint(-4, 4) for _ in range(n)] for _ in range(n)] if ints else G.wide_base(rnd, n)
    if ints and abs(O.det(E)) == 0:
        E = [[3 if i == j else rnd.randint(-1, 0) * (j > i) for j in range(n)] for i in range(n)]
    kind = case['kind']
    if kind in ('frac', 'super') and ints:
        E = [[float(x) for x in r] for r in E]
        ints = False
    L1 = Lattice(dress(rnd, E, ints))
    mon.ok(L1.dimension() == n, 'dimension', got=L1.dimension())
    b = L1.base().tolist()
    mon.ok(O.maxdiff(b, E) == 0, 'base() returns the given base', E=E, got=b)
    A = G.unimodular(rnd, n, *rnd.choice([(None, 2, 3), (None, 2, 25), (None, 2, 25), (None, 9, 400)] if n < 4 else [(None, 2, 3), (None, 2, 25)]))
    if kind == 'uni':
        same(mon, L1, Lattice(dress(rnd, O.mul(E, A), ints)), True, E=E, A=A)
        if A == [[int(i == j) for j in range(n)] for i in range(n)]:
            mon.trivial = True
    elif kind in ('sub', 'super'):
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            D[i][i] = rnd.choice([1, 1, 2, 3, 5]) if rnd.random() < .9 else rnd.choice([4, 6, 7, 11, 16, 29])
            for j in range(i):
                D[i][j] = rnd.randint(-2, 2)
        if O.det(D) == 1:
            D[rnd.randrange(n)] = [2 * x for x in D[rnd.randrange(n)]]
        if abs(O.det(D)) <= 1:
            D = [[(2 if i == 0 else 1) if i == j else 0 for j in range(n)] for i in range(n)]
        B = O.mul(O.mul(A, D), G.unimodular(rnd, n, limit=4))
        if kind == 'super':
            B = O.inv(B)
        same(mon, L1, Lattice(dress(rnd, O.mul(E, B), ints)), False, E=E, B=B)
        mon.count('sublattice pairs')
    elif kind == 'frac':
        big = n > 1 and rnd.random() < .3
        B = [[float(x) for x in r] for r in (G.unimodular(rnd, n, rnd.randint(4, 9), 9, 3000) if big else G.unimodular(rnd, n, limit=6))]
        i, j = rnd.randrange(n), rnd.randrange(n)
        B[i][j] += rnd.choice([-1, 1]) * rnd.choice([0.5, 0.25, 0.1, 0.01, 0.001, 5e-4, rnd.uniform(0.004, 0.5)])
        if abs(O.det(B)) < 0.05:
            mon.trivial = True
            return
        Bi = O.inv(B)
        # judged only well beyond rounding and any sensible tolerance, in both directions
        dev = min(max(abs(x - round(x)) for r in X for x in r) for X in (B, Bi))
        if dev / max(1, O.maxabs(B), O.maxabs(Bi)) > 5e-5 or (dev > 1e-3 and max(O.maxabs(B), O.maxabs(Bi)) < 1e5):
            same(mon, L1, Lattice(dress(rnd, O.mul(E, B))), False, E=E, B=B)
            mon.count('non-integer pairs')
    elif kind == 'rot':
        # a rotated copy is another lattice unless the rotation is a symmetry
        if n < 2:
            mon.trivial = True
            return
        Q = G.rotation(rnd, n)
        B = O.mul(O.mul(O.inv(E), Q), E)
        d = max(abs(x - round(x)) for r in B for x in r)
        if d > 0.01:
            same(mon, L1, Lattice(dress(rnd, O.mul(Q, E))), False, E=E, Q=Q)
            mon.count('rotated pairs')
    elif kind == 'trans':
        L2 = Lattice(O.mul(E, A))
        L3 = Lattice(O.mul(O.mul(E, A), G.unimodular(rnd, n, limit=4)))
        same(mon, L1, L2, True, E=E, A=A)
        same(mon, L2, L3, True)
        same(mon, L1, L3, True)
    elif kind == 'bravais':
        d = rnd.choice([2, 3, 3])
        lid = rnd.randint(1, 14 if d == 3 else 5)
        p = G.wide(rnd, lid, G.bravais_params(rnd, lid, d), d)
        B1 = BravaisLattice(lid, p, dim=d)
        E = B1.base().tolist()
        same(mon, B1, Lattice(O.mul(E, G.unimodular(rnd, d, limit=12))), True, lid=lid, p=p)
        q = list(p)
        k = rnd.randrange(len(p))
        q[k] *= rnd.choice([1.01, 0.97, 0.9])
        same(mon, B1, BravaisLattice(lid, q, dim=d), False, lid=lid, p=p, q=q)
        C = B1.conventional_base().tolist()
        same(mon, B1, Lattice(C), G.CENTRING[d][lid - 1] == 1, lid=lid, p=p)
    else:
        m = rnd.choice([k for k in (1, 2, 3, 4, 5) if k != n])
        same(mon, L1, Lattice(G.base(rnd, m)), False)
