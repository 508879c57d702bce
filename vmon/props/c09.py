"""LLL reduction"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..core import Skip
from ..util import mat, dress

RULE = ('random lattices of dimension 2-6 in skewed bases (products of shears), knapsack bases of dimension 2-10 that take many exchanges, Bravais bases, integer bases, left- and '
        'right-handed, list and array input; the result must generate the same lattice with the same handedness, be '
        'size-reduced and satisfy the 4/3 exchange condition, start with a vector within the LLL bound of the shortest; '
        'non-trivial unless the input was already reduced')
FLOORS = {'reductions': 500, 'input not reduced': 300}


def cases(tier, rnd):
    for i in range(1500 if tier == 'quick' else 25000):
        yield {'dim': rnd.choice([2, 2, 3, 3, 3, 3, 4, 4, 5, 6]), 'kind': rnd.choice(['float', 'float', 'int', 'bravais', 'steps'])}
    for i in range(200 if tier == 'quick' else 3000):
        yield {'dim': rnd.choice([2, 3, 3, 4, 5, 6, 7, 8, 10]), 'kind': 'knapsack'}
    for i in range(8 if tier == 'quick' else 60):
        yield {'dim': 10, 'kind': 'knapsack', 'top': rnd.choice([6, 7, 8])}


def gso(B):
    """squared norms and mu of the Gram-Schmidt of the columns"""
    c = O.T(B)
    st, mu, nn = [], [], []
    for i, b in enumerate(c):
        v = list(b)
        row = []
        for j in range(i):
            m = O.dot(b, st[j]) / nn[j]
            row.append(m)
            v = [x - m * y for x, y in zip(v, st[j])]
        st.append(v)
        nn.append(O.dot(v, v))
        mu.append(row)
    return nn, mu


def reduced(B, eps=1e-6):
    nn, mu = gso(B)
    for i in range(len(nn)):
        for m in mu[i]:
            if abs(m) > 0.5 + eps:
                return 'not size-reduced: mu=%r' % m
        if i and nn[i - 1] > (4. / 3) * (1 + eps) * (nn[i] + mu[i][i - 1] ** 2 * nn[i - 1]):
            return 'exchange condition fails at %d: %r %r' % (i, nn, mu)
    return ''


def run(case, mon):
    from structrans import BravaisLattice
    from structrans.crystallography import LLL
    rnd = random.Random(case['s'])
    n = case['dim']
    kind = case['kind']
    ints = False
    if kind == 'bravais':
        n = rnd.choice([2, 3])
        lid = rnd.randint(1, 14 if n == 3 else 5)
        E0 = BravaisLattice(lid, G.wide(rnd, lid, G.bravais_params(rnd, lid, n), n), dim=n).base().tolist()
    elif kind == 'int':
        ints = True
        for _ in range(100):
            E0 = [[rnd.randint(-5, 5) for _ in range(n)] for _ in range(n)]
            if O.det(E0) != 0:
                break
        else:
            raise Skip('singular')
    elif kind == 'knapsack':
        # takes many exchanges
        ints = True
        E0 = [[int(i == j) for j in range(n)] for i in range(n)]
        top = 10 ** (case.get('top') or rnd.randint(1, 5))
        r = rnd.choice([0, n - 1, rnd.randrange(n)])
        E0[r] = [rnd.choice([-1, 1]) * rnd.randint(1, top) for _ in range(n)]
        if rnd.random() < .3:
            E0 = [list(c) for c in zip(*E0)]
        if O.det(E0) == 0:
            raise Skip('singular')
    else:
        E0 = G.wide_base(rnd, n)
    if kind == 'steps':
        A = G.unimodular(rnd, n, steps=rnd.randint(4, 5 * n), size=3, limit=3000 if n < 4 else 300)
    elif kind == 'knapsack':
        A = [[int(i == j) for j in range(n)] for i in range(n)]
    else:
        A = G.unimodular(rnd, n, limit=rnd.choice([3, 10, 60]))
    E = O.mul(E0, A)
    arg = dress(rnd, E, ints)
    keep = np.array(arg).tolist()
    B = LLL(arg)
    mon.ok(np.array(arg).tolist() == keep, 'the input was changed', E=E)
    B = mat(B)
    mon.count('reductions')
    bad0 = reduced([[float(x) for x in r] for r in E])
    if bad0:
        mon.count('input not reduced')
    else:
        mon.trivial = True
    if ints:
        Bi = [[int(round(x)) for x in r] for r in B]
        mon.ok(O.maxdiff(B, Bi) < 1e-4, 'the reduced base of an integer lattice is not integer', E=E, B=B)
        X = [[float(x) if x != int(x) else int(x) for x in r] for r in O.mul(O.inv_int(E0), Bi)]
    else:
        X = O.mul(O.inv(E0), B)
    dev = max(abs(x - round(x)) for r in X for x in r)
    mon.ok(len(B) == n and dev < 1e-4, 'the result does not generate the same lattice', E=E, B=B, dev=dev)
    d = O.det([[int(round(x)) for x in r] for r in X])
    mon.ok(abs(d) == 1, 'the result generates a sublattice', E=E, B=B, det=d)
    mon.ok((O.det(B) > 0) == (O.det(E) > 0), 'handedness changed', E=E, B=B)
    r = reduced(B)
    mon.ok(not r, 'the result is not reduced: ' + r, E=E, B=B)
    # consequence used by short-vector searches: |b1|^2 <= 2^(n-1) lambda_1^2
    nn, _ = gso(B)
    mon.ok(nn[0] <= (2.0 ** (n - 1)) * min(nn) * (1 + 1e-6) + 1e-12, 'first vector is too long', E=E, B=B)
    again = reduced(mat(LLL(np.array(B))))
    mon.ok(not again, 'reducing a reduced base', B=B)
