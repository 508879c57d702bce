"""Batched matrix operations agree with the matrices one by one"""
import random
import itertools
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, vec

RULE = ('lists of 1-60 integer or real matrices of size 1-5 as rows; products, transposes, traces, determinants, eigenvalues and cofactors '
        'against independent exact or plain Python formulas; removal of repeated rows and the enumeration of triples against sets; '
        'non-trivial when a list has more than one matrix')
FLOORS = {'matrices compared': 1000, 'rows made unique': 400, 'triples': 300, 'spectra': 300}


def cases(tier, rnd):
    for i in range(300 if tier == 'quick' else 6000):
        yield {'kind': ['lin', 'lin', 'rows', 'eig', 'cof', 'tuple'][i % 6], 'i': i}


def flat(M):
    return [x for r in M for x in r]


def rows(v, d):
    return [v[i * d:i * d + d] for i in range(d)]


def run(case, mon):
    from structrans import mat_math as m
    rnd = random.Random(case['s'])
    kind = case['kind']
    if kind == 'lin':
        d = rnd.randint(1, 5)
        n = rnd.choice([1, 2, 7, 60, 60, 400])
        ints = rnd.random() < .5
        ints2 = ints if rnd.random() < .6 else not ints

        def one(ints):
            if ints:
                return [[rnd.randint(-6, 6) for _ in range(d)] for _ in range(d)]
            return [[rnd.uniform(-3, 3) for _ in range(d)] for _ in range(d)]
        A, B = [one(ints) for _ in range(n)], [one(ints2) for _ in range(n)]
        la = np.array([flat(x) for x in A], dtype=int if ints else float)
        lb = np.array([flat(x) for x in B], dtype=int if ints2 else float)
        if rnd.random() < .3:
            la = np.asfortranarray(la)
        keep = la.tolist(), lb.tolist()
        got = mat(m.mat_dot(la, lb))
        tr, dets, tt = vec(m.mat_trace(la)), vec(m.mat_det(la)), mat(m.mat_T(la))
        mon.ok((la.tolist(), lb.tolist()) == keep, 'an input was changed')
        mon.ok(len(got) == len(tr) == len(dets) == len(tt) == n, 'one result per matrix', n=n)
        for a, b, p, t, x, u in zip(A, B, got, tr, dets, tt):
            w = flat(O.mul(a, b))
            mon.ok(O.maxdiff([p], [w]) < 1e-9, 'product', a=a, b=b, got=p, want=w)
            mon.ok(abs(t - sum(a[i][i] for i in range(d))) < 1e-9, 'trace', a=a, got=t)
            w = O.det(a)
            mon.ok(abs(x - w) < 1e-8 * (1 + abs(w)), 'determinant', a=a, got=x, want=w)
            mon.ok(u == flat(O.T(a)), 'transpose', a=a, got=u)
            mon.count('matrices compared')
        mon.trivial = n < 2
    elif kind == 'rows':
        k = rnd.randint(1, 9)
        n = rnd.randint(1, 40)
        ints = rnd.random() < .6
        base = [[rnd.randint(-2, 2) if ints else rnd.choice([.5, -1.25, 3., 0., -0.]) for _ in range(k)] for _ in range(max(1, n // 2))]
        R = [list(rnd.choice(base)) for _ in range(n)]
        a = np.array(R)
        if rnd.random() < .3:
            a = np.asfortranarray(a)
        keep = a.tolist()
        u, idx = m.unique_rows(a)
        mon.ok(a.tolist() == keep, 'the input was changed')
        u = u.tolist()
        idx = [int(i) for i in idx]
        mon.ok(len(u) == len(set(map(tuple, u))), 'a row is repeated', u=u)
        mon.ok(set(map(tuple, u)) == set(map(tuple, R)), 'a row was lost or made up', u=u, rows=R)
        mon.ok([R[i] for i in idx] == u, 'the indices do not point at the rows', idx=idx, u=u)
        mon.count('rows made unique', n)
        mon.trivial = n < 2
    elif kind == 'eig':
        d = rnd.randint(1, 4)
        n = rnd.choice([1, 3, 12])
        S = []
        for _ in range(n):
            M = [[rnd.uniform(-2, 2) for _ in range(d)] for _ in range(d)]
            S.append([[M[i][j] + M[j][i] for j in range(d)] for i in range(d)])
        W = [O.jacobi(s)[0] for s in S]
        if rnd.random() < .4:
            # matrices with real spectrum that are not symmetric
            for k in range(n):
                X = O.inv(G.base(rnd, d))
                D = sorted(rnd.uniform(-2, 2) + 5 * i for i in range(d))
                W[k] = D
                S[k] = O.mul(O.mul(O.inv(X), [[D[i] if i == j else 0.0 for j in range(d)] for i in range(d)]), X)
        got = mat(m.mat_eig(np.array([flat(s) for s in S])))
        mon.ok(len(got) == n, 'one spectrum per matrix')
        for s, g, w in zip(S, got, W):
            mon.ok(O.maxdiff([sorted(g)], [w]) < 1e-7, 'eigenvalues', s=s, got=g, want=w)
            mon.count('spectra')
        from structrans.util.utils import sort_eig
        for _ in range(6):
            U = G.stretch(rnd, rnd.choice(['triclinic', 'monoclinic', 'orthorhombic', 'tetragonal', 'rhombohedral', 'cubic']))
            if rnd.random() < .4:
                # any symmetric matrix, of either sign
                q, k = rnd.uniform(-2, 2), rnd.choice([1., -1., 30., 1e-3])
                U = [[k * (U[i][j] - (q if i == j else 0)) for j in range(3)] for i in range(3)]
            for f, name in ((m.eigSort, 'eigSort'), (sort_eig, 'sort_eig')):
                e, v = f(np.array(U))
                e, v = vec(e), mat(v)
                w, _ = O.jacobi(U)
                mon.ok(O.maxdiff([e], [w]) < 1e-8 * max(1, O.maxabs(U)), name + ': eigenvalues are not the ascending spectrum', U=U, got=e, want=w)
                for x, y in zip(e, v):
                    mon.ok(abs(O.norm(y) - 1) < 1e-8 and max(abs(a - x * b) for a, b in zip(O.mulv(U, y), y)) < 1e-7 * max(1e-2, O.maxabs(U)),
                           name + ': the vector is not the unit eigenvector of its eigenvalue', U=U, e=x, v=y)
                mon.count('spectra')
    elif kind == 'cof':
        for _ in range(8):
            d = rnd.randint(2, 5)
            M = [[rnd.choice([float(rnd.randint(-4, 4)), rnd.uniform(-2, 2)]) for _ in range(d)] for _ in range(d)]
            c = mat(m.cofactor(np.array(M)))
            W = []
            for i in range(d):
                W.append([(-1) ** (i + j) * O.det([[M[a][b] for b in range(d) if b != j] for a in range(d) if a != i])
                          for j in range(d)])
            mon.ok(O.maxdiff(c, W) < 1e-7, 'cofactors', M=M, got=c, want=W)
            mon.count('matrices compared')
    else:
        a = rnd.randint(-4, 3)
        b = a + rnd.randint(1, 5)
        got = [tuple(int(x) for x in r) for r in m.tuple(a, b)]
        mon.ok(len(got) == len(set(got)), 'a triple is repeated')
        mon.ok(set(got) == set(itertools.product(range(a, b), repeat=3)), 'triples', a=a, b=b)
        mon.count('triples', len(got))
