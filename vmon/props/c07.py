"""Hermite normal forms: every sublattice of a given index exactly once"""
import random
import importlib
import numpy as np
from itertools import product
from .. import oracles as O
from ..util import imat

RULE = ('index n and dimension N; the returned stack is compared as a set with an independent enumeration of all normal forms, '
        'and its size with the number of sublattices of index n of Z^N; diagonals are tried one by one; divisors against trial '
        'division; non-trivial for n > 1')
FLOORS = {'normal forms checked': 5000, 'diagonals checked': 50}


def cases(tier, rnd):
    top = {1: 60, 2: 60, 3: 40, 4: 9, 5: 4} if tier == 'quick' else {1: 300, 2: 300, 3: 130, 4: 27, 5: 8}
    for N, m in top.items():
        for n in range(1, m + 1):
            yield {'n': n, 'N': N, 'np': rnd.random() < .3}
    for _ in range(120 if tier == 'quick' else 1500):
        N = rnd.choice([1, 2, 2, 3, 3, 3, 4, 5])
        d = [rnd.choice([1, 1, 2, 2, 3, 4, 5, 7] if rnd.random() < .7 else [6, 8, 9, 11, 13, 24, 36]) for _ in range(N)]
        if O.hnf_count(1, 1) and _size(d) < 4000:
            yield {'diag': d}
    for _ in range(30 if tier == 'quick' else 200):
        # the first entry of the diagonal may be large: there is nothing left of it
        yield {'diag': [rnd.randint(1, 10 ** rnd.randint(2, 8))] + [rnd.choice([1, 1, 2, 3, 5]) for _ in range(rnd.randint(0, 3))]}
    for _ in range(6 if tier == 'quick' else 40):
        yield {'n': rnd.randint(61, 260 if tier == 'quick' else 900), 'N': 2, 'np': rnd.random() < .3}
        yield {'n': rnd.randint(1, 10 ** 4), 'N': 1, 'np': False}
    for k in range(12 if tier == 'quick' else 100):
        yield {'div': k}
    # large index first would unbalance the workers: nothing more


def _size(d):
    s = 1
    for i, x in enumerate(d):
        s *= x ** i
    return s


def forms(d):
    n = len(d)
    pos = [(i, j) for i in range(n) for j in range(i)]
    for v in product(*[range(0, -d[i], -1) for i, j in pos]):
        H = [[d[i] if i == j else 0 for j in range(n)] for i in range(n)]
        for (i, j), x in zip(pos, v):
            H[i][j] = x
        yield tuple(x for r in H for x in r)


def modules():
    out = []
    for m in ('hnf', 'sublattice'):
        try:
            out.append(importlib.import_module('structrans.crystallography.' + m))
        except ImportError:
            pass
    return out


def run(case, mon):
    from structrans.crystallography import HermiteNormalForms
    from structrans.util import divisors
    rnd = random.Random(case['s'])
    if 'div' in case:
        for n in ([rnd.randint(1, 10 ** rnd.choice([4, 5])) for _ in range(6)] + [rnd.randint(2, 90) ** 2, 2 ** rnd.randint(1, 15)] +
                  list(range(1 + 250 * (case['div'] % 12), 251 + 250 * (case['div'] % 12)))):
            mon.ok(tuple(int(x) for x in divisors(n)) == O.divisors(n), 'divisors', n=n, got=divisors(n))
        for f in [HermiteNormalForms] + [m.hnf_from_det for m in modules()]:
            mon.raises(ValueError, f, 'negative index', -rnd.randint(1, 9), rnd.randint(1, 4))
        return
    mods = modules()
    if 'diag' in case:
        d = case['diag']
        N = len(d)
        want = set(forms(d))
        for m in mods:
            got = [imat(h) for h in m.hnf_from_diag(d if rnd.random() < .5 else np.array(d))]
            ks = set(tuple(x for r in h for x in r) for h in got)
            mon.ok(len(ks) == len(got), 'normal form listed twice', d=d)
            mon.ok(ks == want, 'normal forms of a diagonal', d=d, missing=len(want - ks), extra=len(ks - want))
            mon.count('diagonals checked')
        mon.trivial = _size(d) == 1
        return
    n, N = case['n'], case['N']
    mon.trivial = n == 1
    want = set()
    for d in product(O.divisors(n), repeat=N):
        q = 1
        for x in d:
            q *= x
        if q == n:
            want |= set(forms(d))
    mon.ok(len(want) == O.hnf_count(n, N), 'oracle disagrees with the sublattice count')
    arg = np.int64(n) if case['np'] else n
    fs = [(lambda: HermiteNormalForms(arg, N))] + [(lambda m=m: m.hnf_from_det(arg, N)) for m in mods]
    if N == 3:
        fs.append(lambda: HermiteNormalForms(arg))
    if len(want) > 3000:
        fs = [rnd.choice(fs[:-1] if N != 3 else fs)] if rnd.random() < 0 else fs[:1]
    for f in fs:
        got = [imat(h) for h in f()]
        for h in got:
            mon.ok(len(h) == N and O.is_hnf(h), 'not a Hermite normal form', h=h, n=n)
            d = 1
            for i in range(N):
                d *= h[i][i]
            mon.ok(d == n, 'wrong determinant', h=h, n=n)
            mon.count('normal forms checked')
        ks = set(tuple(x for r in h for x in r) for h in got)
        mon.ok(len(ks) == len(got), 'normal form listed twice', n=n, N=N)
        mon.ok(ks == want, 'not all sublattices are listed', n=n, N=N, missing=len(want - ks), want=len(want))
