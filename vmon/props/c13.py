"""Setting stretch and parent symmetry: validated, and never changes the object it is called on"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, mats, dress

RULE = ('chains of setU / setLaue calls with every accepted form of the stretch (1-4 numbers, nested list, array) and of the group '
        '(number of the Bravais type, matrix group), interleaved with queries on all earlier objects, which must keep their answers; '
        'invalid stretches (not symmetric, one, two or three negative eigenvalues, singular, wrong shape, wrong number of arguments) '
        'and groups must be refused; non-trivial when a chain has at least three objects')
FLOORS = {'objects observed': 800, 'rejections observed': 1500, 'groups compared': 300}


def cases(tier, rnd):
    for i in range(250 if tier == 'quick' else 8000):
        yield {'i': i, 'laue': i % 14 + 1}


def same_group(mon, got, want, what):
    a, b = got, want
    mon.ok(len(a) == len(b) and all(any(O.maxdiff(x, y) < 1e-6 for y in b) for x in a), what, got=len(a), want=len(b))
    mon.count('groups compared')


def expected(rnd, lid):
    """Laue group of a lattice of that type, by exhaustive search"""
    from structrans import BravaisLattice
    while True:
        E = BravaisLattice(lid, G.bravais_params(rnd, lid, 3)).base().tolist()
        M = O.lattice_group(E)
        if len(M) == 2 * G.LAUE_ORDER[3][lid - 1]:
            Ei = O.inv(E)
            Q = [O.mul(O.mul(E, m), Ei) for m in M]
            return [q for q in Q if O.det(q) > 0]


def bad_stretches(rnd):
    U = G.stretch(rnd, 'triclinic')
    N = [list(r) for r in U]
    i, j = rnd.sample(range(3), 2)
    N[i][j] += rnd.choice([-1, 1]) * rnd.choice([1e-6, 1e-5, 1e-4, 1e-3, .1, .5])
    yield 'not symmetric', (N,)
    for k in (1, 2, 3):
        w = [rnd.uniform(.3, 2) for _ in range(3)]
        for i in rnd.sample(range(3), k):
            w[i] = -w[i]
        R = G.rotation3(rnd)
        C = O.mul(O.mul(R, [[w[i] if i == j else 0. for j in range(3)] for i in range(3)]), O.T(R))
        C = [[C[min(i, j)][max(i, j)] for j in range(3)] for i in range(3)]
        yield '%d negative eigenvalues' % k, (C,)
    yield 'singular', ([[1, 0, 0], [0, 0, 0], [0, 0, 1]],)
    yield '2 x 2', ([[1, 0], [0, 1]],)
    yield '3 x 2', ([[1, 0], [0, 1], [0, 0]],)
    yield '4 x 4', (np.eye(4),)
    yield 'no argument', ()
    yield 'five numbers', (1., 0., 1., 1., 1.)
    yield 'negative number', (-1.,)
    yield 'two numbers, one negative', (1., -1.)
    yield 'three numbers, indefinite', (1., 2., 1.)
    yield 'four numbers, indefinite', (1., 2., 1.5, 1.)
    yield 'four numbers, negative', (1., .1, 1.5, -1.)
    for bad in (float('inf'), float('nan'), 1 + 1j, 1 + 0j, 'one'):
        yield 'number %r' % bad, (bad,)
        w = [1., .9, 1.1]
        w[rnd.randrange(3)] = bad
        yield 'entry %r' % bad, ([[w[i] if i == j else 0. for j in range(3)] for i in range(3)],)
        yield 'array with %r' % bad, (np.diag(np.array(w, dtype=None if bad != 'one' else object)),)
    yield 'complex, symmetric', (np.array([[2, 1j, 0], [1j, 2, 0], [0, 0, 1]]),)


def run(case, mon):
    from structrans import Martensite, BravaisLattice
    from structrans.crystallography import CUBIC_LAUE_GROUP, MatrixGroup
    rnd = random.Random(case['s'])
    M0 = Martensite()
    for f in (M0.getU, M0.isreversible, M0.getvariants):
        mon.raises(AttributeError, f, 'query without stretch')
    cubic = mats(CUBIC_LAUE_GROUP)
    same_group(mon, mats(M0.getLaue()), cubic, 'the default parent is cubic')
    chain = [(M0, None, cubic)]

    def audit():
        for k, (m, u, g) in enumerate(chain):
            if u is None:
                mon.raises(AttributeError, m.getU, 'object %d lost its empty state' % k)
            else:
                mon.ok(O.maxdiff(mat(m.getU()), u) < 1e-12, 'the stretch of object %d is not the one set' % k, got=m.getU(), want=u)
            gg = mats(m.getLaue())
            mon.ok(len(gg) == len(g) and all(O.maxdiff(x, y) < 1e-12 for x, y in zip(gg, g)) or
                   len(gg) == len(g) and all(any(O.maxdiff(x, y) < 1e-6 for y in g) for x in gg),
                   'the Laue group of object %d is not the one set' % k, got=len(gg), want=len(g))
            mon.count('objects observed')
    for step in range(rnd.randint(2, 5)):
        m, u, g = rnd.choice(chain)
        if rnd.random() < .6:
            form = rnd.randrange(6)
            a, b, c, d = [rnd.uniform(.6, 1.6) for _ in range(4)]
            t = rnd.uniform(-.3, .3)
            if rnd.random() < .4:            # integers among them
                i = rnd.randrange(5)
                a, b, c, d = [rnd.choice([1, 2]) if k == i else x for k, x in enumerate((a, b, c, d))]
                t = 0 if i == 4 else t
            if form == 0:
                args, want = (a,), [[a, 0, 0], [0, a, 0], [0, 0, a]]
            elif form == 1:
                args, want = (a, b), [[a, 0, 0], [0, a, 0], [0, 0, b]]
            elif form == 2:
                args, want = (a, t, b), [[a, t, 0], [t, a, 0], [0, 0, b]]
            elif form == 3:
                args, want = (a, t, b, c), [[a, t, 0], [t, b, 0], [0, 0, c]]
            else:
                want = G.stretch(rnd, rnd.choice(G.KINDS))
                if rnd.random() < .2:
                    want = [[2, 1, 0], [1, 3, 0], [0, 0, 1]]
                args = (dress(rnd, want, all(isinstance(x, int) for r in want for x in r)),)
            n = m.setU(*args)
            if form >= 4 and isinstance(args[0], np.ndarray):
                args[0][...] = 7             # the caller may reuse its array
            chain.append((n, [[float(x) for x in r] for r in want], g))
        else:
            if rnd.random() < .5:
                lid = case['laue'] if step == 0 else rnd.randint(1, 14)
                n = m.setLaue(lid)
                w = expected(rnd, lid)
                same_group(mon, mats(n.getLaue()), w, 'setLaue(%d): not the group of the type' % lid)
                chain.append((n, u, w))
            else:
                lid = rnd.randint(1, 14)
                grp = BravaisLattice(lid, G.bravais_params(rnd, lid, 3)).Laue_group()
                n = m.setLaue(grp)
                chain.append((n, u, mats(grp)))
        mon.ok(n is not m and isinstance(n, Martensite), 'a new object is expected')
        if rnd.random() < .5 and chain[-1][1] is not None:
            try:
                n.getvariants()              # caches are filled on some of them
            except AttributeError:
                pass
        audit()
    n = M0.setLaue(case['laue'])
    same_group(mon, mats(n.getLaue()), expected(rnd, case['laue']), 'setLaue(%d): not the group of the type' % case['laue'])
    m = rnd.choice(chain)[0]
    for what, args in bad_stretches(rnd):
        mon.raises(TypeError, m.setU, 'setU, ' + what, *args)
    for x in (0, 15, -1, 100, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'cubic', None, 3.0):
        mon.raises(ValueError, m.setLaue, 'setLaue(%r)' % (x,), x)
    audit()
    mon.trivial = len(chain) < 3
