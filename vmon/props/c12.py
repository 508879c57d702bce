"""Variants of a transformation are the orbit of its stretch under the Laue group of the parent"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, mats, dress_arr

RULE = ('stretch tensors of every crystal system and orientation with the Laue group of every Bravais type (default, by number, by '
        'lattice, user-defined subgroups); the returned variants are compared with the orbit, their number with '
        'index of the stabilizer, the recorded group indices must split the whole group into the cosets that produce each variant; transformations '
        'whose symmetry is not that of a subgroup must be refused; non-trivial when there are at least two variants')
FLOORS = {'variants checked': 1500, 'cosets checked': 1500, 'irreversible refused': 60}


def cases(tier, rnd):
    n = 14 if tier == 'quick' else 250
    for i in range(n):
        for k in G.KINDS:
            yield {'kind': k, 'laue': 0, 'i': i}
            yield {'kind': k, 'laue': rnd.randint(1, 14), 'i': i}
            yield {'kind': k, 'laue': rnd.randint(4, 14), 'i': i}
            yield {'kind': k, 'laue': 15, 'i': i}
        yield {'kind': 'triclinic', 'laue': 4, 'i': i}
        yield {'kind': 'orthorhombic', 'laue': 4, 'i': i}
        yield {'kind': 'monoclinic', 'laue': 4, 'i': i}


def parent(rnd, laue, M):
    """a Martensite with the requested parent symmetry"""
    from structrans import BravaisLattice
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP
    if laue == 0:
        return M
    if laue <= 14:
        if rnd.random() < .5:
            return M.setLaue(laue)
        p = G.bravais_params(rnd, laue, 3)
        return M.setLaue(BravaisLattice(laue, p).Laue_group())
    B = mats(CUBIC_LAUE_GROUP)
    gens = rnd.sample(B, rnd.choice([1, 2]))
    els, todo = [O.eye(3)], [O.eye(3)]
    while todo:
        a = todo.pop()
        for g in gens:
            c = O.mul(a, g)
            if not any(O.maxdiff(c, x) < 1e-6 for x in els):
                els.append(c)
                todo.append(c)
    rnd.shuffle(els)
    return M.setLaue(MatrixGroup(np.array(els)))


CUBIC = [[[s[i] * (1.0 if p[i] == j else 0.0) for j in range(3)] for i in range(3)]
         for p in O.permutations(range(3)) for s in O.product((1, -1), repeat=3)]
CUBIC = [m for m in CUBIC if O.det(m) > 0]


def contained(U, Q):
    """whether the cubic rotations that leave U invariant belong to the group; None when it is not decidable this way"""
    stab = [q for q in CUBIC if O.maxdiff(O.mul(O.mul(q, U), O.T(q)), U) < 1e-9]
    return all(any(O.maxdiff(q, g) < 1e-7 for g in Q) for q in stab)


def conj(q, U):
    return O.mul(O.mul(q, U), O.T(q))


def run(case, mon):
    from structrans import Martensite
    rnd = random.Random(case['s'])
    U = G.stretch(rnd, case['kind'], rnd.choice([5e-4, .002, .01, .04, .08, .15, .25]))       # from weak to strong transformations
    if case['kind'] in ('cubic', 'tetragonal', 'orthorhombic') and rnd.random() < .15:
        a, b, c = rnd.sample([1, 2, 3, 4, 5], 3)
        U = [[a, 0, 0], [0, {'orthorhombic': b}.get(case['kind'], a), 0], [0, 0, {'cubic': a}.get(case['kind'], c)]]
    M = parent(rnd, case['laue'], Martensite().setU(dress_arr(rnd, U, isinstance(U[0][0], int))))
    Q = mats(M.getLaue())
    hexp = len(Q) == 12
    if not contained(U, Q):
        if hexp and case['kind'] == 'tetragonal':
            return
        mon.ok(not M.isreversible(), 'reversible, although the product has a symmetry the parent lacks', U=U, laue=case['laue'])
        for f in (M.getvariants, M.getLaueidx, M.calcvariants):
            mon.raises(AttributeError, f, 'variants of an irreversible transformation')
        mon.raises(AttributeError, M.getvariant, 'variant of an irreversible transformation', 1)
        mon.count('irreversible refused')
        mon.trivial = True
        return
    mon.ok(bool(M.isreversible()), 'irreversible, although every symmetry of the product belongs to the parent', U=U, laue=case['laue'])
    if rnd.random() < .4:
        M.getLaueidx()
    V = [mat(v) for v in M.getvariants()]
    orbit = []
    for q in Q:
        W = conj(q, U)
        if not any(O.maxdiff(W, o) < 1e-6 for o in orbit):
            orbit.append(W)
    mon.ok(len(V) == len(orbit), 'number of variants', got=len(V), want=len(orbit), U=U, laue=case['laue'])
    mon.ok(O.maxdiff(V[0], U) < 1e-12, 'the first variant is not U', V=V[0], U=U)
    for v in V:
        mon.ok(any(O.maxdiff(v, o) < 1e-9 for o in orbit), 'a variant is not in the orbit of U', v=v, U=U)
        mon.count('variants checked')
    for i, v in enumerate(V):
        mon.ok(all(O.maxdiff(v, w) > 1e-6 for w in V[:i]), 'the same variant twice', v=v, U=U)
        mon.ok(O.maxdiff(mat(M.getvariant(i + 1)), v) == 0, 'getvariant(n) is not the n-th variant', n=i + 1)
    idx = [[int(k) for k in r] for r in M.getLaueidx()]
    mon.ok(len(idx) == len(V), 'one set of group indices per variant', n=len(idx))
    flat = sorted(k for r in idx for k in r)
    mon.ok(flat == list(range(len(Q))), 'the group indices are not a partition of the group', idx=idx)
    for r, v in zip(idx, V):
        for k in r:
            mon.ok(O.maxdiff(conj(Q[k], U), v) < 1e-7, 'a group element is filed under a variant it does not produce', k=k, U=U)
        mon.count('cosets checked')
    again = [mat(v) for v in M.getvariants()]
    mon.ok(all(O.maxdiff(a, b) == 0 for a, b in zip(again, V)), 'asking again gives other variants')
    mon.trivial = len(V) < 2
