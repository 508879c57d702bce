"""Symmetry groups are groups of symmetries; membership predicates agree with the definition"""
import math
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, mats, dress

RULE = ('2D/3D lattices: all Bravais types (generic and symmetric parameters), arbitrary unimodular base changes, random and '
        'rotated bases; each returned group is checked for identity, closure, inverses, duplicates, determinant and for '
        'mapping the lattice to itself; membership is compared with the definition on members, perturbed members, rotations '
        'of other lattices, shears and malformed matrices in 1-5 dimensions; a case is non-trivial when its group has more than one element '
        'or its candidate matrices include members')
FLOORS = {'group elements checked': 1000, 'members accepted': 500, 'non-members refused': 500, 'subgroup verdicts': 300, 'near-integer matrices': 5, 'conjugate subgroups': 150}


def cases(tier, rnd):
    n = 12 if tier == 'quick' else 150
    for k in range(n):
        for lid in range(1, 15):
            yield {'kind': 'bravais', 'id': lid, 'dim': 3, 'special': k % 4 == 3}
        for lid in range(1, 6):
            yield {'kind': 'bravais', 'id': lid, 'dim': 2, 'special': k % 4 == 3}
            yield {'kind': 'bravais', 'id': lid, 'dim': 2, 'special': k % 4 == 1}
        for d in (2, 3, 3):
            yield {'kind': 'random', 'dim': d}
            yield {'kind': 'rotated', 'dim': d}
        for d in (1, 2, 3, 4, 5):
            yield {'kind': 'member', 'dim': d}
            if d > 1:
                yield {'kind': 'member', 'dim': d, 'skew': True}
        yield {'kind': 'subgroup'}
        yield {'kind': 'subgroup'}
        yield {'kind': 'nearint', 'dim': 2}
    yield {'kind': 'standard'}


def is_group(mon, ms, what, tol=1e-6):
    n = len(ms[0]) if ms else 0
    mon.ok(len(ms) > 0, what + ': empty')
    keys = {}
    for m in ms:
        mon.ok(len(m) == n and all(len(r) == n for r in m), what + ': shapes differ')
        mon.ok(O.maxdiff(O.mul(m, O.T(m)), O.eye(n)) < tol, what + ': element is not orthogonal', m=m)
        keys[tuple(int(round(x * 1e4)) for r in m for x in r)] = m
        mon.count('group elements checked')
    mon.ok(len(keys) == len(ms), what + ': duplicate elements', n=len(ms), distinct=len(keys))

    def has(m):
        return tuple(int(round(x * 1e4)) for r in m for x in r) in keys or any(O.maxdiff(m, k) < 1e-5 for k in ms)
    mon.ok(has(O.eye(n)), what + ': no identity')
    for a in ms:
        mon.ok(has(O.T(a)), what + ': inverse missing', a=a)
        for b in ms:
            mon.ok(has(O.mul(a, b)), what + ': not closed', a=a, b=b)


def groups(mon, lat, E, dim):
    Lg = mats(lat.Laue_group(), 'Laue group')
    Pg = mats(lat.point_group(), 'point group')
    mon.ok(lat.Laue_group().order() == len(Lg) and lat.point_group().order() == len(Pg), 'order() counts the elements')
    is_group(mon, Lg, 'Laue group')
    is_group(mon, Pg, 'point group')
    Ei = O.inv(E)
    for Q in Pg + Lg:
        A = O.mul(O.mul(Ei, Q), E)
        mon.ok(max(abs(x - round(x)) for r in A for x in r) < 1e-4, 'element does not map the lattice to itself', Q=Q, E=E)
        mon.ok(bool(lat.inpointgroup(np.array(Q))), 'own element is refused by inpointgroup', Q=Q)
        mon.count('members accepted')
    mon.ok(all(O.det(Q) > 0 for Q in Lg), 'Laue group has an improper element')
    proper = [Q for Q in Pg if O.det(Q) > 0]
    mon.ok(len(proper) == len(Lg) and all(any(O.maxdiff(Q, R) < 1e-6 for R in Lg) for Q in proper),
           'the Laue group is not the set of rotations of the point group', laue=len(Lg), proper=len(proper))
    I = O.scal(-1, O.eye(dim))
    mon.ok(any(O.maxdiff(Q, I) < 1e-6 for Q in Pg), 'inversion is a symmetry of every lattice')
    mon.trivial = len(Lg) == 1
    return Lg, Pg


def verdict(mon, lat, E, Q, n, what):
    """inpointgroup against the definition, away from the tolerance"""
    orth = O.maxdiff(O.mul(Q, O.T(Q)), O.eye(n))
    A = O.mul(O.mul(O.inv(E), Q), E)
    dev = max(abs(x - round(x)) for r in A for x in r)
    if orth < 1e-9 and dev < 1e-9:
        want = True
    elif orth > 1e-3 or (orth < 1e-9 and dev > 1e-2):
        want = False
    else:
        return
    forms = [np.array(Q), [list(r) for r in Q]]
    if all(x == round(x) for r in Q for x in r):
        forms += [np.array(Q).astype(int), [[int(x) for x in r] for r in Q]]
    for X in forms:
        got = lat.inpointgroup(X)
        mon.ok(bool(got) == want, 'inpointgroup should be %s (%s)' % (want, what), Q=Q, E=E, dtype=str(np.array(X).dtype))
    mon.count('members accepted' if want else 'non-members refused')


def run(case, mon):
    from structrans import Lattice, BravaisLattice
    from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP, SQUARE_GROUP
    from structrans.crystallography import matrix_group as mg
    rnd = random.Random(case['s'])
    kind = case['kind']
    if kind == 'standard':
        for g, n in ((CUBIC_LAUE_GROUP, 24), (SQUARE_GROUP, 4), (mg.HEX_LAUE_GROUP, 12), (mg.SQUARE_EXT_GROUP, 8),
                     (mg.HEX2D_GROUP, 6), (mg.HEX2D_EXT_GROUP, 12), (mg.CUBIC_LAUE_GROUP, 24), (mg.SQUARE_GROUP, 4)):
            ms = mats(g)
            mon.ok(g.order() == n and len(ms) == n, 'order of a standard group', n=n, got=len(ms))
            is_group(mon, ms, 'standard group of order %d' % n)
        for g in (CUBIC_LAUE_GROUP, SQUARE_GROUP, mg.HEX_LAUE_GROUP, mg.HEX2D_GROUP):
            mon.ok(all(O.det(m) > 0 for m in mats(g)), 'rotation groups contain rotations only')
        c = mats(CUBIC_LAUE_GROUP)
        mon.ok(all(O.maxdiff(m, [[round(x) for x in r] for r in m]) == 0 for m in c), 'cubic group entries are 0 and +-1')
        h = mats(mg.HEX_LAUE_GROUP)
        six = O.rodrigues(O.pi / 3, [0, 0, 1])
        two = O.rodrigues(O.pi, [1, 0, 0])
        for q in (six, two):
            mon.ok(any(O.maxdiff(q, m) < 1e-9 for m in h), 'hexagonal group: six-fold axis z, two-fold axis x')
        return
    if kind == 'subgroup':
        # subgroups generated from random elements, conjugates and cosets
        big = rnd.choice([CUBIC_LAUE_GROUP, mg.HEX_LAUE_GROUP, mg.SQUARE_EXT_GROUP, mg.HEX2D_EXT_GROUP])
        B = mats(big)
        n = len(B[0])

        def close(gens):
            els = [O.eye(n)]
            todo = list(els)
            while todo:
                a = todo.pop()
                for g in gens:
                    c = O.mul(a, g)
                    if not any(O.maxdiff(c, x) < 1e-6 for x in els):
                        els.append(c)
                        todo.append(c)
            return els
        for _ in range(6):
            S = close(rnd.sample(B, rnd.choice([1, 1, 2])))
            Sg = MatrixGroup(S if rnd.random() < .5 else np.array(S))
            mon.ok(bool(big.hassubgroup(Sg)) is True, 'subgroup generated by group elements is refused', S=S)
            mon.ok(bool(Sg.hassubgroup(big)) is (len(S) == len(B)), 'a proper subgroup contains the whole group', S=S)
            mon.ok(bool(Sg.hassubgroup(Sg)) is True, 'a group is a subgroup of itself')
            mon.ok(Sg.order() == len(S), 'order')
            tilt = rnd.choice([1e-2, 2e-3, 5e-4, 1.5e-4]) * rnd.uniform(.7, 1.3)
            for R in (G.rotation(rnd, n), O.rodrigues(tilt, [rnd.gauss(0, 1) for _ in range(3)]) if n == 3 else
                      [[math.cos(tilt), -math.sin(tilt)], [math.sin(tilt), math.cos(tilt)]]):
                K = [O.mul(O.mul(R, m), O.T(R)) for m in S]
                inside = all(any(O.maxdiff(k, b) < 1e-9 for b in B) for k in K)
                far = any(min(O.maxdiff(k, b) for b in B) > 1e-4 for k in K)
                if inside or far:
                    mon.ok(bool(big.hassubgroup(MatrixGroup(K))) is inside, 'verdict on a conjugate subgroup', K=K)
                    mon.count('conjugate subgroups')
            other = mats(rnd.choice([CUBIC_LAUE_GROUP, mg.HEX_LAUE_GROUP]) if n == 3
                         else rnd.choice([mg.SQUARE_EXT_GROUP, mg.HEX2D_EXT_GROUP]))
            S2 = close(rnd.sample(other, 1))
            if n == 3 and rnd.random() < .4:         # improper elements: -Q in place of some Q
                S2 = close([O.scal(-1, q) for q in rnd.sample(other, 1)])
            inside = all(any(O.maxdiff(k, b) < 1e-9 for b in B) for k in S2)
            mon.ok(bool(big.hassubgroup(MatrixGroup(S2))) is inside, 'verdict on a cyclic group', S=S2)
            mon.count('subgroup verdicts', 5)
        for x in (B, None, 3, 'x'):
            mon.raises(TypeError, big.hassubgroup, 'hassubgroup of something that is not a group', x)
        return
    n = case['dim']
    if kind == 'nearint':
        # skewed bases in which a rotation that is no symmetry has coordinates close to large integers
        found = 0
        for _ in range(20000):
            a, b = rnd.uniform(1, 2), rnd.uniform(2.2, 3)
            E0 = rnd.choice([[[a, 0.], [0., b]], [[a / 2, -a / 2], [b / 2, b / 2]], [[a, rnd.uniform(-.4, .4) * a], [0., b]]])
            E = O.mul(E0, G.unimodular(rnd, 2, limit=90, steps=rnd.randint(3, 8), size=9))
            Q = rnd.choice([[[0., -1.], [1., 0.]], [[0., 1.], [1., 0.]], [[.5, -.75 ** .5], [.75 ** .5, .5]], G.rotation(rnd, 2)])
            M = O.mul(O.mul(O.inv(E), Q), E)
            dev = [abs(x - round(x)) for r in M for x in r]
            if max(dev) < 1e-3 or any(x > 1e-8 + 1e-5 * abs(round(y)) for x, y in zip(dev, [y for r in M for y in r])):
                continue
            lat = Lattice(dress(rnd, E))
            mon.ok(not lat.inpointgroup(np.array(Q)), 'a rotation that does not preserve the lattice is in the point group', Q=Q, E=E, M=M)
            mon.ok(not lat.inlatticegroup(np.array(M)), 'a matrix that is not integer is in the lattice group', E=E, M=M)
            mon.count('non-members refused', 2)
            mon.count('near-integer matrices')
            found += 1
            if found == 4:
                break
        mon.trivial = not found
        return
    if kind == 'member':
        # integer lattices and integer matrices first
        E = [[rnd.choice([1, 1, 2]) if i == j else 0 for j in range(n)] for i in range(n)]
        E = O.mul(E, G.unimodular(rnd, n, limit=4))
        lat = Lattice(dress(rnd, E, True))
        for _ in range(6):
            verdict(mon, lat, E, G.unimodular(rnd, n, limit=3), n, 'integer matrix')
            p = list(range(n))
            rnd.shuffle(p)
            verdict(mon, lat, E, [[rnd.choice([-1, 1]) if p[i] == j else 0 for j in range(n)] for i in range(n)], n, 'integer signed permutation')
        E = G.wide_base(rnd, n)
        if n > 1 and (case.get('skew') or rnd.random() < .6):
            d = [rnd.choice([1.0, 1.0, rnd.uniform(1.1, 2)]) for _ in range(n)]
            Q0 = G.rotation(rnd, n)
            E0 = O.mul(Q0, [[d[i] if i == j else 0.0 for j in range(n)] for i in range(n)])
            E = O.mul(E0, G.unimodular(rnd, n, limit=5))
            for _ in range(10 if case.get('skew') else 0):
                B = O.mul(E0, G.unimodular(rnd, n, limit=200, steps=rnd.randint(3, 14), size=rnd.choice([2, 9, 30])))
                if O.maxabs(B) * O.maxabs(O.inv(B)) < 5000:
                    E = B
                    mon.count('skewed bases')
                    break
        else:
            E0, Q0, d = E, O.eye(n), [1.0] * n
        lat = Lattice(dress(rnd, E))
        # signed permutations of the orthogonal frame, of which only some preserve the lattice
        for _ in range(12):
            p = list(range(n))
            rnd.shuffle(p)
            S = [[(rnd.choice([-1., 1.]) if p[i] == j else 0.) for j in range(n)] for i in range(n)]
            verdict(mon, lat, E, O.mul(O.mul(Q0, S), O.T(Q0)), n, 'signed permutation of the frame')
        for _ in range(4):
            verdict(mon, lat, E, G.rotation(rnd, n), n, 'random rotation')
            A = G.unimodular(rnd, n, limit=4)
            verdict(mon, lat, E, O.mul(O.mul(E, A), O.inv(E)), n, 'shear mapping the lattice to itself')
            # a rotation that is not a symmetry, in lattice coordinates: orthogonal but not integer
            R = G.rotation(rnd, n)
            M = O.mul(O.mul(O.inv(E), R), E)
            if max(abs(x - round(x)) for r in M for x in r) > 1e-2:
                mon.ok(not lat.inlatticegroup(np.array(M)), 'a rotation with non-integer lattice coordinates is in the lattice group', M=M, E=E)
                mon.count('non-members refused')
        verdict(mon, lat, E, O.eye(n), n, 'identity')
        verdict(mon, lat, E, O.scal(-1, O.eye(n)), n, 'inversion')
        verdict(mon, lat, E, O.scal(2, O.eye(n)), n, 'scaling')
        for k in (1, 2, 3, 4, 5):
            if k != n:
                mon.ok(not lat.inpointgroup(np.eye(k)), 'a matrix of another dimension is in the point group', k=k, n=n)
        mon.ok(not lat.inpointgroup(np.ones((n, n + 1))), 'a non-square matrix is in the point group')
        for X in (1, 1.0, -1, [1] * n, np.eye(n + 1), np.eye(n - 1) if n > 1 else None, np.ones((n, n + 1)), [np.eye(n)], None, 'a',
                  np.full((n, n), np.nan)):
            mon.ok(not lat.inlatticegroup(X), 'something of another shape is in the lattice group', X=repr(X), n=n)
            if np.ndim(X) != 2 or n > 1:
                mon.ok(not lat.inpointgroup(X), 'something of another shape is in the point group', X=repr(X), n=n)
        Gm = O.gram(E)
        for _ in range(8):
            M = G.unimodular(rnd, n, limit=3)
            dev = O.maxdiff(O.mul(O.mul(O.T(M), Gm), M), Gm) / O.maxabs(Gm)
            Q = O.mul(O.mul(E, M), O.inv(E))
            odev = O.maxdiff(O.mul(Q, O.T(Q)), O.eye(n))
            if dev < 1e-9 or odev > 1e-3:
                mon.ok(bool(lat.inlatticegroup(dress(rnd, M, True))) == (dev < 1e-9), 'inlatticegroup against M^T G M = G', M=M, E=E)
                mon.count('lattice-group verdicts')
        mon.ok(bool(lat.inlatticegroup(np.eye(n, dtype=int))) and bool(lat.inlatticegroup(-np.eye(n))), '+-1 is in the lattice group')
        mon.ok(not lat.inlatticegroup(np.eye(n) * 2), '2 is not in the lattice group')
        H = O.eye(n)
        H[0][n - 1] += 0.5
        mon.ok(not lat.inlatticegroup(np.array(H)), 'a non-integer matrix is in the lattice group')
        if n not in (2, 3):
            for f in ('Laue_group', 'point_group', 'lattice_group', 'special_lattice_group'):
                mon.raises(AttributeError, getattr(lat, f), f + ' in dimension %d' % n)
        return
    if kind == 'bravais':
        p = G.wide(rnd, case['id'], (G.special_params if case['special'] else G.bravais_params)(rnd, case['id'], n), n)
        E = BravaisLattice(case['id'], p, dim=n).base().tolist()
        A = G.unimodular(rnd, n, limit=4)
        if rnd.random() < 0.5:
            lat = BravaisLattice(case['id'], p, dim=n)
        else:
            E = O.mul(E, A)
            lat = Lattice(dress(rnd, E))
    else:
        E = G.wide_base(rnd, n)
        if kind == 'rotated':
            lid = rnd.randint(1, 14 if n == 3 else 5)
            E = BravaisLattice(lid, G.bravais_params(rnd, lid, n), dim=n).base().tolist()
            ax = [rnd.choice([0, 0, 1, 2]) for _ in range(3)]
            R = O.rodrigues(rnd.choice([30, 45, 60, 90, rnd.uniform(0, 360)]) * O.pi / 180, ax if any(ax) else [0, 0, 1]) \
                if n == 3 else [r[:2] for r in O.rodrigues(rnd.choice([30, 45, 15, rnd.uniform(0, 360)]) * O.pi / 180, [0, 0, 1])[:2]]
            E = O.mul(R, E)
        lat = Lattice(dress(rnd, E))
    order = rnd.random() < 0.5
    if order:                      # the two groups may be asked for in either order
        lat.point_group()
    Lg, Pg = groups(mon, lat, E, n)
    mon.trivial = mon.trivial and kind != 'random'
    for Q in rnd.sample(Pg, min(3, len(Pg))):
        X = [list(r) for r in Q]
        X[0][0] += 0.02
        verdict(mon, lat, E, X, n, 'perturbed member')
        verdict(mon, lat, E, O.mul(Q, G.rotation(rnd, n)), n, 'member times rotation')
