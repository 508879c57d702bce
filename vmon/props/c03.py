"""Full holohedry is found for every Bravais type, whatever base describes the lattice"""
import random
from .. import oracles as O, gen as G
from ..core import Skip
from ..util import mats, dress

RULE = ('every 2D/3D Bravais type with random generic parameters and with parameters of accidentally higher symmetry, each '
        'also described by random unimodular base changes (either handedness, also strongly skewed); the returned Laue and point groups are '
        'compared element by element with an exhaustive search over short lattice vectors; non-trivial when the group has '
        'more than the identity')
FLOORS = {'types compared': 200, 'base changes compared': 800, 'skewed bases': 300}


def cases(tier, rnd):
    n = 16 if tier == 'quick' else 220
    for k in range(n):
        for lid in range(1, 15):
            yield {'id': lid, 'dim': 3, 'special': k % 4 == 3, 'k': k}
        for lid in range(1, 6):
            yield {'id': lid, 'dim': 2, 'special': k % 3 == 2, 'k': k}


def same_set(mon, got, want, what, **d):
    mon.ok(len(got) == len(want), what + ': order', got=len(got), want=len(want), **d)
    for q in want:
        mon.ok(any(O.maxdiff(q, g) < 1e-5 for g in got), what + ': a symmetry is missing', q=q, **d)


def run(case, mon):
    from structrans import Lattice, BravaisLattice
    rnd = random.Random(case['s'])
    lid, n = case['id'], case['dim']
    p = G.wide(rnd, lid, (G.special_params if case['special'] else G.bravais_params)(rnd, lid, n), n)
    lat = BravaisLattice(lid, p if rnd.random() < .7 or len(p) > 1 else p[0], dim=n)
    # the oracle works on its own base of the type, oriented like the code's conventional base
    E = lat.base().tolist()
    full = O.lattice_group(E)
    Ei = O.inv(E)
    Q = [O.mul(O.mul(E, M), Ei) for M in full]
    P = [q for q in Q if O.det(q) > 0]
    if not case['special']:
        want = G.LAUE_ORDER[n][lid - 1]
        if len(P) != want:
            # accidental symmetry of the drawn parameters
            if len(P) > want:
                raise Skip('accidental symmetry')
            mon.ok(False, 'the lattice has less symmetry than its type', order=len(P), want=want, id=lid, p=p)
    same_set(mon, mats(lat.Laue_group()), P, 'Laue group', id=lid, p=p)
    same_set(mon, mats(lat.point_group()), Q, 'point group', id=lid, p=p)
    mon.count('types compared')
    for j in range(4):
        A = G.unimodular(rnd, n, limit=6)
        if j > 1:
            # strongly skewed, but well within double precision
            for _ in range(20):
                A2 = G.unimodular(rnd, n, limit=200, steps=rnd.randint(3, 14), size=rnd.choice([2, 2, 9]))
                B = O.mul(E, A2)
                if O.maxabs(B) * O.maxabs(O.inv(B)) < 3000:
                    A = A2
                    mon.count('skewed bases')
                    break
        L2 = Lattice(dress(rnd, O.mul(E, A)))
        if rnd.random() < .5:
            same_set(mon, mats(L2.point_group()), Q, 'point group after a change of base', id=lid, p=p, A=A)
            same_set(mon, mats(L2.Laue_group()), P, 'Laue group after a change of base', id=lid, p=p, A=A)
        else:
            same_set(mon, mats(L2.Laue_group()), P, 'Laue group after a change of base', id=lid, p=p, A=A)
            same_set(mon, mats(L2.point_group()), Q, 'point group after a change of base', id=lid, p=p, A=A)
        mon.count('base changes compared')
    mon.trivial = len(P) == 1
