"""Integer lattice groups are the point and Laue groups seen from the lattice"""
import random
import numpy as np
import warnings
from .. import oracles as O, gen as G
from ..util import mats, imat, dress

RULE = ('all 2D/3D Bravais types in arbitrary unimodular bases, and random bases; every integer matrix returned must be '
        'unimodular, preserve the metric, and be E^-1 Q E of a point (Laue) group element, one to one; for Bravais types the '
        'set is compared with exhaustive search; deprecated names must give the same sets; non-trivial when the group is '
        'larger than {+-1}')
FLOORS = {'integer matrices checked': 2000, 'complete sets compared': 200, 'aliases compared': 500}


def cases(tier, rnd):
    n = 12 if tier == 'quick' else 160
    for k in range(n):
        for lid in range(1, 15):
            yield {'id': lid, 'dim': 3, 'k': k}
        for lid in range(1, 6):
            yield {'id': lid, 'dim': 2, 'k': k}
        yield {'id': 0, 'dim': 2, 'k': k}
        yield {'id': 0, 'dim': 3, 'k': k}


def keyset(ms):
    return set(tuple(x for r in m for x in r) for m in ms)


def run(case, mon):
    from structrans import Lattice, BravaisLattice
    rnd = random.Random(case['s'])
    lid, n = case['id'], case['dim']
    full = None
    if lid:
        p = G.wide(rnd, lid, (G.special_params if case['k'] % 4 == 3 else G.bravais_params)(rnd, lid, n), n)
        b = BravaisLattice(lid, p, dim=n)
        E0 = b.base().tolist()
        A = G.unimodular(rnd, n, limit=rnd.choice([6, 6, 30])) if rnd.random() < .7 else [[int(i == j) for j in range(n)] for i in range(n)]
        E = O.mul(E0, A)
        Ai = [[int(x) for x in r] for r in O.inv_int(A)]
        full = [O.mul(O.mul(Ai, M), A) for M in O.lattice_group(E0)]
        lat = Lattice(dress(rnd, E)) if rnd.random() < .8 or O.maxdiff(E, E0) > 0 else b
        if O.maxdiff(E, E0) == 0 and rnd.random() < .5:
            lat = b
    else:
        E = G.wide_base(rnd, n)
        lat = Lattice(dress(rnd, E))
    first = rnd.random() < .5
    if first:
        g = lat.lattice_group()
        s = lat.special_lattice_group()
    else:
        s = lat.special_lattice_group()
        g = lat.lattice_group()
    got = {}
    Gm = O.gram(E)
    Ei = O.inv(E)
    for name, grp, pg in (('lattice group', g, lat.point_group()), ('special lattice group', s, lat.Laue_group())):
        for m in grp.matrices():
            mon.ok(np.asarray(m).dtype.kind in 'iu', name + ': entries are not of integer type', m=m)
        ms = [imat(m) for m in grp.matrices()]
        mon.ok(grp.order() == len(ms), name + ': order()')
        got[name] = keyset(ms)
        mon.ok(len(got[name]) == len(ms), name + ': duplicates')
        mon.ok(len(ms) == pg.order(), name + ': not one matrix per symmetry', n=len(ms), m=pg.order())
        Qs = mats(pg)
        for m in ms:
            d = O.det(m)
            mon.ok(d == 1 or (d == -1 and name == 'lattice group'), name + ': determinant', m=m)
            mon.ok(O.maxdiff(O.mul(O.mul(O.T(m), Gm), m), Gm) < 1e-6 * O.maxabs(Gm), name + ': metric not preserved', m=m, E=E)
            Q = O.mul(O.mul(E, m), Ei)
            mon.ok(any(O.maxdiff(Q, q) < 1e-5 for q in Qs), name + ': E M E^-1 is not in the point group', m=m, E=E)
            mon.ok(bool(lat.inlatticegroup(np.array(m))), name + ': own element refused by inlatticegroup', m=m)
            mon.count('integer matrices checked')
        for a in ms[:6]:
            for c in ms:
                mon.ok(tuple(x for r in O.mul(a, c) for x in r) in got[name], name + ': not closed', a=a, c=c)
    mon.ok(got['special lattice group'] == set(k for k in got['lattice group']
                                               if O.det([list(k[i * n:i * n + n]) for i in range(n)]) == 1),
           'the special group is not the determinant-one part of the lattice group')
    if full is not None:
        mon.ok(got['lattice group'] == keyset(full), 'the lattice group is not the full one', got=len(got['lattice group']),
               want=len(full), id=lid, E=E)
        mon.count('complete sets compared')
    for old, new in (('getlatticegroup', 'lattice group'), ('getspeciallatticegroup', 'special lattice group')):
        mon.ok(keyset([imat(m) for m in getattr(lat, old)().matrices()]) == got[new], old + ' differs from its replacement')
        mon.count('aliases compared')
    for old, new in (('getLauegroup', 'Laue_group'), ('getpointgroup', 'point_group')):
        x, y = mats(getattr(lat, old)()), mats(getattr(lat, new)())
        mon.ok(len(x) == len(y) and all(any(O.maxdiff(a, c) < 1e-9 for c in y) for a in x), old + ' differs from its replacement')
    mon.ok(O.maxdiff(lat.getbase().tolist(), lat.base().tolist()) == 0, 'getbase() differs from base()')
    mon.ok(keyset([imat(m) for m in lat.lattice_group().matrices()]) == got['lattice group'] and
           keyset([imat(m) for m in lat.special_lattice_group().matrices()]) == got['special lattice group'],
           'asking again gives another group')
    mon.trivial = len(got['lattice group']) == 2
