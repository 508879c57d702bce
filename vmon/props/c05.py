"""Bravais lattices realise their parameters"""
import random
import re
import numpy as np
from math import acos, degrees
from .. import oracles as O, gen as G
from ..util import mat, vec, imat

RULE = ('all 14+5 types with random and special parameters given as list, array, integer or single number; lengths and angles '
        'of the conventional base, centring, handedness, volume ratio, description text and accessors are checked against '
        'the parameters; malformed input must be refused; non-trivial always')
FLOORS = {'cells checked': 200, 'rejections observed': 60, 'descriptions checked': 200}

NAMES = {3: ['Cubic P', 'Cubic F', 'Cubic I', 'Hexagonal P', 'Rhombohedral P', 'Tetragonal P', 'Tetragonal I', 'Orthorhombic P',
             'Orthorhombic C', 'Orthorhombic F', 'Orthorhombic I', 'Monoclinic P', 'Monoclinic C', 'Triclinic P'],
         2: ['Square P', 'Rectangular P', 'Rectangular I', 'Hexagonal P', 'Oblique P']}


def cases(tier, rnd):
    n = 150 if tier == 'quick' else 1500
    for k in range(n):
        for lid in range(1, 15):
            yield {'kind': 'cell', 'id': lid, 'dim': 3, 'k': k}
        for lid in range(1, 6):
            yield {'kind': 'cell', 'id': lid, 'dim': 2, 'k': k}
        if k < n // 30:
            for lid in range(1, 15):
                yield {'kind': 'bad', 'id': lid, 'dim': 3}
            for lid in range(1, 6):
                yield {'kind': 'bad', 'id': lid, 'dim': 2}


def ang(a, b):
    return degrees(acos(max(-1, min(1, O.dot(a, b) / O.norm(a) / O.norm(b)))))


def run(case, mon):
    from structrans import BravaisLattice, Lattice
    rnd = random.Random(case['s'])
    lid, n = case['id'], case['dim']
    p = G.bravais_params(rnd, lid, n)
    if case['kind'] == 'bad':
        npar = G.NPAR[n][lid - 1]
        mon.raises(ValueError, BravaisLattice, 'id 0', 0, p, dim=n)
        mon.raises(ValueError, BravaisLattice, 'id too large', 15 if n == 3 else 6, [1] * 6, dim=n)
        mon.raises(ValueError, BravaisLattice, 'negative id', -lid, p, dim=n)
        mon.raises(ValueError, BravaisLattice, 'too many parameters', lid, p + [2.0], dim=n)
        if npar > 1:
            mon.raises(ValueError, BravaisLattice, 'too few parameters', lid, p[:-1], dim=n)
            mon.raises(ValueError, BravaisLattice, 'one number for several parameters', lid, 3.0, dim=n)
        for k in range(npar):
            for bad in (0, -p[k], -1e-3):
                q = list(p)
                q[k] = bad
                mon.raises(ValueError, BravaisLattice, 'non-positive parameter %r' % q, lid, q, dim=n)
                mon.raises(ValueError, BravaisLattice, 'non-positive parameter %r' % q, lid, np.array(q), dim=n)
        for k in range(npar):
            for bad in (float('nan'), float('inf')):
                q = list(p)
                q[k] = bad
                mon.raises(ValueError, BravaisLattice, 'parameter %r' % q, lid, q, dim=n)
        first = {(2, 5): 2, (3, 5): 1, (3, 12): 3, (3, 13): 3, (3, 14): 3}.get((n, lid), npar)
        for k in range(first, npar):
            for bad in (180, rnd.uniform(181, 359), rnd.uniform(361, 539), 180 + p[k]):
                q = list(p)
                q[k] = bad
                mon.raises(ValueError, BravaisLattice, 'angle in %r' % q, lid, q, dim=n)
        for bad in (0, 1, 4, -3):
            mon.raises(ValueError, BravaisLattice, 'dimension %d' % bad, lid, p, dim=bad)
        mon.raises(ValueError, BravaisLattice, 'nested parameters', lid, [p, p], dim=n)
        mon.raises(ValueError, BravaisLattice, 'text', lid, 'abc', dim=n)
        mon.raises(ValueError, BravaisLattice, 'nothing', lid, [], dim=n)
        if n == 3 and lid == 5:
            mon.raises(ValueError, BravaisLattice, 'impossible rhombohedral angle', 5, [p[0], rnd.uniform(121, 170)])
        if n == 3 and lid == 14:
            mon.raises(ValueError, BravaisLattice, 'impossible triclinic angles', 14, p[:3] + [50., 60., 130.])
        return
    if case['k'] % 3 == 2:
        p = G.special_params(rnd, lid, n)
    if case['k'] % 4 == 1:
        # flat and sharp cells: angles far from 90 degrees, axes of very different lengths
        if (n, lid) in ((2, 5), (3, 12), (3, 13)):
            p = p[:-1] + [rnd.choice([rnd.uniform(12, 62), rnd.uniform(118, 168), 30., 45., 60., 120., 135., 150.])]
        elif (n, lid) == (3, 5):
            p = [p[0], rnd.choice([rnd.uniform(8, 60), rnd.uniform(90, 118.5), 60., 90.])]
        elif (n, lid) == (3, 14):
            while True:
                a = [rnd.choice([rnd.uniform(30, 150), 60., 90., 120., 90.]) for _ in range(3)]
                if G.triclinic_ok(*a):
                    break
            p = p[:3] + a
        k = G.NLEN[n][lid - 1]
        if k > 1:
            p = [x * (rnd.choice([1, 1, 7, 0.1]) if i < k else 1) for i, x in enumerate(p)]
    p = G.wide(rnd, lid, p, n)
    given = list(p)
    if case['k'] % 5 == 1 and not any(a != int(a) for a in p):
        given = [int(a) for a in p]
    how = rnd.randrange(3)
    arg = np.array(given) if how == 0 else (given[0] if how == 1 and len(given) == 1 else given)
    kw = {} if n == 3 and rnd.random() < .5 else {'dim': n}
    lat = BravaisLattice(lid, arg, **kw)
    mon.ok(isinstance(lat, Lattice) and lat.dimension() == n and lat.Bravais_id() == lid, 'type and id')
    mon.ok(vec(lat.lat_param()) == p, 'lat_param()', got=lat.lat_param(), p=p)
    E = mat(lat.base())
    C = mat(lat.conventional_base())
    Tm = imat(lat.conventional_trans(), 'conventional_trans', 1e-9)
    scale = O.maxabs(C)
    mon.ok(O.maxdiff(O.mul(E, Tm), C) < 1e-8 * scale, 'conventional base = primitive base times conventional_trans', id=lid, p=p)
    ls, an = G.conv_metric(lid, p, n)
    cols = O.T(C)
    for i in range(n):
        mon.ok(abs(O.norm(cols[i]) - ls[i]) < 1e-6 * ls[i], 'length of conventional axis', i=i, got=O.norm(cols[i]), want=ls[i], id=lid, p=p)
    if n == 2:
        mon.ok(abs(ang(cols[0], cols[1]) - an) < 1e-5, 'angle between conventional axes', got=ang(cols[0], cols[1]), want=an, id=lid, p=p)
    else:
        for i, (a, b) in enumerate(((1, 2), (0, 2), (0, 1))):
            mon.ok(abs(ang(cols[a], cols[b]) - an[i]) < 1e-5, 'angle between conventional axes', axes=[a, b],
                   got=ang(cols[a], cols[b]), want=an[i], id=lid, p=p)
    cen = G.centrings(lid, n)
    vol, cvol = O.det(E), O.det(C)
    mon.ok(vol > 0 and cvol > 0, 'bases are right-handed', id=lid, p=p)
    mon.ok(abs(cvol / vol - len(cen)) < 1e-8, 'points per conventional cell', got=cvol / vol, want=len(cen), id=lid)
    Ei = O.inv(E)
    for f in cen:
        x = O.mulv(Ei, O.mulv(C, f))
        mon.ok(max(abs(a - round(a)) for a in x) < 1e-8, 'centring point is not a lattice point', f=f, id=lid, p=p)
    mon.count('cells checked')
    s = str(lat)
    mon.ok(s.startswith('%dD Bravais Lattice - %s' % (n, NAMES[n][lid - 1])), 'description names the type', s=s)
    names = {3: [['a']] * 3 + [['a', 'c'], ['a', 'alpha'], ['a', 'c'], ['a', 'c']] + [['a', 'b', 'c']] * 4 +
             [['a', 'b', 'c', 'beta']] * 2 + [['a', 'b', 'c', 'alpha', 'beta', 'gamma']],
             2: [['a'], ['a', 'b'], ['a', 'b'], ['a'], ['a', 'b', 'gamma']]}[n][lid - 1]
    found = dict(re.findall(r'(\w+) = ([-+0-9.e]+)', s))
    mon.ok(sorted(found) == sorted(names), 'description lists the parameters of the type', s=s, names=names)
    for k, v in zip(names, p):
        mon.ok(abs(float(found[k].rstrip(',')) - v) <= 1e-5 * abs(v), 'description shows the value of ' + k, s=s, v=v)
    mon.count('descriptions checked')
    for old, new in (('getLatID', 'Bravais_id'), ('getLatParam', 'lat_param'), ('getConventionalTrans', 'conventional_trans'),
                     ('getConventionalBase', 'conventional_base'), ('getbase', 'base')):
        mon.ok(np.allclose(getattr(lat, old)(), getattr(lat, new)(), rtol=1e-12, atol=0), old + ' differs from its replacement')
