"""Stereographic projection"""
import random
import numpy as np
from math import sqrt, acos, tan
from .. import oracles as O
from ..util import mat, vec

RULE = ('directions in both hemispheres, on the equator, at the poles and zero, about integer and real zone axes (along and off the third axis, short and long), '
        'singly and in lists, from integers and floats; the projection is recomputed from the angle and the azimuth about the zone axis; '
        'non-trivial when the direction is not a pole')
FLOORS = {'projections': 1800, 'lower hemisphere': 500, 'equator': 60, 'pole figures': 80, 'malformed': 40}


def cases(tier, rnd):
    for i in range(1500 if tier == 'quick' else 20000):
        yield {'kind': rnd.choice(['point', 'point', 'list', 'edge', 'bad' if i % 3 == 0 else 'list']), 'i': i}


def axis(rnd):
    k = rnd.randrange(5)
    if k == 0:
        return [0, 0, rnd.choice([1, 2, -1, 5])]
    if k == 1:
        f = rnd.choice([1, 1, 1, 300])
        return [f * rnd.uniform(-3, 3) for _ in range(3)]
    while True:
        z = [rnd.randint(-3, 3) for _ in range(3)]
        if any(z):
            return z


def expected(p, z):
    R = O.norm(z)
    zh = [x / R for x in z]
    n = O.norm(p)
    if n == 0:
        return [0., 0.]
    ph = [x / n for x in p]
    c = O.dot(ph, zh)
    if c < 0:
        ph = [a - 2 * c * b for a, b in zip(ph, zh)]
        c = -c
    if z[0] ** 2 + z[1] ** 2 > 1e-6:
        k = sqrt(z[0] ** 2 + z[1] ** 2)
        z1 = [z[1] / k, -z[0] / k, 0.]
        z2 = O.cross(zh, z1)
    else:
        z1, z2 = [1., 0, 0], [0., 1, 0]
    x, y = O.dot(ph, z1), O.dot(ph, z2)
    s = sqrt(x * x + y * y)
    if s < 1e-12:
        return [0., 0.]
    r = R * tan(acos(max(-1., min(1., c))) / 2)
    return [r * x / s, r * y / s]


def near(a, b, R):
    return len(a) == 2 and max(abs(x - y) for x, y in zip(a, b)) < 2e-3 * R


def direction(rnd, z):
    k = rnd.randrange(6)
    if k == 4:
        # close to the equator
        v = O.cross(z, [rnd.gauss(0, 1) for _ in range(3)])
        e = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-4, -1)
        return [x + e * y for x, y in zip(v, z)]
    if k == 5:
        # close to the pole
        v = O.cross(z, [rnd.gauss(0, 1) for _ in range(3)])
        e = rnd.choice([-1, 1])
        return [.1 * x + e * y for x, y in zip(v, z)]
    if k == 0:
        return [rnd.randint(-4, 4) for _ in range(3)]
    if k == 1:
        return [rnd.gauss(0, 1) for _ in range(3)]
    if k == 2:
        return [rnd.uniform(-50, 50) for _ in range(3)]
    return [float(rnd.randint(-4, 4)) for _ in range(3)]


def run(case, mon):
    from structrans.crystallography.stereogram import stereo_proj, pole_figure
    rnd = random.Random(case['s'])
    z = axis(rnd)
    R = O.norm(z)
    if R < .1:
        z = [1, 1, 1]
        R = sqrt(3)
    za = np.array(z)

    def one(p):
        pa = np.array(p)
        keep = pa.tolist(), za.tolist()
        got = vec(stereo_proj(pa, za), 'projection')
        mon.ok((pa.tolist(), za.tolist()) == keep, 'an input was changed')
        w = expected(p, z)
        mon.ok(near(got, w, R), 'projection', p=p, z=z, got=got, want=w)
        mon.ok(O.norm(got) <= R * (1 + 1e-3), 'outside of the projection circle', p=p, z=z, got=got)
        # the length does not matter, nor does the hemisphere
        k = rnd.choice([rnd.uniform(.5, 20), 10 ** rnd.uniform(-9, 6)])
        g2 = vec(stereo_proj(np.array([k * float(x) for x in p]), za), 'projection')
        mon.ok(near(g2, w, R), 'the length of the direction changes its projection', p=p, z=z, k=k, got=g2)
        mon.count('projections')
        mon.count('lower hemisphere', O.dot(p, z) < 0)
    kind = case['kind']
    if kind == 'point':
        for _ in range(12):
            one(direction(rnd, z))
    elif kind == 'edge':
        one([0, 0, 0])
        one([float(x) for x in z])
        one([-float(x) for x in z])
        for _ in range(3):
            v = O.cross(z, [rnd.gauss(0, 1) for _ in range(3)])
            if O.norm(v) > .1:
                got = vec(stereo_proj(np.array(v), za), 'projection')
                mon.ok(abs(O.norm(got) - R) < 2e-3 * R, 'a direction on the equator is not on the circle', v=v, z=z, got=got)
                mon.count('equator')
    elif kind == 'list':
        ps = [direction(rnd, z) for _ in range(rnd.choice([rnd.randint(1, 8), rnd.randint(9, 60)]))]
        ps += [rnd.choice(ps) for _ in range(rnd.choice([0, 0, 2]))]
        arg = rnd.choice([ps, np.array(ps), [list(map(float, p)) for p in ps]])
        got = mat(pole_figure(arg, za), 'pole figure')
        mon.ok(len(got) == len(ps), 'one pole per direction', got=got)
        for p, g in zip(ps, got):
            mon.ok(near(g, expected(p, z), R), 'pole', p=p, z=z, got=g, want=expected(p, z))
            mon.count('projections')
            mon.count('lower hemisphere', O.dot(p, z) < 0)
        single = mat(pole_figure(ps[0], za), 'pole figure')
        mon.ok(len(single) == 1 and near(single[0], expected(ps[0], z), R), 'pole figure of a single direction', p=ps[0], got=single)
        mon.count('pole figures')
    else:
        n = rnd.choice([1, 2, 4, 5])
        for bad in ([[1.] * n], [[1.] * n, [2.] * n], [1.] * n, [[[1., 0, 0]], [[0, 1., 0]]]):
            try:
                r = pole_figure(bad, za)
            except Exception:
                r = None
            mon.ok(r is None, 'a malformed list of directions was projected', bad=bad, got=r)
            mon.count('malformed')
        mon.trivial = True
