"""Rotations, Euler angles and screw operations"""
import random
import numpy as np
from math import radians, pi
from .. import oracles as O, gen as G
from ..util import mat, vec, dress

RULE = ('random angles (any size and sign, degrees and radians) and axes (random, along and opposite to the coordinate axes, '
        'nearly so, any length, integer or float, list or array), all 27 Euler orders in upper and lower case; compared with '
        'the Rodrigues formula; screws against 2 pi/n and p/n; non-trivial unless the angle is a multiple of 360 degrees')
FLOORS = {'rotations': 500, 'euler': 300, 'screws': 200, 'rejections observed': 20}


def cases(tier, rnd):
    for i in range(1500 if tier == 'quick' else 30000):
        yield {'kind': ['rot', 'euler', 'skew', 'rot', 'comp'][i % 5]}
    for k in range(10):
        yield {'kind': 'bad', 'k': k}


def axis(rnd):
    if rnd.random() < .15:
        # any length
        k = 10. ** rnd.choice([-12, -9, -6, -3, 3, 6, 9])
        while True:
            a = axis(rnd)
            if O.norm(a) > 1e-2:
                return [k * x for x in a]
    k = rnd.randrange(5)
    if k == 0:
        return [rnd.randint(-3, 3) for _ in range(3)]
    if k == 1:
        a = [0, 0, 0]
        a[rnd.randrange(3)] = rnd.choice([-1, 1, -2, 5])
        return a
    if k == 2:
        a = [rnd.uniform(-1e-3, 1e-3) for _ in range(3)]
        a[rnd.randrange(3)] += rnd.choice([-1, 1])
        return a
    if k == 3:
        # around the switch between the two auxiliary vectors
        c = rnd.choice([0.89, 0.9, 0.91, 0.9 + rnd.uniform(-1e-9, 1e-9)]) * rnd.choice([-1, 1])
        s = (1 - c * c) ** .5
        t = rnd.uniform(0, 6.28)
        return [c, s * O.cos(t), s * O.sin(t)]
    return [rnd.gauss(0, rnd.choice([1, 10])) for _ in range(3)]


def angle(rnd):
    return rnd.choice([rnd.uniform(-400, 400), rnd.choice([0, 30, 45, 60, 90, 120, 180, 270, 360, -90, -180, 540]), rnd.uniform(-1, 1), rnd.uniform(-1e-4, 1e-4), rnd.uniform(-4000, 4000)])


def run(case, mon):
    from structrans import rotation, Euler
    from structrans.crystallography.spacegroup import skew
    rnd = random.Random(case['s'])
    kind = case['kind']
    if kind == 'bad':
        mon.raises(ValueError, Euler, 'two angles', [10, 20])
        mon.raises(ValueError, Euler, 'four angles', [10, 20, 30, 40])
        mon.raises(ValueError, Euler, 'two letters', [10, 20, 30], order='ZX')
        mon.raises(ValueError, Euler, 'four letters', [10, 20, 30], order='ZXZX')
        mon.raises(ValueError, Euler, 'unknown axis', [10, 20, 30], order=rnd.choice(['ZAZ', 'XYW', '1XZ', 'zx!']))
        return
    a = axis(rnd)
    while O.norm(a) == 0:
        a = axis(rnd)
    t = angle(rnd)
    unit = ''.join(rnd.choice([['d', 'eg'], ['r', 'ad']]))     # an equal string, not the same object
    val = t if unit == 'deg' else radians(t)
    mon.trivial = abs(t / 360. - round(t / 360.)) < 1e-9
    kw = {'unit': unit} if unit == 'rad' or rnd.random() < .5 else {}
    if kind == 'rot':
        arg = dress(rnd, a, all(isinstance(x, int) for x in a))
        keep = np.array(arg).tolist()
        R = mat(rotation(val, arg, **kw))
        mon.ok(np.array(arg).tolist() == keep, 'rotation changed its axis')
        mon.ok(O.maxdiff(R, O.rodrigues(radians(t), a)) < 1e-8, 'rotation(angle, axis)', t=t, a=a, unit=unit, R=R)
        mon.count('rotations')
    elif kind == 'comp':
        # composition about one axis, inverse, fixed axis
        u = angle(rnd)
        R1, R2 = mat(rotation(t, a)), mat(rotation(u, a))
        R12, Ri = mat(rotation(t + u, a)), mat(rotation(-t, a))
        mon.ok(O.maxdiff(O.mul(R1, R2), R12) < 1e-8, 'rotations about one axis do not add', t=t, u=u, a=a)
        mon.ok(O.maxdiff(O.T(R1), Ri) < 1e-8, 'opposite angle is not the inverse', t=t, a=a)
        mon.ok(O.is_rotation(R1, 1e-8), 'not a proper rotation', t=t, a=a)
        mon.ok(max(abs(x - y) for x, y in zip(O.mulv(R1, a), a)) < 1e-8 * O.norm(a), 'the axis moves', t=t, a=a)
        mon.ok(O.maxdiff(mat(rotation(t, [-x for x in a])), Ri) < 1e-8, 'reversed axis is not the inverse', t=t, a=a)
        mon.count('rotations')
    elif kind == 'euler':
        order = ''.join(rnd.choice('XYZxyz') for _ in range(3))
        ang = [angle(rnd) for _ in range(3)]
        args = ang if unit == 'deg' else [radians(x) for x in ang]
        use = rnd.random() < .8
        if not use:
            order = 'ZXZ'
        k2 = dict(kw, order=order) if use else kw
        R = mat(Euler(args if rnd.random() < .5 else np.array(args), **k2))
        W = O.eye(3)
        for x, o in zip(ang, order):
            W = O.mul(O.rodrigues(radians(x), {'X': [1, 0, 0], 'Y': [0, 1, 0], 'Z': [0, 0, 1]}[o.upper()]), W)
        mon.ok(O.maxdiff(R, W) < 1e-8, 'Euler(angles)', ang=ang, order=order, unit=unit, R=R)
        mon.count('euler')
    else:
        n = rnd.choice([1, 2, 3, 4, 6, 2, 3, 4, 6, 5, 8, 10, 12])
        p = rnd.randint(0, n - 1) if rnd.random() < .6 else rnd.choice([n, rnd.randint(n, 4 * n + 1), -rnd.randint(1, 2 * n)])
        Q, c = skew(n, p, dress(rnd, a, all(isinstance(x, int) for x in a)))
        mon.ok(O.maxdiff(mat(Q), O.rodrigues(2 * pi / n, a)) < 1e-8, 'screw rotation', n=n, p=p, a=a)
        want = [(p % n) / float(n) * x for x in a]
        mon.ok(max(abs(x - y) for x, y in zip(vec(c), want)) < 1e-8 * O.norm(a), 'screw translation', n=n, p=p, a=a, c=c)
        # n screws make a whole number of lattice translations
        W = O.eye(3)
        for _ in range(n):
            W = O.mul(mat(Q), W)
        mon.ok(O.maxdiff(W, O.eye(3)) < 1e-7, 'n-fold screw is not the identity after n turns', n=n)
        mon.trivial = False
        mon.count('screws')
