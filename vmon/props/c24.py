"""The enumeration of candidate vectors visits every integer vector of bounded length once, and resumes without loss"""
import random
import itertools
from math import sqrt, floor
import numpy as np
from .. import latc

RULE = ('every radius class in 1-5 (and some in 9) dimensions, radii between and exactly at the square roots of integers; the recorded sequence is compared with '
        'the brute-force ball; every checkpoint (or a sample of them) given back as list or array must continue with exactly the rest of the sequence, '
        'also after several interruptions with a shrinking radius; non-trivial when more than one vector is visited')
FLOORS = {'vectors visited': 20000, 'resumed': 3000, 'interrupted runs': 60}


def cases(tier, rnd):
    q = tier == 'quick'
    top = {1: 40, 2: 60, 3: 30, 4: 14, 5: 8} if q else {1: 200, 2: 150, 3: 60, 4: 24, 5: 12}
    for d, n in top.items():
        for k in range(n):
            yield {'dim': d, 'sq': k, 'kind': 'ball'}
    for k in range(4 if q else 5):
        yield {'dim': 9, 'sq': k, 'kind': 'ball'}
    for i in range(80 if q else 1500):
        d = rnd.choice([2, 2, 3, 3, 4, 4, 9])
        yield {'dim': d, 'sq': rnd.randint(1, {2: 60, 3: 16, 4: 9, 9: 3}[d]), 'kind': 'interrupted', 'i': i}


def ball(d, sq):
    """all integer vectors with squared length <= sq"""
    out = []

    def rec(v, left):
        if len(v) == d:
            out.append(tuple(v))
            return
        m = int(floor(sqrt(left + .25)))
        for x in range(-m, m + 1):
            rec(v + [x], left - x * x)
    rec([], sq)
    return out


def radius(rnd, sq):
    """longer than every vector of squared length sq, or exactly as long"""
    if rnd.random() < .6:
        return sqrt(sq + rnd.uniform(.1, .9))
    R = sqrt(sq)
    return int(R) if int(R) ** 2 == sq and rnd.random() < .7 else R


def tup(v):
    return tuple(int(x) for x in v)


def run(case, mon):
    vg = latc.module('main_direct').vec_generator
    rnd = random.Random(case['s'])
    d, sq = case['dim'], case['sq']
    R = radius(rnd, sq)
    limit = len(ball(d, sq))
    if case['kind'] == 'ball':
        seq = [tup(v) for v in itertools.islice(vg(R, d), limit + 10)]
        mon.ok(len(seq) == len(set(seq)), 'a vector is visited twice', dim=d, R=R)
        mon.ok(set(seq) == set(ball(d, sq)), 'not all integer vectors of bounded length are visited, or longer ones are', dim=d, R=R,
               missing=sorted(set(ball(d, sq)) - set(seq))[:5], extra=sorted(set(seq) - set(ball(d, sq)))[:5])
        mon.count('vectors visited', len(seq))
        z = rnd.choice([[0] * d, np.zeros(d, int), (0,) * d]) if d < 9 else np.zeros(d, int)
        mon.ok([tup(v) for v in itertools.islice(vg(R, d, z), limit + 10)] == seq, 'starting at zero is not the default')
        ks = range(len(seq)) if len(seq) <= 120 else [0, 1, 2, len(seq) - 1] + rnd.sample(range(len(seq)), 60 if d < 9 else 12)
        for k in ks:
            x0 = list(seq[k]) if rnd.random() < .4 else np.array(seq[k])
            rest = [tup(v) for v in itertools.islice(vg(R, d, x0), limit + 10)]
            mon.ok(rest == seq[k:], 'resumed at %s: not the rest of the sequence' % (seq[k],), dim=d, R=R, got=rest[:5], want=seq[k:k + 5])
            mon.ok(tup(x0) == seq[k], 'the checkpoint was changed', x0=x0)
            mon.count('resumed')
        mon.trivial = len(seq) < 2
    else:
        # the way the exhaustive search uses it: slices, and the radius may shrink at every interruption
        seen, x0, r, q = [], None, R, sq
        left = []
        for _ in range(rnd.randint(1, 5)):
            g = vg(r, d) if x0 is None else vg(r, d, x0)
            n = rnd.choice([1, 2, 5, 17, 100])
            part = [tup(v) for v in itertools.islice(g, n)]
            seen += part
            nxt = next(g, None)
            if nxt is None:
                x0 = None
                break
            x0 = np.array(nxt)
            c = sum(int(x) ** 2 for x in nxt)
            if rnd.random() < .5 and q > c + 1:
                q = rnd.randint(c, q - 1)
                r = radius(rnd, q)
        if x0 is not None:
            seen += [tup(v) for v in itertools.islice(vg(r, d, x0), limit + 10)]
        mon.ok(len(seen) == len(set(seen)), 'a vector is visited twice after interruptions', dim=d, R=R, r=r)
        lost = [v for v in ball(d, q) if v not in set(seen)] if q < 4 else sorted(set(ball(d, q)) - set(seen))
        mon.ok(not lost, 'a vector within the final radius was never visited', dim=d, R=R, r=r, lost=lost[:5])
        mon.count('vectors visited', len(seen))
        mon.count('interrupted runs')
