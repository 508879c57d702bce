"""lat_cor_hnf finds the best correspondences within the volume window"""
import random
from .. import oracles as O, gen as G, latc
from ..core import Skip

RULE = ('2D pairs of all Bravais types with 1-3 solutions, 2D pairs whose parent has a sublattice that is more symmetric than the parent, 3D textbook '
        'transformations with 1-3 solutions, Cauchy and strain distance, several volume windows; an exact branch and '
        'bound enumerates every orientation-preserving integer correspondence in the window up to the distance of the last answer; distances '
        'and equivalence classes must agree; non-trivial when the enumeration contains at least two classes')
FLOORS = {'optimal lists confirmed': 90, 'correspondences enumerated': 1000, '3D lists confirmed': 12, 'ties confirmed': 10}
CASE_LIMIT = 400


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(24 if q else 120):
        yield {'dim': 3, 'kind': 'textbook', 'nsol': 1 + i % 3, 'i': i}
    for i in range(180 if q else 1500):
        yield {'dim': 2, 'kind': 'any', 'nsol': rnd.choice([1, 1, 2, 3]), 'i': i}
    for i in range(36 if q else 300):
        yield {'dim': 2, 'kind': 'symmetric', 'nsol': rnd.choice([2, 3, 4]), 'i': i}


def symmetric(rnd):
    """parent with a sublattice of higher symmetry"""
    a = rnd.uniform(1, 5)
    k = rnd.choice([2, 2, 3])
    c = rnd.randrange(3)
    if c == 0:
        pa = (2, [a * k, a])                        # rectangular with square sublattice
    elif c == 1:
        pa = (3, [a * k * 3 ** .5, a])              # centred rectangular with hexagonal sublattice
    else:
        pa = (5, [a * k, a, rnd.choice([60., 120.])])     # oblique with hexagonal sublattice
    im = rnd.randint(1, 5)
    pm = G.bravais_params(rnd, im, 2)
    r = k * (1 + .06 * rnd.uniform(-1, 1))
    pm = latc.scaled(im, pm, (r * latc.volume(pa[0], pa[1], 2) / latc.volume(im, pm, 2)) ** .5, 2)
    return pa[0], pa[1], im, pm


def run(case, mon):
    from structrans import lat_cor_hnf
    rnd = random.Random(case['s'])
    d, nsol = case['dim'], case['nsol']
    if case['kind'] == 'symmetric':
        ia, pa, im, pm = symmetric(rnd)
    elif case['kind'] == 'textbook':
        ia, pa, im, pm = latc.realistic(rnd)
    else:
        ia, pa, im, pm = latc.pair(rnd, d, ratios=(1, 1, 2, 2, 3, 4) if d == 2 else (1, 1, 1, 2))
    EA, EM, CA, CM, GA, GM = latc.lattices(ia, pa, im, pm, d)
    dist = rnd.choice(['Cauchy', 'strain'])
    kw = {'dim': d, 'nsol': nsol, 'disp': 0}
    if dist != 'Cauchy' or rnd.random() < .5:
        kw['dist'] = dist
    if d == 2 and rnd.random() < .3:
        kw['vol_th'] = rnd.choice([.05, .2, .3])
    win = latc.window(EA, EM, kw.get('vol_th', .1))
    sols = lat_cor_hnf(ia, pa, im, pm, **kw)
    got = [float(s['d']) for s in sols]
    mon.ok(len(got) >= nsol, 'fewer solutions than asked for', got=got, nsol=nsol)
    D = got[nsol - 1] * (1 + 1e-7) + 1e-9
    # (s^2 - 1)^2 <= (s - 1)^2 (2 + |s - 1|)^2: the strain distance bounds the Cauchy distance
    allc = O.all_correspondences(EA, EM, D if dist == 'Cauchy' else D * (2 + D ** .5) ** 2, dets=tuple(win), limit=3000000)
    if allc is None:
        raise Skip('too many correspondences to enumerate')
    f = latc.DIST[dist]
    allc = sorted((f(L, EA, EM), L) for x, L in allc if O.det(L) > 0)
    allc = [(x, L) for x, L in allc if x <= D]
    cl = O.classes(allc, latc.proper(GA), latc.proper(GM))
    mon.count('correspondences enumerated', len(allc))
    for k in range(nsol):
        w = cl[k][0] if k < len(cl) else float('inf')
        mon.ok(abs(got[k] - w) < 1e-6 * (1 + abs(w)), 'a closer correspondence exists (or the distance is wrong)', k=k, got=got,
               exact=[c[0] for c in cl[:nsol + 2]], missed=cl[k][1] if k < len(cl) else None, ia=ia, pa=pa, im=im, pm=pm, dist=dist, window=win)
    keys = set()
    for s in sols:
        keys |= latc.orbit(latc.total(s)[0], latc.proper(GA), latc.proper(GM))
    for x, L in cl:
        if x < got[nsol - 1] * (1 - 1e-6) - 1e-9:
            mon.ok(latc.key(L) in keys, 'a better class of correspondences is missing', d=x, L=L, got=got)
    mon.count('optimal lists confirmed')
    mon.count('ties confirmed', any(abs(a - b) < 1e-9 * (1 + a) for a, b in zip(got[:nsol], got[1:nsol])))
    if d == 3:
        mon.count('3D lists confirmed')
    mon.trivial = len(cl) < 2
