"""lat_cor finds the best lattice correspondences: nothing closer exists among all integer matrices"""
import random
from .. import oracles as O, gen as G, latc
from ..core import Skip

RULE = ('2D pairs of all Bravais types and 3D pairs (near-cubic, fcc-bct, bcc-fcc, pairs whose further answers lie just inside the search radius), 1-6 solutions, any slice size, product cells smaller and larger '
        'than the parent cell, several random starting points; an exact branch and bound enumerates every integer correspondence up to the '
        'distance of the last answer; the list of distances and the equivalence classes must agree; non-trivial when the '
        'enumeration contains at least two classes')
FLOORS = {'optimal lists confirmed': 60, 'correspondences enumerated': 1000, '3D lists confirmed': 12}
CASE_LIMIT = 300


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(8 if q else 40):
        yield {'dim': 3, 'nsol': 1 if q or i % 4 else 2, 'i': i}
    for i in range(12 if q else 60):
        yield {'dim': 3, 'nsol': rnd.choice([2, 2, 3, 4]), 'tight': True, 'i': i}
    for i in range(90 if q else 1500):
        yield {'dim': 2, 'nsol': rnd.choice([1, 1, 2, 3, 4, 6]), 'i': i}
    if not q:
        for i in range(8):
            yield {'dim': 3, 'nsol': 1, 'others': True, 'i': i}


def run(case, mon):
    from structrans import lat_cor, lat_cor_direct
    rnd = random.Random(case['s'])
    d, nsol = case['dim'], case['nsol']
    if case.get('tight'):
        # the farther answers lie just inside the radius that has to be searched
        a = rnd.uniform(1, 9)
        ia, pa, im, pm = 1, [a], 6, [a * rnd.uniform(1.0, 1.08), a * rnd.uniform(.8, .9)]
        if rnd.random() < .3:
            im, pm = 8, [pm[0], pm[0] * rnd.uniform(.99, 1.01), pm[1]]
    elif d == 3:
        ia, pa, im, pm = latc.near(rnd, bool(case.get('others')))
    else:
        ia, pa, im, pm = latc.pair(rnd, 2, ratios=(1, 1, 1, 2, 3, .4, .7))
    EA, EM, CA, CM, GA, GM = latc.lattices(ia, pa, im, pm, d)
    kw = {'dim': d, 'nsol': nsol, 'disp': 0}
    if rnd.random() < .5:
        kw['slice_sz'] = rnd.choice([1, 7, 50, 99, 100, 101, 1000] if d == 2 else [50, 99, 1000])
    sols = rnd.choice([lat_cor, lat_cor_direct])(ia, pa, im, pm, **kw)
    got = [float(s['d']) for s in sols]
    mon.ok(len(got) >= nsol, 'fewer solutions than asked for', got=got, nsol=nsol)
    D = got[nsol - 1]
    allc = O.all_correspondences(EA, EM, D * (1 + 1e-7) + 1e-9, limit=6000000)
    if allc is None:
        raise Skip('too many correspondences to enumerate')
    cl = O.classes(allc, GA, GM)
    mon.count('correspondences enumerated', len(allc))
    mon.ok(len(cl) >= 1, 'harness: empty enumeration')
    for k in range(nsol):
        w = cl[k][0] if k < len(cl) else float('inf')
        mon.ok(abs(got[k] - w) < 1e-6 * (1 + abs(w)), 'a closer correspondence exists (or the distance is wrong)', k=k, got=got,
               exact=[c[0] for c in cl[:nsol + 2]], missed=cl[k][1] if k < len(cl) else None, ia=ia, pa=pa, im=im, pm=pm)
    # classes strictly better than the last one must all be there
    keys = set()
    for s in sols:
        keys |= latc.orbit(latc.total(s)[0], GA, GM)
    for dist, L in cl:
        if dist < D * (1 - 1e-6) - 1e-9:
            mon.ok(latc.key(L) in keys, 'a better class of correspondences is missing', d=dist, L=L, got=got)
    mon.count('optimal lists confirmed')
    if d == 3:
        mon.count('3D lists confirmed')
    mon.trivial = len(cl) < 2
