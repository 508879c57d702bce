"""The optimizer of one sublattice returns valid cells of it, sorted, inequivalent, and locally best"""
import logging
import random
import re
import numpy as np
from .. import oracles as O, gen as G, latc
from ..util import imat, dress_arr

RULE = ('pairs of bases (Bravais types, sublattices of them, random, badly skewed and left-handed bases) in 2-3 dimensions, all distances, '
        '1-4 solutions, the group of the product given or not; every returned matrix must be unimodular with the stated distance, the list sorted and inequivalent, '
        'and neither an elementary shear of the best cell, nor the cells tried at the start may be better; describing '
        'the sublattice by another base must not change the best 2D distance; the number of generations reported by the search lies within '
        'its bounds and a deeper search is never worse, alone and through the whole search; non-trivial when the start is not already the answer')
FLOORS = {'solutions checked': 250, 'shears tried': 700, 'runs': 120, '2D optimum confirmed': 25, 'depths compared': 120}
CASE_LIMIT = 300


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(120 if q else 1500):
        yield {'dim': 2, 'nsol': rnd.choice([1, 2, 3, 4]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'i': i}
    for i in range(30 if q else 300):
        yield {'dim': 2, 'nsol': rnd.choice([1, 1, 2, 4]), 'dist': ['Cauchy', 'strain'][i % 2], 'depths': True, 'i': i}
    for i in range(6 if q else 60):
        yield {'dim': 2, 'through': True, 'i': i}
    for i in range(4 if q else 60):
        yield {'dim': 3, 'nsol': 1, 'dist': 'Cauchy', 'depths': True, 'i': i}
    for i in range(40 if q else 500):
        yield {'dim': 3, 'nsol': rnd.choice([1, 1, 2]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'i': i}


def run(case, mon):
    lat_opt = latc.module('lat_opt').lat_opt
    rnd = random.Random(case['s'])
    if case.get('through'):
        return through(mon, rnd)
    d, nsol, dist = case['dim'], case['nsol'], case['dist']
    ia, pa, im, pm = latc.pair(rnd, d, ratios=(1,), spread=.1)
    from structrans import BravaisLattice, Lattice
    E1 = BravaisLattice(ia, pa, dim=d).base().tolist()
    E2 = BravaisLattice(im, pm, dim=d).base().tolist()
    k = rnd.randrange(3)
    if k == 0:
        H = rnd.choice(latc.hnfs(rnd.choice([2, 3, 4]), d))
        f = abs(O.det(H)) ** (-1. / d)
        E1 = O.scal(f, O.mul(E1, H))
    elif k == 1:
        E1 = G.base(rnd, d)
        f = (abs(O.det(E2)) / abs(O.det(E1))) ** (1. / d)
        E1 = O.scal(f, E1)
    A = G.unimodular(rnd, d, limit=6)
    if rnd.random() < .6:
        E1 = O.mul(E1, A)
    a1, a2 = dress_arr(rnd, E1), dress_arr(rnd, E2)
    keep = a1.tolist(), a2.tolist()
    kw = {'nsol': nsol, 'dist': dist, 'disp': 0}
    G2 = O.lattice_group(E2)
    if rnd.random() < .5:
        kw['SOLG2'] = np.array(latc.proper(G2))
    if dist == 'Cauchy' and rnd.random() < .5:
        kw.pop('dist')
    if case.get('depths'):
        return depths(mon, rnd, lat_opt, a1, a2, kw, d)
    res = lat_opt(a1, a2, **kw)
    mon.ok((a1.tolist(), a2.tolist()) == keep, 'an input was changed')
    ls = [imat(l) for l in res['lopt']]
    ds = [float(x) for x in res['dopt']]
    mon.ok(len(ls) == len(ds) and len(ds) >= nsol, 'number of solutions', n=len(ls), m=len(ds), nsol=nsol)
    f = latc.DIST[dist]
    g1 = [imat(m) for m in Lattice(np.array(E1)).special_lattice_group().matrices()]
    seen = set()
    for l, x in zip(ls, ds):
        mon.ok(abs(O.det(l)) == 1, 'not a base of the same lattice', l=l)
        w = f(l, E1, E2)
        mon.ok(abs(x - w) < 1e-7 * (1 + w), 'distance of the returned base', got=x, want=w, l=l, E1=E1, E2=E2)
        mon.ok(latc.key(l) not in seen, 'two solutions are equivalent', l=l)
        seen |= latc.orbit(l, g1, latc.proper(G2))
        mon.count('solutions checked')
    mon.ok(all(a <= b + 1e-9 * (1 + b) for a, b in zip(ds, ds[1:])), 'not sorted', ds=ds)
    if len(ds) > nsol:
        mon.ok(all(x <= ds[nsol - 1] * (1 + 1e-9) + 1e-12 for x in ds[nsol:]), 'more solutions than asked for', ds=ds, nsol=nsol)
    best = ds[0]
    for i in range(d):
        for j in range(d):
            if i == j:
                continue
            for s in (1, -1):
                t = [[int(a == b) for b in range(d)] for a in range(d)]
                t[i][j] = s
                w = f(O.mul(ls[0], t), E1, E2)
                mon.ok(w >= best - 1e-9 * (1 + best), 'an elementary shear of the best solution is better', best=best, better=w, l=ls[0],
                       shear=(i, j, s), E1=E1, E2=E2, dist=dist)
                mon.count('shears tried')
    mon.count('runs')
    if d == 2 and dist == 'Cauchy':
        # exhaustive: no unimodular matrix (of the same handedness) is closer
        allc = O.all_correspondences(E1, E2, best * (1 + 1e-9) + 1e-9, dets=(1,), limit=2000000)
        if allc is not None:
            sgn = O.det(ls[0])
            m = min([x for x, L in allc if O.det(L) == sgn])
            mon.ok(best <= m + 1e-8 * (1 + m), 'a closer cell exists', best=best, exact=m, E1=E1, E2=E2)
            mon.count('2D optimum confirmed')


class Depth(logging.Handler):
    """reads the number of generations from the closing message"""

    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []

    def emit(self, record):
        m = re.search(r'by (\d+) iterations', record.getMessage())
        if m:
            self.seen.append(int(m.group(1)))


def depths(mon, rnd, lat_opt, a1, a2, kw, d):
    """the depth options bound the search, and a deeper search is never worse"""
    log = logging.getLogger('structrans')
    h, level = Depth(), log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        last, before = None, None
        for lo, hi in [(1, 1), (1, 2), (2, 2), (2, 4), (3, 3), (3, 5), (4, 4), (4, 6)][:8 if d == 2 else 5]:
            if rnd.random() < .2:
                continue
            del h.seen[:]
            res = lat_opt(a1, a2, miniter=lo, maxiter=hi, **kw)
            best = float(res['dopt'][0])
            for n in h.seen:
                mon.ok(lo <= n <= hi, 'depth of the search outside its bounds', depth=n, miniter=lo, maxiter=hi)
                mon.count('depths read')
            if before and before[0] <= lo:
                mon.ok(best <= last * (1 + 1e-9) + 1e-12, 'a deeper search is worse', last=last, best=best, bounds=(lo, hi), before=before)
            if lo == hi:            # the searches with which later ones share their path
                last, before = best, (lo, hi)
            mon.count('depths compared')
    finally:
        log.removeHandler(h)
        log.setLevel(level)


def through(mon, rnd):
    """the whole search hands the depth options to the search of each sublattice"""
    from structrans import lat_cor_hnf
    ia, pa, im, pm = latc.pair(rnd, 2, ratios=(2, 3, 4), spread=.1)
    log = logging.getLogger('structrans')
    h, level = Depth(), log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        last, before = None, None
        for lo, hi in [(0, 1), (1, 1), (1, 3), (2, 2), (4, 4), (4, 6)]:
            del h.seen[:]
            sols = lat_cor_hnf(ia, pa, im, pm, dim=2, disp=0, miniter=lo, maxiter=hi)
            for n in h.seen:
                mon.ok(n <= hi and n >= lo, 'depth of the search of a sublattice outside its bounds', depth=n, miniter=lo, maxiter=hi)
                mon.count('depths read')
            best = float(sols[0]['d'])
            if before and before[0] <= lo:
                mon.ok(best <= last * (1 + 1e-9) + 1e-12, 'a deeper search is worse', last=last, best=best, bounds=(lo, hi), before=before)
            if lo == hi:            # the searches with which later ones share their path
                last, before = best, (lo, hi)
            mon.count('depths compared')
    finally:
        log.removeHandler(h)
        log.setLevel(level)
