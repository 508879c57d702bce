"""Every lattice correspondence returned is consistent with itself and with the lattices"""
import random
from .. import oracles as O, gen as G, latc
from ..core import Skip

RULE = ('2D and 3D pairs of Bravais lattices of all types, volume ratios 0.3-4, both solvers, all distances, 1-6 solutions, a pair for which a singular integer matrix is closer than the last answer; distance, '
        'conventional correspondence, stretch, principal stretches, Hermite normal form, order, inequivalence and number of the returned '
        'solutions are recomputed independently from the integer matrix alone; non-trivial when more than one solution or sublattice is involved')
FLOORS = {'solutions checked': 150, 'hnf runs': 60, 'direct runs': 25, 'singular matrix among the closest': 1}
CASE_LIMIT = 300


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(1 if q else 6):
        yield {'dim': 2, 'solver': 'direct', 'nsol': 6, 'dist': 'Cauchy', 'flat': True, 'i': i}
    for i in range(70 if q else 900):
        yield {'dim': 2, 'solver': 'hnf', 'nsol': rnd.choice([1, 1, 2, 3, 6, 12]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'i': i}
    for i in range(30 if q else 400):
        yield {'dim': 2, 'solver': 'direct', 'nsol': rnd.choice([1, 2, 3, 5]), 'dist': 'Cauchy', 'i': i}
    for i in range(24 if q else 250):
        yield {'dim': 3, 'solver': 'hnf', 'nsol': rnd.choice([1, 1, 2, 3]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'i': i}
    for i in range(8 if q else 60):
        yield {'dim': 3, 'solver': 'direct', 'nsol': 1 if q else rnd.choice([1, 1, 2]), 'dist': 'Cauchy', 'i': i}


def run(case, mon):
    from structrans import lat_cor_hnf, lat_cor_direct, lat_cor
    rnd = random.Random(case['s'])
    d, nsol = case['dim'], case['nsol']
    direct = case['solver'] == 'direct'
    if case.get('flat'):
        ia, pa, im, pm = latc.flat(rnd)
    elif direct and d == 3:
        ia, pa, im, pm = latc.near(rnd)
    elif d == 3:
        ia, pa, im, pm = latc.realistic(rnd) if case['i'] % 3 == 0 else latc.pair(rnd, 3, ratios=(1, 1, 1, .6))
        if latc.volume(im, pm, 3) > 1.5 * latc.volume(ia, pa, 3):
            nsol = min(nsol, 2)
    else:
        ia, pa, im, pm = latc.pair(rnd, 2, ratios=(1, 1, 2, 3, .3, .7) if direct else (1, 2, 3, 4, .3, .7))
    lat = latc.lattices(ia, pa, im, pm, d)
    kw = {'dim': d, 'nsol': nsol, 'disp': 0}
    if not direct:
        kw['dist'] = case['dist']
        if rnd.random() < .3:
            kw['vol_th'] = rnd.choice([.05, .2, .3])
        if rnd.random() < .1 and d == 3:
            kw['maxiter'] = 2
    if case.get('flat'):
        kw['slice_sz'] = 300
    f = rnd.choice([lat_cor_direct, lat_cor]) if direct else lat_cor_hnf
    sols = f(ia, pa, im, pm, **kw)
    latc.check_solutions(mon, sols, lat, d, nsol, case['dist'], direct)
    if not direct:
        try:
            win = latc.window(lat[0], lat[1], kw.get('vol_th', .1))
        except Skip:
            win = None
        if win:
            for s in sols:
                L, h, l = latc.total(s)
                mon.ok(O.det(h) in win, 'sublattice index outside the volume window', det=O.det(h), window=win)
    if case.get('flat'):
        mon.count('singular matrix among the closest')
    mon.count('direct runs' if direct else 'hnf runs')
    mon.ok(len(sols) >= nsol, 'fewer solutions than asked for', got=len(sols), nsol=nsol)
    mon.trivial = len(sols) == 1 and not direct and d == 2
