"""The search over sublattices covers every admissible sublattice exactly once up to symmetry"""
import random
from .. import oracles as O, gen as G, latc
from ..core import Skip
from ..util import mat

RULE = ('2D/3D pairs of all Bravais types, volume ratios 0.2-40, thresholds 0-60%, serial and parallel symmetry reduction (with '
        'and without the work being split); the sublattices handed to the optimizer are recorded at the solver boundary and '
        'compared with an independent enumeration of the orbits of all sublattices in the volume window; non-trivial when at least two orbits exist')
FLOORS = {'sublattices recorded': 1500, 'searches': 150, 'parallel reductions': 30, 'split reductions': 4}
CASE_LIMIT = 300


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(110 if q else 1500):
        yield {'dim': 2, 'i': i}
    for i in range(60 if q else 600):
        yield {'dim': 3, 'i': i}
    for i in range(6 if q else 60):
        yield {'dim': 3 if i % 2 else 2, 'big': True, 'i': i}


class Stop(Exception):
    pass


class Done(object):
    def __init__(self, v):
        self.v = v

    def ready(self):
        return True

    def get(self, timeout=None):
        return self.v


def run(case, mon):
    import numpy as np
    from structrans import lat_cor_hnf
    mh = latc.module('main_hnf')
    rnd = random.Random(case['s'])
    d = case['dim']
    big = case.get('big')
    if d == 2:
        ratios = (90, 120) if big else (1, 2, 3, 4, 6, 8, 9, 12, 16, .2, .45, .7)
    else:
        ratios = (12, 16) if big else (1, 2, 3, 4, 5, 6, 8, .2, .45, .7)
    ia, pa, im, pm = latc.pair(rnd, d, ratios=ratios, spread=.3)
    EA, EM, CA, CM, GA, GM = latc.lattices(ia, pa, im, pm, d)
    vt = rnd.choice([None, .1, .01, .25, .6, 0.0] if not big else [None, .05])
    win = latc.window(EA, EM, .1 if vt is None else vt)
    if sum(O.hnf_count(n, d) for n in win) > 3000:
        raise Skip('too many sublattices')
    GA = latc.proper(GA)
    cls, n = latc.hnf_orbits(win, GA, d)
    seen = []
    EAi = O.inv(EA)

    def record(args):
        args = list(args)
        for E, E2, opt, ih in args:
            H = O.mul(EAi, mat(E))
            seen.append((H, mat(E2), int(ih)))
        res = {'lopt': [np.eye(d, dtype=int)], 'dopt': [float(ih)]}
        return Done((args[0][3], res))
    kw = {'dim': d, 'disp': 0, 'lat_opt_par': record, 'nsol': rnd.choice([1, 3])}
    if vt is not None:
        kw['vol_th'] = vt
    split = []
    par = big or rnd.random() < .4
    if par:
        def reduce_par(work):
            work = list(work)
            split.extend(work)
            out = [mh.reduce_hnfs(w) for w in work]
            if rnd.random() < .5:
                out.reverse()                       # chunks may be merged in any order
            return out
        kw['reduce_hnfs_par'] = reduce_par
    lat_cor_hnf(ia, pa, im, pm, **kw)
    mon.count('searches')
    mon.count('parallel reductions', par)
    mon.count('split reductions', bool(split))
    hit = {}
    for H, E2, ih in seen:
        K = [[int(round(x)) for x in r] for r in H]
        mon.ok(O.maxdiff(H, K) < 1e-6, 'the optimizer is given a cell that is not a sublattice of the parent', H=H)
        X = O.mul(O.inv(EM), E2)
        Y = [[int(round(x)) for x in r] for r in X]
        mon.ok(O.maxdiff(X, Y) < 1e-6 and abs(O.det(Y)) == 1, 'the optimizer is given another product lattice', E2=E2, EM=EM)
        det = abs(O.det(K))
        mon.ok(det in win, 'sublattice index outside the volume window', det=det, window=win, r=abs(O.det(EM)) / abs(O.det(EA)), vol_th=vt)
        c = cls[latc.key(O.hnf(K))]
        mon.ok(c not in hit, 'two symmetry-related sublattices are searched', first=hit.get(c), second=K, ia=ia, pa=pa, im=im)
        hit[c] = K
        mon.count('sublattices recorded')
    mon.ok(len(hit) == n, 'sublattices are missing', searched=len(hit), want=n, window=win, vol_th=vt, ia=ia, pa=pa, im=im, pm=pm)
    mon.ok(sorted(x[2] for x in seen) == list(range(len(seen))), 'sublattice numbers', numbers=[x[2] for x in seen])
    mon.trivial = n < 2
