"""Parallel and serial searches give the same correspondences, whatever the order and delay in which results arrive"""
import pickle
import random
import threading
import numpy as np
from .. import oracles as O, gen as G, latc

RULE = ('2D/3D searches over several sublattices, repeated with asynchronous back ends: results delivered in random, reversed, starved and '
        'last-ready-first order, from threads with random delays, with any pool size (including 1 and more than the number of sublattices) '
        'and with truncated searches that yield fewer solutions than asked for; every history of submissions and deliveries is recorded and checked: each task is submitted '
        'and consumed exactly once, never more than the pool size outstanding, and the merged solutions equal the serial ones; '
        'non-trivial when at least two sublattices compete')
FLOORS = {'parallel runs compared': 200, 'tasks delivered': 500, 'out-of-order deliveries': 150, 'process pool runs': 3}
CASE_LIMIT = 300


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(40 if q else 700):
        yield {'dim': 2, 'nsol': rnd.choice([1, 2, 3, 5, 9]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'shallow': i % 3 == 2, 'i': i}
    for i in range(5 if q else 60):
        yield {'dim': 3, 'nsol': rnd.choice([1, 2]), 'dist': ['Cauchy', 'strain', 'Ericksen'][i % 3], 'shallow': False, 'i': i}


class Async(object):
    """a result that becomes ready when the schedule says so"""

    def __init__(self, sched, ih, value):
        self.sched, self.ih, self.value = sched, ih, value
        self.got = 0

    def ready(self):
        return self.sched.ready(self)

    def get(self, timeout=None):
        self.got += 1
        self.sched.delivered(self)
        return self.value

    def wait(self, timeout=None):
        pass

    def successful(self):
        return True


class Schedule(object):
    """records the history and decides when each task is ready"""

    def __init__(self, rnd, mode, solve):
        self.rnd, self.mode, self.solve = rnd, mode, solve
        self.submitted, self.order, self.live = [], [], []
        self.peak = 0
        self.polls = 0

    def __call__(self, args):
        args = list(args)
        assert len(args) == 1
        ih = int(args[0][3])
        # across the process boundary, as with a pool
        value = pickle.loads(pickle.dumps(self.solve(pickle.loads(pickle.dumps(args[0])))))
        a = Async(self, ih, value)
        self.submitted.append(ih)
        self.live.append(a)
        self.peak = max(self.peak, len(self.live))
        return a

    def ready(self, a):
        self.polls += 1
        if self.mode == 'fifo':
            return a is self.live[0]
        if self.mode == 'lifo':
            return a is self.live[-1]
        if self.mode == 'starve':            # the first task is held back while another is outstanding
            return a is not self.live[0] or len(self.live) == 1
        if self.mode == 'best':              # the task with the best / worst solutions last
            key = min(self.live, key=lambda x: -x.value[1]['dopt'][0])
            return a is key
        if self.mode == 'worst':
            key = min(self.live, key=lambda x: x.value[1]['dopt'][0])
            return a is key
        return self.rnd.random() < .3

    def delivered(self, a):
        self.order.append(a.ih)
        if a in self.live:
            self.live.remove(a)


class Threaded(Schedule):
    """a real thread per task, with a random delay"""

    def __call__(self, args):
        args = list(args)
        a = Async(self, int(args[0][3]), None)
        self.submitted.append(a.ih)
        self.live.append(a)
        self.peak = max(self.peak, len(self.live))
        # a pool of threads hands over the very objects, nothing is copied
        opts = args[0][2]
        t = threading.Timer(self.rnd.uniform(0, .03), self.work, (a, (args[0][0], args[0][1], opts, args[0][3])))
        a.thread = t
        t.start()
        return a

    def work(self, a, args):
        try:
            a.value = self.solve(args)
        except BaseException as e:
            a.value = e

    def ready(self, a):
        self.polls += 1
        if a.value is None:
            a.thread.join(.002)
        if isinstance(a.value, BaseException):
            raise a.value
        return a.value is not None


def canon(sols):
    """groups of tied solutions: [(distance, set of correspondences)]"""
    out = []
    for s in sols:
        d = float(s['d'])
        L = latc.key(latc.total(s)[0])
        if out and abs(out[-1][0] - d) < 1e-9 * (1 + d):
            out[-1][1].add(L)
            out[-1][2].append(d)
        else:
            out.append((d, set([L]), [d]))
    return out


def run(case, mon):
    from structrans import lat_cor_hnf
    unpack = latc.module('lat_opt').lat_opt_unpack
    rnd = random.Random(case['s'])
    d, nsol = case['dim'], case['nsol']
    if d == 2:
        ia, pa, im, pm = latc.pair(rnd, 2, ratios=(1, 2, 3, 4, 5, 6))
    else:
        ia, pa, im, pm = latc.pair(rnd, 3, ia=rnd.choice([1, 3, 6, 7, 5]), ratios=(2,))
    kw = {'dim': d, 'nsol': nsol, 'disp': 0, 'dist': case['dist']}
    if case['shallow']:
        kw['maxiter'], kw['miniter'] = 1, 1
        kw['nsol'] = nsol = nsol * 3
    lat = latc.lattices(ia, pa, im, pm, d)
    GA, GM = latc.proper(lat[4]), latc.proper(lat[5])
    serial = lat_cor_hnf(ia, pa, im, pm, **kw)
    # numerically tied but inequivalent solutions may be cut anywhere in the tie: compare up to ties
    want = canon(serial)
    memo = {}

    def solve(args):
        """each sublattice is solved once by the real worker; later schedules reuse its answer"""
        k = int(args[3])
        if k not in memo:
            memo[k] = unpack(args)
        ih, res = memo[k]
        return ih, {'lopt': [np.array(l) for l in res['lopt']], 'dopt': list(res['dopt'])}
    modes = ['fifo', 'lifo', 'starve', 'best', 'worst', 'random', 'random', 'threads']
    ntask = None
    for mode in modes:
        size = rnd.choice([1, 2, 3, 4, 8, 50])
        if mode == 'threads':
            # the threads solve for real and concurrently
            if d == 3:
                continue
            sch = Threaded(rnd, mode, unpack)
        else:
            sch = Schedule(rnd, mode, solve)
        kp = dict(kw, lat_opt_par=sch, poolsize=size)
        if rnd.random() < .3 and mode != 'threads':
            kp.pop('poolsize')
            size = None
        par = lat_cor_hnf(ia, pa, im, pm, **kp)
        n = len(sch.submitted)
        ntask = n if ntask is None else ntask
        mon.ok(sorted(sch.submitted) == list(range(n)) and n == ntask, 'every sublattice is submitted exactly once', sub=sch.submitted, mode=mode)
        mon.ok(sorted(sch.order) == list(range(n)), 'every result is consumed exactly once', order=sch.order, mode=mode)
        mon.ok(size is None or sch.peak <= size, 'more tasks outstanding than the pool size', peak=sch.peak, size=size)
        mon.count('tasks delivered', n)
        mon.count('out-of-order deliveries', sum(1 for a, b in zip(sch.order, sch.order[1:]) if b < a))
        got = canon(par)
        mon.ok(len(got) == len(want) and all(abs(a[0] - b[0]) < 1e-9 * (1 + a[0]) for a, b in zip(got, want)),
               'other distances than the serial search', mode=mode, order=sch.order, serial=[w[2] for w in want], parallel=[g[2] for g in got])
        for k, (g, w) in enumerate(zip(got, want)):
            if k == len(want) - 1 and max(w[2]) != min(w[2]):
                # a numerical tie at the cut: any of the tied solutions may be kept
                continue
            mon.ok(g[1] == w[1], 'other correspondences than the serial search', mode=mode, order=sch.order, k=k,
                   serial=w[1], parallel=g[1])
        latc.check_solutions(mon, par, lat, d, nsol, case['dist'], False)
        mon.count('parallel runs compared')
    if case['i'] % 8 == 0 and d == 2:
        # a real pool of processes
        import multiprocessing
        pool = multiprocessing.get_context('fork').Pool(2)
        try:
            par = lat_cor_hnf(ia, pa, im, pm, lat_opt_par=lambda a: pool.apply_async(unpack, a), poolsize=2, **kw)
        finally:
            pool.terminate()
            pool.join()
        got = canon(par)
        mon.ok(len(got) == len(want) and all(abs(a[0] - b[0]) < 1e-9 * (1 + a[0]) for a, b in zip(got, want)),
               'other distances from a pool of processes', serial=[w[2] for w in want], parallel=[g[2] for g in got])
        mon.count('process pool runs')
    mon.trivial = ntask < 2
