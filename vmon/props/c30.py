"""C30: display and logging options never change results, and reports go where and as often as asked"""
import io
import os
import logging
import random
import shutil
import sys
import tempfile
from .. import latc
from ..util import mat, imat

DESC = ('each search is run repeatedly with the same random state and with every display level, logger level and log file setting; '
        'results must agree exactly, the lines printed at a level must be a subsequence of those at the next, nothing may be printed at level '
        '0, the records logged must not depend on the display level, and each log file must get every message of its own calls once; '
        'non-trivial when something was printed at some level')
FLOORS = {'runs compared': 150, 'levels nested': 80, 'log files': 20, 'record sequences compared': 60}
CASE_LIMIT = 400


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(24 if q else 300):
        yield {'kind': 'opt', 'dim': 3 if i % 4 == 3 else 2, 'dist': rnd.choice(['Cauchy', 'strain', 'Ericksen']), 'nsol': rnd.choice([1, 2, 4]) if i % 4 != 3 else 1}
    for i in range(16 if q else 250):
        yield {'kind': 'hnf', 'dim': 2 if i % 8 else 3, 'dist': rnd.choice(['Cauchy', 'strain', 'Ericksen']), 'nsol': rnd.choice([1, 2, 3]) if i % 8 else 1}
    for i in range(12 if q else 200):
        yield {'kind': 'direct', 'dim': 2 if i % 8 else 3, 'dist': None, 'nsol': rnd.choice([1, 2, 3]) if i % 8 else 1}


class Keep(logging.Handler):
    def __init__(self, into):
        logging.Handler.__init__(self)
        self.into = into

    def emit(self, record):
        self.into.append(record.getMessage())


def timeless(lines):
    """leave out the lines which tell times"""
    return [x for x in lines if ' sec' not in x and 'time: ' not in x]


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def value(r, kind):
    """what a search returned, exactly"""
    if kind == 'opt':
        return [[float(x) for x in r['dopt']], [imat(x) for x in r['lopt']]]
    return [[float(s['d']), imat(s['l'], 'l', 1e-9), mat(s['cor']), mat(s['u']), [float(x) for x in s['lams']],
             imat(s['h'], 'h', 1e-9) if 'h' in s else None] for s in r]


def run(case, mon):
    import numpy as np
    from structrans import lat_cor_hnf, lat_cor_direct
    rnd = random.Random(case['s'])
    d, kind = case['dim'], case['kind']
    kw = {'nsol': case['nsol']}
    if case['dist']:
        kw['dist'] = case['dist']
    if kind == 'opt':
        from structrans import BravaisLattice
        ia, pa, im, pm = latc.pair(rnd, d, ratios=(1,), spread=.1)
        E1, E2 = BravaisLattice(ia, pa, dim=d).base(), BravaisLattice(im, pm, dim=d).base()
        f, args = latc.module('lat_opt').lat_opt, (E1, E2)
        if rnd.random() < .5:
            kw['ihnf'] = rnd.randint(0, 20)
    else:
        if d == 2:
            args = latc.pair(rnd, 2, ratios=(1, 1, 2))
        else:
            args = latc.near(rnd) if kind == 'direct' else latc.realistic(rnd)
        f = lat_cor_hnf if kind == 'hnf' else lat_cor_direct
        kw['dim'] = d

    def call(level=logging.WARNING, **extra):
        """value, printed lines and logged records of one run; the records are those of the logger hierarchy of the package"""
        lines = []
        log = logging.getLogger('structrans')
        h, old = Keep(lines), log.level
        log.addHandler(h)
        log.setLevel(level)
        keep, sys.stdout = sys.stdout, io.StringIO()
        np.random.seed(case['s'] % 2 ** 32)
        try:
            r = f(*args, **dict(kw, **extra))
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = keep
            log.removeHandler(h)
            log.setLevel(old)
        return value(r, kind), text.split('\n'), lines

    ref, text, lines = call(disp=0)
    mon.ok(text == [''], 'something is printed although display is off', text=text[:5])

    last, printed = [], False
    records = {}
    for disp in range(5) if d == 2 else (1, 2, 4):
        level = rnd.choice([logging.DEBUG, logging.INFO])
        r, text, lines = call(level, disp=disp)
        mon.ok(r == ref, 'the result depends on the display level or the logger level', disp=disp, level=level, result=r, reference=ref)
        mon.count('runs compared')
        mon.ok(disp > 0 or text == [''], 'something is printed although display is off', text=text[:5])
        printed = printed or text != ['']
        now = timeless(text)
        mon.ok(subseq(last, now), 'a higher display level leaves out lines of a lower one', disp=disp,
               missing=[x for x in last if x not in now][:5])
        mon.count('levels nested')
        last = now
        lines = timeless(lines)
        mon.ok(level not in records or records[level] == lines, 'the records logged depend on the display level', disp=disp, level=level)
        mon.count('record sequences compared', level in records)
        records[level] = lines
    if len(records) == 2:
        mon.ok(subseq(records[logging.INFO], records[logging.DEBUG]), 'records are missing at the more detailed logger level')
    for level in (logging.ERROR, logging.DEBUG)[:5 - d - (d > 2)]:
        r, text, lines = call(level)
        mon.ok(r == ref, 'the result depends on the logger level', level=level, result=r, reference=ref)
        mon.ok(level < logging.ERROR or lines == [], 'informal messages are logged as errors', lines=lines[:3])
        mon.count('runs compared')
    mon.trivial = not printed
    if kind == 'opt':
        files(case, mon, call, ref, records, rnd)
    elif kind == 'direct' and d == 2:
        named(mon, call, ref)


def isolated(g):
    """g(directory) with a clean root logger"""
    root = logging.getLogger()
    old, level = root.handlers[:], root.level
    for h in old:
        root.removeHandler(h)
    where = tempfile.mkdtemp(prefix='vmon-c30-')
    keep, sys.stderr = sys.stderr, io.StringIO()
    try:
        g(where)
    finally:
        sys.stderr = keep
        for h in root.handlers[:]:
            root.removeHandler(h)
            h.close()
        for h in old:
            root.addHandler(h)
        root.setLevel(level)
        shutil.rmtree(where, ignore_errors=True)


def read(name):
    with open(name) as fl:
        return [x.strip() for x in fl.read().split('\n') if x.strip()]


def files(case, mon, call, ref, records, rnd):
    """log files of the sublattice optimizer: the messages of each call go once to the file named in that call"""
    def g(where):
        names = [os.path.join(where, n) for n in ('a.log', 'b.log')]
        _, _, want = call(logging.INFO, disp=0)
        want = [x.strip() for x in want]
        count = {n: 0 for n in names}
        for k in range(rnd.randint(3, 6) if case['dim'] == 2 else 2):
            n = rnd.choice(names + [None])
            if n:
                r, text, _ = call(logging.INFO, disp=0, logfile=n)
                count[n] += 1
            else:
                r, text, lines = call(logging.INFO, disp=0)
                mon.ok(timeless(lines) == timeless(want) and len(lines) == len(want),
                       'messages get lost after a call with a log file', lines=lines, want=want)
            mon.ok(r == ref, 'the result depends on the log file', result=r, reference=ref)
            mon.count('runs compared')
            mon.ok(text == [''], 'something is printed although display is off', text=text[:5])
            for m in names:
                got = read(m) if os.path.isfile(m) else []
                mon.ok(len(got) == count[m] * len(want), 'log file does not hold the messages of its calls once each',
                       messages=len(got), calls=count[m], each=len(want))
                mon.ok(timeless(got) == timeless(want) * count[m], 'log file holds other messages', got=got[:5], want=want[:5])
                mon.count('log files', m == n)
    isolated(g)


def named(mon, call, ref):
    """a log file of the exhaustive search holds the records of that search, in order"""
    def g(where):
        n = os.path.join(where, 'x.log')
        r, text, lines = call(logging.INFO, disp=0, logfile=n, loglevel=logging.INFO)
        for h in logging.getLogger().handlers:
            h.flush()
        mon.ok(r == ref, 'the result depends on the log file', result=r, reference=ref)
        mon.count('runs compared')
        mon.ok(text == [''], 'something is printed although display is off', text=text[:5])
        with open(n) as fl:
            got = fl.read()
        mon.ok(got == ''.join(x + '\n' for x in lines), 'log file does not hold the records', got=got[:300], lines=lines[:5])
        mon.count('log files')
    isolated(g)
