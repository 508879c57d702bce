"""The printed report says what is returned"""
import io
import logging
import random
import os
import re
import shutil
import sys
import tempfile
from .. import oracles as O, gen as G, latc
from ..util import mat, vec, imat

RULE = ('2D and 3D searches with both solvers, all distances, 1-5 solutions, serial; the text printed (and logged) is parsed back and every '
        'number compared with the returned solution it belongs to; with display switched off nothing may be printed; '
        'non-trivial when there is more than one solution')
FLOORS = {'reports parsed': 35, 'solutions compared': 60, 'silent runs': 35, 'log reports': 25, 'log files': 6}
CASE_LIMIT = 300
NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def cases(tier, rnd):
    q = tier == 'quick'
    for i in range(36 if q else 500):
        yield {'dim': 2, 'solver': 'hnf' if i % 2 else 'direct', 'nsol': rnd.choice([1, 2, 3, 5]),
               'dist': rnd.choice(['Cauchy', 'strain', 'Ericksen']), 'i': i}
    for i in range(8 if q else 80):
        yield {'dim': 3, 'solver': 'hnf' if i % 4 else 'direct', 'nsol': rnd.choice([1, 2]) if i % 4 else 1,
               'dist': rnd.choice(['Cauchy', 'strain', 'Ericksen']), 'i': i}


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def nums(s):
    return [float(x) for x in re.findall(NUM, s)]


def rnd_ok(shown, x, digits):
    return abs(shown - x) <= .5 * 10 ** -digits * 1.0001 + 1e-12


def g_ok(shown, x):
    return abs(shown - x) <= 1e-5 * abs(x) + 1e-9      # six significant digits


def captured(f, *a, **k):
    keep = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        r = f(*a, **k)
    finally:
        sys.stdout = keep
    return r, buf.getvalue()


def parse(mon, text, sols, nsol, d, hnf, dist, where):
    parts = re.split(r'Solution\s+(\d+)\s+out of\s+(\d+)\s*:', text)
    mon.ok((len(parts) - 1) // 3 == len(sols), where + ': not one entry per solution', entries=(len(parts) - 1) // 3, sols=len(sols))
    for k, s in enumerate(sols):
        num, out, body = int(parts[3 * k + 1]), int(parts[3 * k + 2]), parts[3 * k + 3]
        mon.ok(num == k + 1 and out == nsol, where + ': numbering', num=num, out=out, k=k, nsol=nsol)
        cor, U, lam = mat(s['cor']), mat(s['u']), vec(s['lams'])
        rows = re.findall(r'\[([^\]]*)\]\s*==>\s*\[([^\]]*)\]', body)
        mon.ok(len(rows) == d, where + ': one line per axis of the product cell', rows=rows)
        for j, (l, r) in enumerate(rows):
            mon.ok(nums(r) == [float(i == j) for i in range(d)], where + ': axis of the product cell', row=r, j=j)
            a = nums(l)
            mon.ok(len(a) == d and all(rnd_ok(a[i], cor[i][j], 2) for i in range(d)), where + ': correspondence shown is not the one returned',
                   shown=a, returned=[cor[i][j] for i in range(d)], k=k)
        m = re.search(r'U\s*=((?:\s*\[[^\]]*\]){%d})' % d, body)
        mon.ok(m is not None, where + ': no stretch matrix', body=body)
        a = [nums(r) for r in re.findall(r'\[([^\]]*)\]', m.group(1))]
        mon.ok(all(len(a[i]) == d and all(rnd_ok(a[i][j], U[i][j], 6) for j in range(d)) for i in range(d)),
               where + ': stretch shown is not the one returned', shown=a, returned=U, k=k)
        if hnf:
            m = re.search(r'H\s*=((?:\s*\[[^\]]*\]){%d})' % d, body)
            mon.ok(m is not None, where + ': no Hermite normal form', body=body)
            a = [nums(r) for r in re.findall(r'\[([^\]]*)\]', m.group(1))]
            mon.ok(a == [[float(x) for x in r] for r in imat(s['h'])], where + ': Hermite normal form shown is not the one returned', shown=a, returned=s['h'])
        lams = re.findall(r'lambda_(\d+)\s*=\s*(%s)' % NUM, body)
        mon.ok([int(i) for i, _ in lams] == list(range(1, d + 1)) and all(g_ok(float(x), y) for (_, x), y in zip(lams, lam)),
               where + ': principal stretches shown are not those returned', shown=lams, returned=lam)
        m = re.search(r'dist\s*=\s*(%s)' % NUM, body)
        mon.ok(m is not None and g_ok(float(m.group(1)), float(s['d'])), where + ': distance shown is not the one returned',
               shown=m and m.group(1), returned=float(s['d']))
        names = [n for n in ('Ericksen', 'strain', 'Cauchy') if '(' + n in body]
        mon.ok(names == [dist if hnf else 'Cauchy'], where + ': name of the distance', names=names, dist=dist)
        mon.count('solutions compared')
    mon.count('reports parsed' if where == 'printed' else 'log reports')


def named(f, args, kw, nsol, d, dist, mon):
    """the report in a named log file"""
    root = logging.getLogger()
    old, level = root.handlers[:], root.level
    for h in old:
        root.removeHandler(h)
    where = tempfile.mkdtemp(prefix='vmon-c29-')
    try:
        name = os.path.join(where, 'latcor.log')
        sols, text = captured(f, *args, disp=0, logfile=name, **kw)
        mon.ok(text == '', 'something is printed although display is off', text=text[:300])
        for h in root.handlers:
            h.flush()
        mon.ok(os.path.isfile(name), 'the named log file is not written')
        with open(name) as fl:
            text = fl.read()
        parse(mon, text, sols, nsol, d, False, dist, 'log file')
        mon.count('log files')
    finally:
        for h in root.handlers[:]:
            root.removeHandler(h)
            h.close()
        for h in old:
            root.addHandler(h)
        root.setLevel(level)
        shutil.rmtree(where, ignore_errors=True)


def run(case, mon):
    from structrans import lat_cor_hnf, lat_cor_direct, BravaisLattice
    rnd = random.Random(case['s'])
    d, nsol = case['dim'], case['nsol']
    hnf = case['solver'] == 'hnf'
    if d == 3 and not hnf:
        ia, pa, im, pm = latc.near(rnd)
    elif d == 3:
        ia, pa, im, pm = latc.realistic(rnd)
    else:
        ia, pa, im, pm = latc.pair(rnd, 2, ratios=(1, 1, 2))
    f = lat_cor_hnf if hnf else lat_cor_direct
    kw = {'dim': d, 'nsol': nsol}
    if hnf or case['i'] % 4 == 0:
        kw['dist'] = case['dist']       # the exhaustive search only knows the Cauchy distance, and says so
    log = logging.getLogger('structrans')
    keep = Keep()
    old = log.level
    log.addHandler(keep)
    log.setLevel(logging.INFO)
    try:
        disp = rnd.choice([None, 1, 1, 2, 3])
        shown = {} if disp is None else {'disp': disp}      # display is on by default
        sols, text = captured(f, ia, pa, im, pm, **dict(kw, **shown))
        logged = '\n'.join(keep.lines)
        del keep.lines[:]
        other, silent = captured(f, ia, pa, im, pm, disp=0, **kw)
    finally:
        log.removeHandler(keep)
        log.setLevel(old)
    mon.ok(silent == '', 'something is printed although display is off', text=silent[:300])
    mon.count('silent runs')
    parse(mon, text, sols, nsol, d, hnf, case['dist'], 'printed')
    if logged:
        parse(mon, logged, sols, nsol, d, hnf, case['dist'], 'logged')
    if '\n'.join(keep.lines):
        parse(mon, '\n'.join(keep.lines), other, nsol, d, hnf, case['dist'], 'logged')
    if d == 2 and not hnf and case['i'] % 4 < 2:
        named(f, (ia, pa, im, pm), kw, nsol, d, case['dist'], mon)
    for i, p in ((ia, pa), (im, pm)):
        mon.ok(str(BravaisLattice(i, p, dim=d)) in text, 'the input lattice is not in the report', lattice=str(BravaisLattice(i, p, dim=d)))
    mon.trivial = len(sols) < 2
