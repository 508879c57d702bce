"""Twinned-martensite / austenite interfaces: volume fractions and habit planes"""
import random
import numpy as np
from math import sqrt
from .. import oracles as O, gen as G
from ..util import mat, vec, dress_arr
from .c11 import unit
from .c14 import AXES, conj, middle, twofold

RULE = ('conventional twins (all crystal systems, transformation stretches of 0.5-25 %, with det near 1 and far from it, with middle eigenvalue 1, '
        'below and above 1), twins about arbitrary axes and twins without two-fold axis; det(U_f^T U_f - I) is followed over f in [0, 1] '
        'independently to decide whether and where an interface exists; every habit plane is put back into its equation; '
        'non-trivial when at least one type is compatible')
FLOORS = {'compatible': 150, 'incompatible': 150, 'habit planes checked': 600, 'refused': 50, 'single variant compatible': 50, 'weak transformations': 40}


def cases(tier, rnd):
    n = 60 if tier == 'quick' else 700
    for i in range(n):
        for k in G.KINDS:
            if k != 'cubic':
                yield {'src': 'cubicaxis', 'kind': k, 'i': i}
                if i % 3 == 0:
                    yield {'src': 'axis', 'kind': k, 'i': i}
        for k in ('orthorhombic', 'tetragonal', 'monoclinic', 'orthorhombic110', 'tetra_x'):
            yield {'src': 'middle', 'kind': k, 'i': i}
        for _ in range(3):
            yield {'src': 'rankone', 'i': i}


def Uf(U, a, n, f):
    return O.add(U, O.scal(f, O.outer(a, n)))


def cauchy(F):
    return O.mul(O.T(F), F)


def fraction(U, a, n, s):
    """('yes', f) / ('no', None) / ('skip', None); f in [1/2, 1]"""
    def g(f):
        return O.det(O.sub(cauchy(Uf(U, a, n, f)), O.eye(3)))
    g0, gh = g(0.), g(.5)
    scale = max(abs(g0), abs(gh))
    k = 4 * (g0 - gh)
    if scale < 1e-9:
        return 'skip', None
    if abs(k) < 1e-7 * max(scale, 1e-3) or abs(k) < 1e-9:      # the code takes alpha for zero below 1e-12
        return 'skip', None
    t = -gh / k
    if abs(t - .25) < 1e-8 and abs(k) > 1e-7 and abs(O.jacobi(cauchy(U))[0][1] - 1) < 1e-9:
        return 'single', 1.0                 # a variant alone is compatible
    if abs(t) < 1e-7 or abs(t - .25) < 1e-5:
        return 'skip', None
    if t < 0 or t > .25:
        return 'no', None
    f = .5 + sqrt(t)
    w, _ = O.jacobi(cauchy(Uf(U, a, n, f)))
    dev = abs(w[1] - 1)
    if dev < 1e-7:
        return 'yes', f
    if dev > min(1e-3, max(1e-4, .05 * s)):
        return 'no', None
    return 'skip', None


def run(case, mon):
    from structrans.marttrans.twin import TwinPair
    rnd = random.Random(case['s'])
    src = case['src']
    s = rnd.choice([.005, .01, .02, .04, .04, .08, .08, .15, .15, .25])
    edge = False
    if src == 'rankone':
        U = G.stretch(rnd, rnd.choice(['triclinic', 'monoclinic', 'orthorhombic']), s)
        while True:
            F = O.add(U, O.outer([rnd.choice([.05, .1, .3]) * x for x in unit(rnd)], unit(rnd)))
            if O.det(F) > .3 and abs(O.det(F) - O.det(U)) > 1e-3:
                break
        V = O.sqrtm(O.mul(O.T(F), F))
        V = [[(V[i][j] + V[j][i]) / 2 for j in range(3)] for i in range(3)]
    else:
        U = G.stretch(rnd, case['kind'], s)
        k = O.det(U) ** (-1. / 3)
        if rnd.random() < .6:                    # nearly volume preserving: interfaces exist
            k *= rnd.uniform(.99, 1.01)
            U = O.scal(k, U)
        if src == 'middle':
            # one of the variants is compatible by itself
            w, _ = O.jacobi(U)
            U = O.scal(1 / w[1], U)
            if rnd.random() < .4:                # nearly so: the fraction is close to 0 or 1 without being so
                U = O.scal(1 + rnd.choice([-1, 1]) * 10 ** rnd.uniform(-4.5, -2.5) * min(1, 10 * s), U)
            edge = True
        for _ in range(20):
            e = unit(rnd) if src == 'axis' else [x / O.norm(a) for a in [rnd.choice(AXES)] for x in a]
            V = conj(twofold(e), U)
            if O.maxdiff(U, V) > .05 * s:
                break
        else:
            mon.trivial = True
            return
    tp = TwinPair(dress_arr(rnd, U), dress_arr(rnd, V))
    tw = tp.twinparam()
    asks = rnd.random()
    if asks < .3:
        tp.iscompatible()
    fs = tp.volumefrac()
    mon.ok(len(fs) == 2, 'one volume fraction per twin solution', fs=fs)
    verdicts = []
    for f, (Q, a, n), name in zip(fs, tw, ('I', 'II')):
        a, n = vec(a), vec(n)
        st, want = fraction(U, a, n, s)
        if f is not None:
            f = float(f)
            mon.ok(0 <= f <= 1, 'volume fraction outside [0, 1]', f=f, U=U, V=V)
            w, _ = O.jacobi(cauchy(Uf(U, a, n, f)))
            mon.ok(abs(w[1] - 1) < max(2e-5, min(1e-4, 1e-3 * s)), 'no interface exists at the reported volume fraction', f=f, w=w, U=U, V=V)
        if st == 'yes':
            mon.ok(f is not None, 'type %s: an interface exists but none is reported' % name, f=want, U=U, V=V)
            mon.ok(min(abs(f - want), abs(1 - f - want)) < 1e-5, 'type %s: volume fraction' % name, got=f, want=want, U=U, V=V)
            mon.count('compatible')
        elif st == 'no':
            mon.ok(f is None, 'type %s: no interface exists but one is reported' % name, f=f, U=U, V=V)
            mon.count('incompatible')
        elif st == 'single':
            mon.ok(f is not None and min(f, 1 - f) < 1e-5, 'type %s: the single variants are compatible, f should be 0 or 1' % name,
                   f=f, U=U, V=V)
            mon.count('single variant compatible')
        mon.ok(bool(tp.iscompatible(name)) == (f is not None), 'iscompatible(%s) contradicts the volume fraction' % name, f=f)
        verdicts.append(f)
    anyc = any(f is not None for f in verdicts)
    mon.ok(bool(tp.iscompatible()) == anyc and bool(tp.iscompatible('C')) == anyc, 'iscompatible() contradicts the volume fractions', fs=fs)
    for bad in ('III', 'c', '', None):
        mon.raises(ValueError, tp.iscompatible, 'unknown twin type %r' % (bad,), bad)
        mon.raises(ValueError, tp.habitplanes, 'unknown twin type %r' % (bad,), bad)
    if not anyc:
        mon.raises(AttributeError, tp.habitplanes, 'habit planes of an incompatible twin')
        mon.count('refused')
        mon.trivial = True
        return
    Cs = []
    for f, (Q, a, n) in zip(verdicts, tw):
        if f is not None:
            for x in (f, 1 - f):
                Cs.append(cauchy(Uf(U, vec(a), vec(n), x)))
    hit = [0] * len(Cs)
    tol = min(1e-4, 1e-3 * s) if edge else min(1e-5, 1e-4 * s)
    if s < .03:
        mon.count('weak transformations')
    for R, b, m in tp.habitplanes():
        R, b, m = mat(R), vec(b), vec(m)
        mon.ok(abs(O.norm(m) - 1) < 1e-9, 'habit plane normal is not a unit vector', m=m)
        mon.ok(O.is_rotation(R, tol), 'R is not a rotation', R=R, U=U, V=V)
        F = O.add(O.eye(3), O.outer(b, m))
        C = cauchy(F)
        errs = [O.maxdiff(C, x) for x in Cs]
        mon.ok(min(errs) < tol, 'habit plane does not solve the interface equation', err=min(errs), b=b, m=m, U=U, V=V, fs=verdicts)
        for i, x in enumerate(errs):
            hit[i] += x < tol
        S = O.sqrtm(C)
        mon.ok(O.maxdiff(O.mul(R, S), F) < 10 * tol, 'R is not the rotation of the interface equation', R=R, b=b, m=m)
        mon.count('habit planes checked')
    mon.ok(all(h >= 2 for h in hit), 'interfaces are missing', hit=hit, fs=verdicts, U=U, V=V)
    for name, f in zip(('I', 'II'), verdicts):
        if f is None:
            continue
        # asked for by type: planes of this pair, among them all those of the type
        sel = [(vec(b), vec(m)) for _, b, m in tp.habitplanes(name)]
        a, n = [(vec(a), vec(n)) for k, (_, a, n) in zip(('I', 'II'), tw) if k == name][0]
        for x in (f, 1 - f):
            C0 = cauchy(Uf(U, a, n, x))
            k = sum(O.maxdiff(cauchy(O.add(O.eye(3), O.outer(b, m))), C0) < tol for b, m in sel)
            mon.ok(k >= 2, 'interfaces of type %s are missing' % name, got=k, f=x, U=U, V=V)
        for b, m in sel:
            C = cauchy(O.add(O.eye(3), O.outer(b, m)))
            mon.ok(min(O.maxdiff(C, x) for x in Cs) < tol, 'habit plane does not solve the interface equation', b=b, m=m, U=U, V=V)
