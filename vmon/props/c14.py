"""Twin parameters solve the twinning equation"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, vec, dress_arr
from .c11 import unit

RULE = ('pairs of variants of every crystal system under cubic, hexagonal and lower parents, pairs related by a two-fold rotation '
        'about an arbitrary axis, and rank-one related stretches without such an axis, over strains from 0.5% to 60%; each returned (Q, a, n) is put '
        'back into Q U_j = U_i + a n with Q a rotation; the two solutions must differ; pairs that are far from compatible must '
        'be refused; non-trivial when the pair is twinned')
FLOORS = {'twin solutions checked': 800, 'rejections observed': 100, 'pairs without two-fold axis': 60}


def cases(tier, rnd):
    n = 10 if tier == 'quick' else 250
    for i in range(n):
        for k in G.KINDS:
            if k != 'cubic':
                yield {'src': 'system', 'kind': k, 'laue': 0, 'i': i}
                yield {'src': 'axis', 'kind': k, 'i': i}
                yield {'src': 'cubicaxis', 'kind': k, 'i': i}
        for k in ('triclinic', 'orthorhombic', 'monoclinic', 'mono_x'):
            yield {'src': 'system', 'kind': k, 'laue': 4, 'i': i}
            yield {'src': 'system', 'kind': k, 'laue': 6, 'i': i}
        for _ in range(10):
            yield {'src': 'rankone', 'i': i}
        for _ in range(5):
            yield {'src': 'far', 'i': i}
        yield {'src': 'bad', 'i': i}


def twofold(e):
    return [[2 * e[i] * e[j] - (i == j) for j in range(3)] for i in range(3)]


def sym(A):
    return [[(A[i][j] + A[j][i]) / 2 for j in range(3)] for i in range(3)]


def conj(R, U):
    return sym(O.mul(O.mul(R, U), O.T(R)))


AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 0], [1, 0, 1], [1, 0, -1], [0, 1, 1], [0, 1, -1]]


def middle(Ui, Uj):
    F = O.mul(Uj, O.inv(Ui))
    return O.jacobi(O.mul(O.T(F), F))[0]


def check_twin(mon, tp, Ui, Uj, tol=1e-6):
    tol = min(tol, 1e-5 * O.maxdiff(Ui, Uj))
    sols = tp.twinparam()
    mon.ok(sols is not None and len(sols) == 2, 'two twin solutions expected', Ui=Ui, Uj=Uj, sols=sols)
    out = []
    for Q, a, n in sols:
        Q, a, n = mat(Q), vec(a), vec(n)
        mon.ok(abs(O.norm(n) - 1) < 1e-7, 'the twin plane normal is not a unit vector', n=n)
        mon.ok(O.norm(a) > 1e-7, 'no shear', a=a, Ui=Ui, Uj=Uj)
        mon.ok(O.is_rotation(Q, tol), 'Q is not a rotation', Q=Q, Ui=Ui, Uj=Uj)
        err = O.maxdiff(O.mul(Q, Uj), O.add(Ui, O.outer(a, n)))
        mon.ok(err < tol, 'Q Uj - Ui is not a n', err=err, Q=Q, a=a, n=n, Ui=Ui, Uj=Uj)
        out.append((Q, a, n))
        mon.count('twin solutions checked')
    mon.ok(O.maxdiff(O.outer(out[0][1], out[0][2]), O.outer(out[1][1], out[1][2])) > 1e-5 * O.norm(out[0][1]),
           'the two solutions are the same', Ui=Ui, Uj=Uj)
    again = tp.twinparam()
    for (Q, a, n), (P, b, m) in zip(out, again):
        mon.ok(O.maxdiff(Q, mat(P)) == 0 and O.maxdiff([a, n], [vec(b), vec(m)]) == 0, 'asking again gives another solution')
    return out


def run(case, mon):
    from structrans import Martensite, TwinSystem
    from structrans.marttrans.twin import TwinPair
    rnd = random.Random(case['s'])
    src = case['src']
    if src == 'system':
        U = G.stretch(rnd, case['kind'], rnd.choice([.003, .01, .04, .1, .2, .4]))
        M = Martensite().setU(dress_arr(rnd, U))
        if case['laue']:
            M = M.setLaue(case['laue'])
        if not M.isreversible():
            mon.trivial = True
            return
        how = rnd.randrange(3)
        V = [mat(v) for v in M.getvariants()]
        ts = TwinSystem(M) if how < 2 else TwinSystem(M.getvariants(), M.getLaue())
        pairs = ts.getTwinpairs()
        table = [tuple(int(x) for x in r) for r in ts.TwinTable()]
        rnd_pairs = list(zip(table, pairs))
        rnd.shuffle(rnd_pairs)
        done = 0
        for (i, j), tp in rnd_pairs:
            if done >= 12:
                break
            w = middle(V[i], V[j])
            if abs(w[1] - 1) > 1e-9 or O.maxdiff(V[i], V[j]) < 3e-4:
                continue            # nearly compatible pairs are listed too, but solve the equation only approximately
            check_twin(mon, tp, V[i], V[j])
            done += 1
        mon.trivial = done == 0
        return
    if src in ('axis', 'cubicaxis'):
        U = G.stretch(rnd, case['kind'], rnd.choice([.003, .01, .04, .1, .2, .4]))
        if rnd.random() < .3:
            R = G.rotation3(rnd)
            U = conj(R, U)
        for _ in range(20):
            e = unit(rnd) if src == 'axis' else [x / O.norm(a) for a in [rnd.choice(AXES)] for x in a]
            V = conj(twofold(e), U)
            if O.maxdiff(U, V) > 3e-4:
                break
        else:
            mon.trivial = True
            return
        tp = TwinPair(dress_arr(rnd, U), dress_arr(rnd, V))
        mon.ok(bool(tp.istwinnable()), 'stretches related by a two-fold rotation are twins', U=U, V=V)
        check_twin(mon, tp, U, V)
        return
    if src == 'rankone':
        U = G.stretch(rnd, rnd.choice(['triclinic', 'monoclinic', 'monoclinic110', 'orthorhombic']), rnd.choice([.04, .1, .2]))
        while True:
            F = O.add(U, O.outer([rnd.choice([.05, .1, .3]) * x for x in unit(rnd)], unit(rnd)))
            if O.det(F) > .3 and abs(O.det(F) - O.det(U)) > 1e-3:
                break
        V = sym(O.sqrtm(O.mul(O.T(F), F)))
        tp = TwinPair(dress_arr(rnd, U), dress_arr(rnd, V))
        mon.ok(bool(tp.istwinnable()), 'rank-one related stretches are twins', U=U, V=V)
        check_twin(mon, tp, U, V)
        mon.count('pairs without two-fold axis')
        return
    if src == 'far':
        while True:
            U, V = [G.stretch(rnd, rnd.choice(G.KINDS[:-3]), .3) for _ in range(2)]
            V = conj(G.rotation3(rnd), V)
            if abs(middle(U, V)[1] - 1) > 2e-2:
                break
        tp = TwinPair(dress_arr(rnd, U), dress_arr(rnd, V))
        mon.ok(not tp.istwinnable(), 'incompatible stretches are twins', U=U, V=V)
        for f in (tp.twinparam, tp.ax, tp.volumefrac, tp.iscompatible, tp.habitplanes, tp.direct_cof):
            mon.raises(AttributeError, f, 'twin query on a pair that is not a twin')
        mon.trivial = True
        return
    from .c13 import bad_stretches
    good = np.array(G.stretch(rnd, 'triclinic'))
    for what, args in bad_stretches(rnd):
        if args and np.ndim(args[0]) == 2:
            try:
                bad = np.array(args[0], dtype=float)
            except (TypeError, ValueError):
                continue                        # complex numbers and text are left to C13
            if np.iscomplexobj(np.array(args[0])) or not np.isfinite(bad).all():
                continue
            x = (good, bad) if rnd.random() < .5 else (bad, good)
            mon.raises(ValueError, TwinPair, 'twin pair with a stretch that is ' + what, *x)
    U = good.copy()
    tp = TwinPair(U, U.copy())
    mon.ok(not tp.istwinnable(), 'a stretch is a twin of itself')
    mon.raises(AttributeError, tp.twinparam, 'twin parameters of a stretch with itself')
    mon.trivial = True
