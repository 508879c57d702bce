"""Twin classification: which pairs are twins, their two-fold axes, compound / type I-II, conventional"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, vec, mats, dress_arr
from .c11 import unit
from .c14 import AXES, conj, middle, twofold

RULE = ('twin systems of every crystal system under cubic, hexagonal, tetragonal and orthorhombic parents and single pairs about arbitrary axes; the '
        'table of twins is compared with the middle eigenvalue of every pair (pairs within the tolerance band are left out), axes '
        'with the two-fold rotations relating the two eigenframes, compound / type I lists and conventional lists with those axes '
        'and with the two-fold rotations of the parent group; cofactor parameters are recomputed; non-trivial when twins exist')
FLOORS = {'pairs classified': 2000, 'axes compared': 800, 'compound twins': 100, 'type I/II twins': 100, 'conventional': 300,
          'not conventional': 30}


def cases(tier, rnd):
    n = 12 if tier == 'quick' else 250
    for i in range(n):
        for k in G.KINDS:
            if k != 'cubic':
                yield {'src': 'system', 'kind': k, 'laue': 0, 'i': i}
                yield {'src': 'axis', 'kind': k, 'i': i}
                yield {'src': 'cubicaxis', 'kind': k, 'i': i}
        for k in ('triclinic', 'orthorhombic', 'monoclinic', 'mono_x'):
            for laue in (4, 6, 8):
                yield {'src': 'system', 'kind': k, 'laue': laue, 'i': i}


def axes(Ui, Uj):
    """all unit vectors e (up to sign) whose two-fold rotation maps Ui to Uj; None when the eigenvalues are too close to decide"""
    w, u = O.jacobi(Ui)
    x, v = O.jacobi(Uj)
    if max(abs(a - b) for a, b in zip(w, x)) > 1e-8:
        return []
    gaps = [w[1] - w[0], w[2] - w[1]]
    cand = []
    if min(gaps) > 1e-4:
        for s in O.product((1, -1), repeat=3):
            R = [[sum(s[k] * v[k][i] * u[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
            if O.det(R) > 0:
                cand.append(R)
    elif max(gaps) > 1e-4 and min(gaps) < 1e-10:
        k = 2 if gaps[0] < 1e-10 else 0
        t, p = u[k], v[k]
        for s in (1, -1):
            e = [a + s * b for a, b in zip(t, p)]
            if O.norm(e) > 1e-6:
                cand.append(twofold([a / O.norm(e) for a in e]))
    else:
        return None
    out = []
    for R in cand:
        tr = R[0][0] + R[1][1] + R[2][2]
        asym = O.maxdiff(R, O.T(R))
        if abs(tr + 1) < 1e-9 and asym < 1e-9:
            P = [[(R[i][j] + (i == j)) / 2 for j in range(3)] for i in range(3)]      # e e^T
            k = max(range(3), key=lambda i: P[i][i])
            e = [P[i][k] for i in range(3)]
            out.append([a / O.norm(e) for a in e])
        elif abs(tr + 1) < 1e-3:
            return None
    return out


def same_axis(a, b, tol=1e-6):
    return min(max(abs(x - y) for x, y in zip(a, b)), max(abs(x + y) for x, y in zip(a, b))) < tol


def cof3(A):
    return [[A[(i + 1) % 3][(j + 1) % 3] * A[(i + 2) % 3][(j + 2) % 3] - A[(i + 1) % 3][(j + 2) % 3] * A[(i + 2) % 3][(j + 1) % 3]
             for j in range(3)] for i in range(3)]


def check_pair(mon, tp, Ui, Uj, group, rnd):
    """returns (compound or None, conventional)"""
    mon.ok(bool(tp.istwinnable()), 'not recognized as a twin', Ui=Ui, Uj=Uj)
    want = axes(Ui, Uj)
    conv = any(O.maxdiff(conj(q, Ui), Uj) < 1e-9 for q in group if abs(q[0][0] + q[1][1] + q[2][2] + 1) < 1e-9)
    near = min([O.maxdiff(conj(q, Ui), Uj) for q in group if abs(q[0][0] + q[1][1] + q[2][2] + 1) < 1e-9] or [9])
    if conv or near > 1e-4:
        from structrans.crystallography import MatrixGroup
        mon.ok(bool(tp.isconventional(MatrixGroup(np.array(group)))) == conv, 'conventional', want=conv, Ui=Ui, Uj=Uj)
        mon.count('conventional' if conv else 'not conventional')
    if want is None:
        return None, conv
    got = [vec(a) for a in tp.ax()]
    if not want:
        mon.ok(not got, 'a two-fold axis is reported where there is none', Ui=Ui, Uj=Uj, got=got)
        return None, conv
    mon.ok(len(got) == len(want), 'number of two-fold axes', Ui=Ui, Uj=Uj, got=got, want=want)
    for a in got:
        mon.ok(abs(O.norm(a) - 1) < 1e-9 and any(same_axis(a, b) for b in want), 'not a two-fold axis of the pair', a=a, want=want)
        mon.count('axes compared')
    for b in want:
        mon.ok(any(same_axis(a, b) for a in got), 'a two-fold axis is missing', b=b, got=got)
    comp = len(want) > 1
    mon.ok(bool(tp.iscompound()) == comp and bool(tp.istypeI()) != comp and bool(tp.istypeII()) != comp,
           'compound / type I / type II', want=comp, Ui=Ui, Uj=Uj)
    mon.count('compound twins' if comp else 'type I/II twins')
    if comp:
        mon.raises(AttributeError, tp.XI, 'X_I of a compound twin')
        mon.raises(AttributeError, tp.XII, 'X_II of a compound twin')
    else:
        e = want[0]
        x1, x2 = O.norm(O.mulv(O.inv(Ui), e)), O.norm(O.mulv(Ui, e))
        order = rnd.random() < .5
        g1, g2 = (float(tp.XI()), float(tp.XII())) if order else (float(tp.XII()), float(tp.XI()))[::-1]
        mon.ok(abs(g1 - x1) < 1e-7, 'X_I is not |U^-1 e|', got=g1, want=x1, U=Ui, e=e)
        mon.ok(abs(g2 - x2) < 1e-7, 'X_II is not |U e|', got=g2, want=x2, U=Ui, e=e)
        (_, a1, n1), (_, a2, n2) = tp.twinparam()
        mon.ok(same_axis(vec(n1), e, 1e-5), 'the type I twin plane is not normal to the two-fold axis', n=n1, e=e)
        Ue = O.mulv(Ui, e)
        a2 = vec(a2)
        mon.ok(same_axis([x / O.norm(a2) for x in a2], [x / O.norm(Ue) for x in Ue], 1e-5),
               'the type II shear is not along U e', a=a2, Ue=Ue)
        mon.count('cofactor parameters', 2)
    c = [float(x) for x in tp.direct_cof()]
    A = O.sub(O.mul(Ui, Ui), O.eye(3))
    K = cof3(A)
    for got, (_, a, n) in zip(c, tp.twinparam()):
        w = -O.dot(O.mulv(Ui, vec(a)), O.mulv(K, vec(n)))
        mon.ok(abs(got - w) < 1e-8, 'direct_cof is not U a . cof(U^2 - I) n', got=got, want=w, U=Ui)
    return comp, conv


def run(case, mon):
    from structrans import Martensite, TwinSystem
    from structrans.crystallography import CUBIC_LAUE_GROUP
    from structrans.marttrans.twin import TwinPair
    rnd = random.Random(case['s'])
    s = rnd.choice([.001, .003, .01, .04, .1, .2, .4])
    U = G.stretch(rnd, case['kind'], s)
    cubic = mats(CUBIC_LAUE_GROUP)
    if case['src'] == 'system':
        M = Martensite().setU(dress_arr(rnd, U))
        if case['laue']:
            M = M.setLaue(case['laue'])
        if not M.isreversible():
            mon.trivial = True
            return
        how = rnd.randrange(4)
        V = [mat(v) for v in M.getvariants()]
        if how == 0 and not case['laue']:
            ts = TwinSystem(np.array(V).tolist())
        elif how == 1:
            if rnd.random() < .5:
                # some of the variants, in any order
                V = rnd.sample(V, rnd.randint(1, len(V)))
                ts = TwinSystem(np.array(V) if rnd.random() < .5 else V, M.getLaue())
            else:
                ts = TwinSystem(M.getvariants(), M.getLaue())
        else:
            ts = TwinSystem(M)
        mon.ok(len(ts.Ulist()) == len(V) and all(O.maxdiff(mat(a), b) == 0 for a, b in zip(ts.Ulist(), V)), 'Ulist() is not the variants')
        G0 = mats(ts.Laue())
        Gm = mats(M.getLaue())
        mon.ok(len(G0) == len(Gm) and all(any(O.maxdiff(a, b) < 1e-9 for b in Gm) for a in G0), 'Laue() is not the group of the parent')
        asks = [('conv', ts.getConventional), ('comp', ts.getCompound), ('I', ts.getTypeI), ('II', ts.getTypeII), ('table', ts.TwinTable),
                ('pairs', ts.getTwinpairs)]
        rnd.shuffle(asks)
        ans = {}
        skip = False
        for name, f in asks:
            ans[name] = f()
        table = [tuple(int(x) for x in r) for r in ans['table']]
        pairs = ans['pairs']
        mon.ok(len(table) == len(pairs) and len(set(table)) == len(table), 'table and pairs correspond one to one')
        pos = {t: k for k, t in enumerate(table)}
        mon.ok(all(0 <= i < j < len(V) for i, j in table), 'indices in the table', table=table)
        good = {}
        for i in range(len(V)):
            for j in range(i + 1, len(V)):
                w = middle(V[i], V[j])
                dev = abs(w[1] - 1)
                if dev < 1e-9:
                    mon.ok((i, j) in pos, 'a twin is missing in the table', i=i, j=j, U=U, laue=case['laue'])
                    good[i, j] = pos[i, j]
                elif dev > 1e-2:
                    mon.ok((i, j) not in pos, 'the table lists a pair that is not a twin', i=i, j=j, U=U, dev=dev)
                mon.count('pairs classified')
        lists = {k: set(int(x) for x in ans[k]) for k in ('conv', 'comp', 'I', 'II')}
        mon.ok(lists['I'] == lists['II'], 'type I and type II lists differ')
        mon.ok(not lists['comp'] & lists['I'] and lists['comp'] | lists['I'] == set(range(len(table))),
               'every twin is either compound or of type I/II')
        for (i, j), k in good.items():
            tp = pairs[k]
            mon.ok(O.maxdiff(mat(tp.Ui()), V[i]) == 0 and O.maxdiff(mat(tp.Uj()), V[j]) == 0, 'pair and table entry differ', k=k)
            if rnd.random() < (1 if len(good) < 30 else .3):
                comp, conv = check_pair(mon, tp, V[i], V[j], Gm, rnd)
                if comp is not None:
                    mon.ok((k in lists['comp']) == comp, 'list of compound twins', k=k, want=comp, U=U)
                mon.ok((k in lists['conv']) == conv, 'list of conventional twins', k=k, want=conv, U=U, laue=case['laue'])
        mon.trivial = not good
        return
    if rnd.random() < .4:
        U = conj(G.rotation3(rnd), U)
    for _ in range(20):
        e = unit(rnd) if case['src'] == 'axis' else [x / O.norm(a) for a in [rnd.choice(AXES)] for x in a]
        V = conj(twofold(e), U)
        if O.maxdiff(U, V) > .05 * s:
            break
    else:
        mon.trivial = True
        return
    tp = TwinPair(dress_arr(rnd, U), dress_arr(rnd, V))
    mon.count('pairs classified')
    check_pair(mon, tp, U, V, cubic, rnd)
    near = min(O.maxdiff(conj(q, U), V) for q in cubic if abs(q[0][0] + q[1][1] + q[2][2] + 1) < 1e-9)
    if near < 1e-14 or near > 1e-4:
        mon.ok(bool(tp.isconventional()) == (near < 1e-14), 'conventional with the default cubic parent', U=U, V=V)
