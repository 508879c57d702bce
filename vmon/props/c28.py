"""Answers depend only on the object and the question: no history, no aliasing, no effect on the inputs"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..core import plain

RULE = ('random histories of 6-25 queries on one object (lattices, Bravais lattices, martensites, twin systems and pairs) in random order and with '
        'repetitions, other objects queried in between; everything returned is overwritten by the caller after most queries, and so are the lists and arrays the object was made of; each '
        'answer is compared with that of a fresh object asked only this question, and every argument with its value before; non-trivial when a question is repeated')
FLOORS = {'histories': 250, 'answers compared': 3500, 'results overwritten': 1500, 'arguments compared': 700, 'arguments overwritten': 300}


def cases(tier, rnd):
    for i in range(50 if tier == 'quick' else 1200):
        for k in ('lattice', 'bravais', 'martensite', 'twin', 'pair', 'group', 'functions'):
            yield {'kind': k, 'i': i, 'n': rnd.randint(6, 25)}


def groups(g):
    return sorted(tuple(round(float(x) + 0., 6) + 0. for r in m.tolist() for x in r) for m in g.matrices())


def val(x):
    """comparable rendering of an answer"""
    return plain(x)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        return abs(a - b) <= 1e-9 * (1 + abs(a))
    except TypeError:
        return a == b


def ask(f, obj):
    """answer or the kind of refusal"""
    try:
        return ('value', f(obj))
    except Exception as e:
        return ('raises', type(e).__name__)


def scribble(x):
    """the caller overwrites what it got"""
    if isinstance(x, np.ndarray) and x.size:
        x[...] = 7
        return True
    if isinstance(x, (list, tuple)):
        r = any([scribble(y) for y in x])
        if isinstance(x, list) and x:
            x.reverse()
            x[0] = None
            x.append('x')
            r = True
        return r
    return False


GIVEN = []


def given(rnd, x, array=False):
    """an argument as a list or an array; the caller keeps it and may overwrite it later"""
    a = np.array(x) if array or rnd.random() < .7 else np.array(x).tolist()
    GIVEN.append(a)
    return a


def run(case, mon):
    import structrans as st
    from structrans import Lattice, BravaisLattice, Martensite, TwinSystem
    from structrans.marttrans.twin import TwinPair
    from structrans.crystallography import CUBIC_LAUE_GROUP, SQUARE_GROUP, MatrixGroup, HermiteNormalForms, HNFDecomposition, LLL
    rnd = random.Random(case['s'])
    kind = case['kind']
    noise = None
    if kind in ('lattice', 'bravais'):
        d = rnd.choice([2, 3, 3])
        lid = rnd.randint(1, 14 if d == 3 else 5)
        p = G.bravais_params(rnd, lid, d)
        if kind == 'lattice':
            E = O.mul(BravaisLattice(lid, p, dim=d).base().tolist(), G.unimodular(rnd, d, limit=3))

            def make():
                return Lattice(given(rnd, E))
        else:
            def make():
                return BravaisLattice(lid, given(rnd, p), dim=d)
        Q = CUBIC_LAUE_GROUP.matrices()[rnd.randrange(24)].tolist() if d == 3 else [[0, -1], [1, 0]]
        M = G.unimodular(rnd, d, limit=3)
        Qr = G.rotation(rnd, d)
        copies = {'base': lambda x: x.base()}
        for nm in ('Laue_group', 'point_group', 'lattice_group', 'special_lattice_group'):
            copies[nm] = lambda x, nm=nm: sorted(getattr(x, nm)().matrices(), key=lambda m: [round(float(y), 6) for r in m.tolist() for y in r])
        other = {'dimension': lambda x: x.dimension(), 'str': str, 'inpoint': lambda x: bool(x.inpointgroup(Q)),
                 'inpoint rotated': lambda x: bool(x.inpointgroup(np.array(Qr))),
                 'inlattice': lambda x: bool(x.inlatticegroup(np.array(M))), 'self': lambda x: bool(x == make()),
                 'orders': lambda x: (x.Laue_group().order(), x.point_group().order())}
        if kind == 'bravais':
            idx = [[rnd.randint(-4, 4) for _ in range(d)] for _ in range(3)]
            copies['conventional_base'] = lambda x: x.conventional_base()
            copies['prim'] = lambda x: x.to_primitive_Miller(idx)
            copies['conv'] = lambda x: x.to_conventional_Miller(idx)
            other.update({'id': lambda x: x.Bravais_id(), 'C': lambda x: x.conventional_trans(), 'par': lambda x: x.lat_param()})

        def noise():
            Lattice(np.array(G.base(rnd, d))).Laue_group()
    elif kind == 'martensite':
        U = G.stretch(rnd, rnd.choice(G.KINDS))
        lid = rnd.choice([None, 1, 4, 6, 8])
        V = G.stretch(rnd, rnd.choice(G.KINDS))

        def make():
            m = Martensite(given(rnd, U))
            return m if lid is None else m.setLaue(lid)
        copies = {'U': lambda x: x.getU(), 'Laue': lambda x: x.getLaue().matrices(),
                  'idx': lambda x: x.getLaueidx(), 'of new Laue': lambda x: x.setLaue(8).getU(),
                  'of new U': lambda x: x.setU(given(rnd, V)).getU()}
        other = {'rev': lambda x: bool(x.isreversible()), 'variants': lambda x: x.getvariants(), 'last': lambda x: x.getvariant(len(x.getvariants())),
                 'first': lambda x: x.getvariant(1), 
                 'new laue': lambda x: x.setLaue(1).getLaue().order(),
                 'variants of new U': lambda x: x.setU(given(rnd, V)).getvariants(),
                 'variants of new Laue': lambda x: x.setLaue(8).getvariants()}

        def noise():
            try:
                Martensite(np.array(V)).getvariants()
            except AttributeError:
                pass
    elif kind == 'twin':
        U = G.stretch(rnd, rnd.choice(['tetragonal', 'orthorhombic', 'orthorhombic110', 'monoclinic', 'rhombohedral']))

        vs = Martensite(np.array(U)).getvariants().tolist()

        def make():
            if rnd.random() < .3:
                return TwinSystem(given(rnd, vs), MatrixGroup(given(rnd, CUBIC_LAUE_GROUP.matrices())))
            m = Martensite(given(rnd, U))
            if rnd.random() < .5:
                GIVEN.append(m.getvariants())
            return TwinSystem(m)
        copies = {'Ulist': lambda x: x.Ulist(), 'Laue': lambda x: x.Laue().matrices(), 'table': lambda x: x.TwinTable(),
                  'conventional': lambda x: x.getConventional(), 'compound': lambda x: x.getCompound(), 'I': lambda x: x.getTypeI(),
                  'II': lambda x: x.getTypeII()}
        copies['of pairs'] = lambda x: [p.Ui() for p in x.getTwinpairs()]
        other = {'pairs': lambda x: [(p.Ui(), p.Uj()) for p in x.getTwinpairs()],
                 'kinds': lambda x: [(bool(p.isconventional()), bool(p.iscompound())) for p in x.getTwinpairs()]}

        def noise():
            TwinSystem(Martensite(np.array(G.stretch(rnd, 'tetragonal')))).TwinTable()
    elif kind == 'pair':
        while True:
            U = G.stretch(rnd, rnd.choice(['tetragonal', 'orthorhombic', 'orthorhombic110', 'monoclinic', 'rhombohedral']))
            vs = Martensite(np.array(U)).getvariants()
            if len(vs) > 1:
                break
        i, j = rnd.sample(range(len(vs)), 2)
        A, B = vs[i].tolist(), vs[j].tolist()
        hexg = BravaisLattice(4, [2., 3.]).Laue_group()

        def make():
            return TwinPair(given(rnd, A, True), given(rnd, B, True))
        copies = {'Ui': lambda x: x.Ui(), 'Uj': lambda x: x.Uj()}
        other = {'twinnable': lambda x: bool(x.istwinnable()), 'conventional': lambda x: bool(x.isconventional()),
                 'conventional hex': lambda x: bool(x.isconventional(hexg)),
                 'conventional cubic': lambda x: bool(x.isconventional(CUBIC_LAUE_GROUP)),
                 'ax': lambda x: x.ax(), 'compound': lambda x: bool(x.iscompound()), 'I': lambda x: bool(x.istypeI()),
                 'II': lambda x: bool(x.istypeII()), 'XI': lambda x: float(x.XI()), 'XII': lambda x: float(x.XII()),
                 'param': lambda x: x.twinparam(), 'cof': lambda x: [float(y) for y in x.direct_cof()],
                 'f': lambda x: list(x.volumefrac()), 'compI': lambda x: bool(x.iscompatible('I')), 'comp': lambda x: bool(x.iscompatible()),
                 'compII': lambda x: bool(x.iscompatible('II')),
                 'habit': lambda x: x.habitplanes()}
    elif kind == 'group':
        mats = rnd.choice([CUBIC_LAUE_GROUP, SQUARE_GROUP, BravaisLattice(6, [2., 3.]).Laue_group(), BravaisLattice(8, [2., 3., 4.]).point_group(),
                           BravaisLattice(4, [2., 3.]).lattice_group()]).matrices()
        mats = [m.tolist() for m in mats]
        sub = MatrixGroup(np.array(mats[:1]))

        def make():
            return MatrixGroup(given(rnd, mats))
        copies = {'matrices': lambda x: x.matrices()}
        other = {'order': lambda x: x.order(), 'sub': lambda x: bool(x.hassubgroup(sub)), 'in cubic': lambda x: bool(CUBIC_LAUE_GROUP.hassubgroup(x)),
                 'in itself': lambda x: bool(x.hassubgroup(MatrixGroup(np.array(mats))))}
        noise = None
    else:
        return functions(case, mon, rnd, st, LLL, HermiteNormalForms, HNFDecomposition)

    qs = dict(other)
    qs.update(copies)
    fresh = {k: ask(f, make()) for k, f in qs.items()}
    fresh = {k: (a, val(b)) for k, (a, b) in fresh.items()}
    del GIVEN[:]
    obj = make()
    kept = list(GIVEN)
    names = sorted(qs)
    hist = []
    for _ in range(case['n']):
        k = rnd.choice(names)
        hist.append(k)
        st_, v = ask(qs[k], obj)
        got = (st_, val(v))
        mon.ok(got[0] == fresh[k][0] and same(got[1], fresh[k][1]), 'the answer to "%s" depends on the history' % k, history=hist, got=got,
               fresh=fresh[k])
        mon.count('answers compared')
        if st_ == 'value' and rnd.random() < .8 and scribble(v):
            hist.append('caller overwrites the result')
            mon.count('results overwritten')
        if rnd.random() < .1:
            for a in kept:
                scribble(a)
            hist.append('caller overwrites what the object was made of')
            mon.count('arguments overwritten')
        if noise and rnd.random() < .2:
            noise()
    # and the groups shared by everything are intact
    mon.ok(len(set(groups(CUBIC_LAUE_GROUP))) == 24, 'the cubic Laue group was damaged')
    mon.count('histories')
    mon.trivial = len(set(hist)) == len(hist)


def more(calls, rnd, E, C, L):
    """the functions of the other modules"""
    from structrans import mat_math as mm
    from structrans.crystallography.stereogram import stereo_proj, pole_figure
    from structrans.crystallography.spacegroup import skew
    from structrans.crystallography import vertex, bonds, box
    from structrans.util.utils import divisors, sort_eig
    from .. import latc
    dist, direct, opt, hnf = latc.module('dist'), latc.module('main_direct'), latc.module('lat_opt'), latc.module('main_hnf')
    rows = np.array([[rnd.randint(-3, 3) for _ in range(9)] for _ in range(rnd.choice([3, 120]))])
    E3, F3 = np.array(G.base(rnd, 3)), np.array(G.base(rnd, 3))
    A2, B2 = np.array(G.base(rnd, 2)), np.array(G.base(rnd, 2))
    z, ps = np.array([1., 2., rnd.randint(-2, 2)]), [[rnd.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
    group = [np.array(m) for m in ([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 1, 0], [1, 0, 0], [0, 0, -1]], [[-1, 0, 0], [0, -1, 0], [0, 0, 1]],
                                   [[0, -1, 0], [-1, 0, 0], [0, 0, -1]])]
    hs = [np.array(h) for h in latc.hnfs(rnd.randint(2, 5), 3)]
    start = [0, rnd.randint(0, 1), 0]

    def vectors(r, d, x0):
        return list(direct.vec_generator(r, d, x0))

    def reduction(hs, group):
        return [h.copy() for h in hnf.reduce_hnfs([hs, group])]     # a selection of its input

    def optimum(E1, E2):
        r = opt.lat_opt(E1, E2, disp=0, nsol=1)
        return r['dopt'][0]

    calls.update({
        'mat_dot': (mm.mat_dot, [rows, rows[::-1].copy()]), 'mat_trace': (mm.mat_trace, [rows]), 'mat_det': (mm.mat_det, [rows]), 'mat_T': (mm.mat_T, [rows]),
        'mat_eig': (mm.mat_eig, [np.array([[x for r in C for x in r]])]), 'unique_rows': (mm.unique_rows, [rows[:3]]), 'eigSort': (mm.eigSort, [np.array(C)]),
        'cofactor': (mm.cofactor, [E3]), 'sort_eig': (sort_eig, [np.array(C)]), 'divisors': (divisors, [rnd.randint(1, 200)]),
        'stereo': (stereo_proj, [np.array(ps[0]), z]), 'poles': (pole_figure, [ps, z]), 'skew': (skew, [rnd.randint(2, 6), 1, z.copy()]),
        'vertex': (vertex, [np.array(ps[0]), E3]), 'edges': (bonds, [vertex(np.array(ps[0]), E3)]), 'box': (box, [np.array(ps), np.eye(3)]),
        'Cauchy': (dist.Cauchy_dist, [np.array(L), E3, F3]), 'strain': (dist.strain_dist, [np.array(L), E3, F3]), 'Ericksen': (dist.Eric_dist, [np.array(L), E3, F3]),
        'Cauchy batch': (dist.Cauchy_dist_vec, [rows, E3, F3]), 'vectors': (vectors, [1.5, 3, start]), 'optimum': (optimum, [A2, B2]),
        'reduce': (reduction, [hs, group])})


def functions(case, mon, rnd, st, LLL, HNFs, HNFD):
    """pure functions: same arguments, same answer; arguments untouched"""
    from structrans import AM_Solver, isCompatible, direc_trans, plane_trans, Euler, rotation
    from structrans.util import solve_rank1
    from structrans.util.utils import pos_def_sym
    from structrans.crystallography.hnf import hnf_from_diag
    U = G.stretch(rnd, 'monoclinic')
    C = O.mul(U, U)
    s = [[1., 0, 0], [0, 1., rnd.uniform(.1, .5)], [0, 0, 1.]]
    S = O.mul(O.T(s), s)
    E = G.base(rnd, rnd.randint(2, 4))
    while True:
        M = [[rnd.randint(-5, 5) for _ in range(3)] for _ in range(3)]
        if O.det(M) != 0:
            break
    L = G.unimodular(rnd, 3, limit=4)
    dirs = [[rnd.randint(-3, 3) for _ in range(3)] for _ in range(4)]
    n, dg = rnd.randint(1, 8), [rnd.randint(1, 3) for _ in range(3)]
    calls = {
        'AM': (AM_Solver, [np.array(S)]), 'rank1': (solve_rank1, [np.array(S)]), 'compat': (isCompatible, [np.array(U), np.eye(3)]),
        'direc': (direc_trans, [np.array(L), [list(x) for x in dirs]]), 'plane': (plane_trans, [np.array(L), np.array(dirs)]),
        'euler': (Euler, [[10., 20., 30.]]), 'rotation': (rotation, [33., np.array([1., 2., 3.])]), 'LLL': (LLL, [np.array(E)]),
        'hnfs': (HNFs, [n]), 'diag': (hnf_from_diag, [list(dg)]), 'hnfd': (HNFD, [np.array(M)]), 'posdef': (pos_def_sym, [np.array(C)])}
    more(calls, rnd, E, C, L)
    calls = {k: calls[k] for k in rnd.sample(sorted(calls), 12)}
    first = {}
    hist = []
    for _ in range(2 * case['n']):
        k = rnd.choice(sorted(calls))
        f, args = calls[k]
        before = plain(args)
        r = f(*args)
        v = plain(r)
        mon.ok(plain(args) == before, '%s changed its argument' % k, before=before, after=plain(args))
        mon.count('arguments compared')
        mon.ok(k not in first or same(v, first[k]), '%s answers differently when asked again' % k, args=before, first=first.get(k), got=v)
        first.setdefault(k, v)
        hist.append(k)
        mon.count('answers compared')
        if scribble(r):
            mon.count('results overwritten')
    mon.count('histories')
