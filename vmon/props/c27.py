"""Drawn unit cells are the cells of the lattice"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, dress_arr

RULE = ('every Bravais type in two and three dimensions with generic parameters, origins at and away from zero; vertices against subset sums of the base, '
        'edges against pairs of vertices that differ by one base vector; non-trivial when the origin is not zero')
FLOORS = {'cells': 150, 'vertices': 1500, 'edges': 2000, 'copies': 150, 'centring points': 40}


def cases(tier, rnd):
    for r in range(20 if tier == 'quick' else 300):
        for d, n in ((3, 14), (2, 5)):
            for lid in range(1, n + 1):
                yield {'dim': d, 'id': lid, 'r': r}


def sums(o, cols):
    out = []
    for bits in O.product((0, 1), repeat=len(cols)):
        v = list(o)
        for b, c in zip(bits, cols):
            if b:
                v = [x + y for x, y in zip(v, c)]
        out.append((bits, v))
    return out


def find(v, table, tol):
    return [b for b, w in table if max(abs(x - y) for x, y in zip(v, w)) < tol]


def run(case, mon):
    from structrans.crystallography import UnitCell, BravaisLattice, vertex, bonds
    from structrans.crystallography.visualization import visualError
    rnd = random.Random(case['s'])
    d, lid = case['dim'], case['id']
    p = G.bravais_params(rnd, lid, d)
    if rnd.random() < .4:
        p = G.wide(rnd, lid, p, d)
    lat = BravaisLattice(lid, p, dim=d)
    P, C = O.T(mat(lat.base())), O.T(mat(lat.conventional_base()))
    size = O.maxabs(C)
    o = [0.] * d if rnd.random() < .3 else [3 * size * rnd.uniform(-1, 1) for _ in range(d)]
    if rnd.random() < .2 and .1 < size < 100:
        o = [rnd.randint(-3, 3) for _ in range(d)]
    oa = np.array(o) if rnd.random() < .6 else list(o)
    cell = UnitCell(oa, lid, p, N=d) if d == 2 or rnd.random() < .5 else UnitCell(oa, lid, p)

    def check(verts, edges, origin, cols, what):
        table = sums(origin, cols)
        tol = 1e-9 * (O.maxabs(cols) + max(abs(x) for x in origin))
        verts = mat(verts, what)
        hit = [find(v, table, tol) for v in verts]
        mon.ok(len(verts) == 2 ** d and all(len(h) == 1 for h in hit) and len(set(h[0] for h in hit)) == 2 ** d,
               what + ': not the corners of the cell', got=verts, want=[w for _, w in table])
        mon.count('vertices', len(verts))
        seen = set()
        ed = np.asarray(edges).tolist()
        for e in ed:
            a, b = find(e[0], table, tol), find(e[1], table, tol)
            mon.ok(len(a) == 1 and len(b) == 1 and sum(x != y for x, y in zip(a[0], b[0])) == 1, what + ': an edge does not join neighbouring corners',
                   edge=e)
            seen.add(frozenset((a[0], b[0])))
            mon.count('edges')
        mon.ok(len(ed) == len(seen) == d * 2 ** (d - 1), what + ': not every edge exactly once', n=len(ed), distinct=len(seen))

    shape = None
    for _ in range(2):
        check(cell.getPrimitive(), cell.getPrimitivebonds(), o, P, 'primitive cell')
        check(cell.getConventionalVex(), cell.getConventionalbonds(), o, C, 'conventional cell')
        prim = cell.getPrimitive()
        mon.ok(np.array_equal(cell.bonds(prim), bonds(prim)), 'the two ways to list edges differ')
        full = mat(cell.getConventional())
        if len(full):
            table = sums(o, C)
            tol = 1e-9 * (size + max(abs(x) for x in o))
            for _, w in table:
                mon.ok(any(max(abs(x - y) for x, y in zip(v, w)) < tol for v in full), 'a corner of the conventional cell is missing', w=w)
            for v in full:
                k = O.mulv(O.inv(mat(lat.base())), [x - y for x, y in zip(v, o)])
                mon.ok(max(abs(x - round(x)) for x in k) < 1e-6, 'a drawn point is not a lattice point of the cell', v=v, o=o)
            if d == 3 and lid in (1, 2, 3, 6, 7, 8, 9, 10, 11):
                # perpendicular axes: what is drawn are the corners and the corners of the primitive cell inside the conventional cell
                Ci = O.inv(O.T(C))
                for v in full:
                    k = O.mulv(Ci, [x - y for x, y in zip(v, o)])
                    mon.ok(-1e-6 < min(k) and max(k) < 1 + 1e-6, 'a point is drawn outside of the conventional cell', v=v, k=k, o=o)
                for _, w in sums([0.] * 3, P):
                    k = O.mulv(Ci, w)
                    if 1e-6 < min(k) and max(k) < 1 - 1e-6:
                        w = [x + y for x, y in zip(w, o)]
                        mon.ok(any(max(abs(x - y) for x, y in zip(v, w)) < tol for v in full), 'a point inside the cell is not drawn', w=w)
                        mon.count('centring points')
            if shape is not None:
                mon.ok(len(shape) == len(full) and O.maxdiff(shape, [[x - y for x, y in zip(v, o)] for v in full]) < tol,
                       'moving the origin does not translate the drawn cell', o=o)
            shape = [[x - y for x, y in zip(v, o)] for v in full]
        mon.count('cells')
        t = [3 * size * rnd.uniform(-1, 1) for _ in range(d)]
        moved = mat(cell.copyTo(np.array(t), prim))
        mon.ok(O.maxdiff(moved, [[x + y for x, y in zip(v, t)] for v in mat(prim)]) < 1e-12 * size, 'a copy is not translated', t=t)
        mon.count('copies')
        o = [3 * size * rnd.uniform(-1, 1) for _ in range(d)]
        cell.setOrigin(np.array(o) if rnd.random() < .6 else list(o))
    # the free function
    E = G.base(rnd, d)
    o = [rnd.uniform(-5, 5) for _ in range(d)]
    v = vertex(np.array(o), np.array(E), d)
    check(v, bonds(v), o, E, 'vertices of rows')
    mon.raises(visualError, vertex, 'cell of dimension %d' % 4, np.zeros(4), np.eye(4), 4)
    mon.raises(visualError, bonds, 'edges in 4 dimensions', np.zeros((16, 4)))
