"""Miller index conversion"""
import random
import numpy as np
from .. import oracles as O, gen as G
from ..util import mat, vec, dress

RULE = ('all Bravais types; random integer and real index vectors, single and in lists, as lists/arrays; both conversions must '
        'describe the same Cartesian direction and undo each other, element by element; malformed input must be refused; '
        'non-trivial for centred types (conventional base differs from the primitive one)')
FLOORS = {'indices converted': 2000, 'rejections observed': 50}


def cases(tier, rnd):
    n = 24 if tier == 'quick' else 500
    for k in range(n):
        for lid in range(1, 15):
            yield {'id': lid, 'dim': 3, 'k': k}
        for lid in range(1, 6):
            yield {'id': lid, 'dim': 2, 'k': k}


def run(case, mon):
    from structrans import BravaisLattice
    rnd = random.Random(case['s'])
    lid, n = case['id'], case['dim']
    p = G.wide(rnd, lid, G.bravais_params(rnd, lid, n), n)
    lat = BravaisLattice(lid, p, dim=n)
    E, C = mat(lat.base()), mat(lat.conventional_base())
    mon.trivial = G.CENTRING[n][lid - 1] == 1
    m = rnd.choice([1, 2, 2, 3, 3, 4, 7, 25])
    real = rnd.random() < .3
    idx = [[rnd.uniform(-5, 5) if real else rnd.randint(*rnd.choice([(-6, 6), (-6, 6), (-1, 1), (-60, 60)])) for _ in range(n)] for _ in range(m)]
    for name, alias, src, dst in (('to_primitive_Miller', 'toPrimitive', C, E), ('to_conventional_Miller', 'toConventional', E, C)):
        f = getattr(lat, name)
        back = lat.to_conventional_Miller if src is C else lat.to_primitive_Miller
        arg = dress(rnd, idx, not real)
        keep = np.array(arg).tolist()
        out = f(arg)
        mon.ok(np.array(arg).tolist() == keep, name + ': the input was changed', idx=idx)
        rows = [vec(out)] if m == 1 and np.ndim(out) == 1 else mat(out)
        mon.ok(len(rows) == m, name + ': number of results', got=len(rows), want=m)
        for x, y in zip(idx, rows):
            a, b = O.mulv(src, x), O.mulv(dst, y)
            mon.ok(len(y) == n and max(abs(u - v) for u, v in zip(a, b)) <= 1e-9 * O.norm(a),
                   name + ': not the same direction', x=x, y=y, id=lid, p=p)
            arg = dress(rnd, x, not real)
            keep = np.array(arg).tolist()
            one = vec(f(arg))
            mon.ok(np.array(arg).tolist() == keep, name + ': the input was changed', x=x)
            mon.ok(len(one) == n and max(abs(u - v) for u, v in zip(one, y)) < 1e-9, name + ': single index differs from the list', x=x)
            z = vec(back(one))
            mon.ok(max(abs(u - v) for u, v in zip(z, x)) < 1e-8, name + ': not undone by the reverse conversion', x=x, z=z)
            al = vec(getattr(lat, alias)(x))
            mon.ok(max(abs(u - v) for u, v in zip(al, one)) < 1e-12, alias + ' differs from ' + name, x=x)
            mon.count('indices converted')
        if n == 2 or n == 3:
            k = 5 - n
            for bad in ([1] * k, [[1] * k, [0] * k], [[[1] * n]]):
                mon.raises(ValueError, f, name + ' of %r' % (bad,), bad)
