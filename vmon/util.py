"""conversions of what the code returned into plain Python, and input dressing"""
import numpy as np
from .core import Violated


def _num(x, what):
    if isinstance(x, complex) or hasattr(x, 'imag') and not isinstance(x, (int, float)):
        x = complex(x)
        if x.imag != 0:
            raise Violated('%s: not real: %r' % (what, x))
        x = x.real
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Violated('%s: not finite: %r' % (what, x))
    return x


def vec(x, what='vector'):
    try:
        v = np.asarray(x).tolist()
        return [_num(a, what) for a in v]
    except (TypeError, ValueError) as e:
        raise Violated('%s: not a real vector: %r (%s)' % (what, x, e))


def mat(x, what='matrix'):
    try:
        v = np.asarray(x).tolist()
        return [[_num(a, what) for a in r] for r in v]
    except (TypeError, ValueError) as e:
        raise Violated('%s: not a real matrix: %r (%s)' % (what, x, e))


def imat(x, what='integer matrix', tol=0.0):
    M = mat(x, what)
    out = []
    for r in M:
        row = []
        for a in r:
            k = int(round(a))
            if abs(a - k) > tol:
                raise Violated('%s: entry %r is not an integer' % (what, a))
            row.append(k)
        out.append(row)
    return out


def mats(group, what='group'):
    """matrices of a MatrixGroup"""
    return [mat(m, what) for m in group.matrices()]


def dress(rnd, A, ints=False):
    """the same data as list, tuple-free nested list, C or Fortran array, non-contiguous view"""
    k = rnd.randrange(5)
    a = np.array(A, dtype=(int if ints else float))
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    return a


def dress_arr(rnd, A, ints=False):
    """as dress, but always an ndarray"""
    return np.asarray(dress(rnd, A, ints))
