"""The few functions of scipy.linalg and numpy.linalg that the solvers use, on arrays of terms."""

import types

import numpy as np
import scipy

from . import sym, symnp
from .sym import is_sym

_np_solve = np.linalg.solve


def _sym(*arrays):
    return any(isinstance(a, symnp.SymArray) or getattr(a, "dtype", None) == object for a in map(np.asarray, arrays))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    if not _sym(a, b):
        return scipy.linalg.solve_triangular(a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal, **k)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if trans in (1, "T", 2, "C"):
        a, lower = a.T, not lower
    n = a.shape[0]
    x = np.array([sym.lift(v) for v in b.reshape(n, -1).ravel()], dtype=object).reshape(n, -1)
    for i in range(n) if lower else range(n - 1, -1, -1):
        for j in range(i) if lower else range(i + 1, n):
            x[i] = x[i] - sym.lift(a[i, j]) * x[j]
        if not unit_diagonal:
            x[i] = x[i] / sym.lift(a[i, i])
    return symnp.wrap(x.reshape(b.shape))


def solve(a, b):
    """Elimination without pivoting (the solution does not depend on it where the pivots are not zero)"""
    if not _sym(a, b):
        return _np_solve(a, b)
    a = np.array([sym.lift(v) for v in np.asarray(a, dtype=object).ravel()], dtype=object).reshape(np.shape(a))
    n = a.shape[0]
    x = np.array([sym.lift(v) for v in np.asarray(b, dtype=object).ravel()], dtype=object).reshape(n, -1)
    for k in range(n):
        for i in range(k + 1, n):
            if a[i, k].c is not None and a[i, k].c == 0:
                continue
            f = a[i, k] / a[k, k]
            a[i, k:] = a[i, k:] - f * a[k, k:]
            x[i] = x[i] - f * x[k]
    r = solve_triangular(symnp.wrap(a), symnp.wrap(x))
    return r.reshape(np.shape(b))


def install():
    np.linalg.solve = solve


def algebra(**over):
    """What a device offers as xalg"""
    d = dict(solve_triangular=solve_triangular, expm=scipy.linalg.expm)
    d.update(over)
    return types.SimpleNamespace(linalg=types.SimpleNamespace(**d))
