"""Truncated power series in the time step h, with symbolic or numeric coefficients (the ring R[h]/(h^(N+1)))."""

from fractions import Fraction
from math import factorial
from numbers import Number

import numpy as _np

from . import sym

ORDER = [4]


def set_order(n):
    ORDER[0] = n


def _scalar(x):
    return isinstance(x, (Number, Fraction, _np.generic, sym.Sym))


class Ser:
    __slots__ = ("c",)
    dtype = _np.dtype(object)

    def __init__(self, c):
        n = ORDER[0] + 1
        c = list(c)[:n]
        self.c = c + [0] * (n - len(c))

    @staticmethod
    def of(x):
        if isinstance(x, Ser):
            return x
        if isinstance(x, _np.ndarray) and x.ndim == 0:
            x = x.item()
        if isinstance(x, Ser):
            return x
        if _scalar(x):
            return Ser([x.item() if isinstance(x, _np.generic) else x])
        return None

    def _bin(self, o, f):
        if isinstance(o, _np.ndarray) and o.ndim:
            r = _np.empty(o.shape, dtype=object)
            for i in _np.ndindex(*o.shape):
                r[i] = f(self, Ser.of(o[i]))
            return r
        o = Ser.of(o)
        return NotImplemented if o is None else f(self, o)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ops = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
               "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b}
        if method != "__call__" or ufunc.__name__ not in ops or kw:
            return NotImplemented
        a, b = inputs
        ufunc = ufunc.__name__
        if isinstance(a, Ser):
            return ops[ufunc](a, b)
        if isinstance(a, _np.ndarray) and a.ndim:
            r = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(*a.shape):
                r[i] = ops[ufunc](Ser.of(a[i]), b)
            return r
        return ops[ufunc](Ser.of(a), b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Ser([x + y for x, y in zip(a.c, b.c)]))

    __radd__ = __add__

    def __neg__(self):
        return Ser([-x for x in self.c])

    def __sub__(self, o):
        return self._bin(o, lambda a, b: Ser([x - y for x, y in zip(a.c, b.c)]))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: Ser([y - x for x, y in zip(a.c, b.c)]))

    @staticmethod
    def _mul(a, b):
        n = ORDER[0] + 1
        r = [0] * n
        for i, x in enumerate(a.c):
            if _zero(x):
                continue
            for j in range(n - i):
                if not _zero(b.c[j]):
                    r[i + j] = r[i + j] + x * b.c[j]
        return Ser(r)

    def __mul__(self, o):
        return self._bin(o, Ser._mul)

    __rmul__ = __mul__

    @staticmethod
    def _div(a, b):
        if all(_zero(x) for x in b.c[1:]):
            return Ser([x / b.c[0] for x in a.c])
        if _zero(b.c[0]) and not isinstance(b.c[1], sym.Sym) and b.c[1] != 0 and all(_zero(x) for x in b.c[2:]):
            if not _zero(a.c[0]):
                raise sym.Unsupported("division of a series by h")
            return Ser([x / b.c[1] if b.c[1] != 1 else x for x in a.c[1:]])  # the last coefficient is lost
        raise sym.Unsupported("division of series")

    def __truediv__(self, o):
        return self._bin(o, Ser._div)

    def __abs__(self):
        for x in self.c:
            if not _zero(x):
                if isinstance(x, sym.Sym):
                    raise sym.Unsupported("sign of a series")
                return self if x > 0 else -self
        return self

    def _cmp(self, o):
        """for small h > 0, which is however large against tolerances"""
        o = Ser.of(o)
        for k in range(1, ORDER[0] + 1):
            d = self.c[k] - o.c[k]
            if not _zero(d):
                if isinstance(d, sym.Sym):
                    raise sym.Unsupported("comparison of series")
                return 1 if d > 0 else -1
        d = self.c[0] - o.c[0]
        return 0 if _zero(d) else (1 if d > 0 else -1)

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __eq__(self, o):
        return self._cmp(o) == 0

    def __ne__(self, o):
        return self._cmp(o) != 0

    __hash__ = None

    def __bool__(self):
        return not all(_zero(x) for x in self.c)

    def __format__(self, spec):
        return "<series>"

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _zero(x):
    if isinstance(x, sym.Sym):
        return x.op == "const" and x.args[0] == 0
    return x == 0


def array(items, shape=None):
    a = _np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x if isinstance(x, Ser) else Ser([x])
    return a if shape is None else a.reshape(shape)


class Field:
    """A polynomial vector field on R^n around the point q0: f_i(q) = sum of coef * (q - q0)^alpha"""

    def __init__(self, q0, coefs):
        """coefs[i]: dict multi-index -> coefficient"""
        self.q0, self.coefs = list(q0), coefs
        self.calls = []

    def _mono(self, d, alpha):
        r = None
        for x, e in zip(d, alpha):
            for _ in range(e):
                r = x if r is None else r * x
        return r

    def value(self, q):
        d = [x - y for x, y in zip(q, self.q0)]
        out = []
        cache = {}
        for co in self.coefs:
            s = Ser([0])
            for al, c in co.items():
                if al not in cache:
                    cache[al] = self._mono(d, al)
                m = cache[al]
                s = s + (c if m is None else m * c)
            out.append(s)
        return out

    def jacobian(self, q, v):
        d = [x - y for x, y in zip(q, self.q0)]
        out = []
        for co in self.coefs:
            s = Ser([0])
            for al, c in co.items():
                for j, e in enumerate(al):
                    if e:
                        be = tuple(a - (i == j) for i, a in enumerate(al))
                        m = self._mono(d, be)
                        t = v[j] * (c * e)
                        s = s + (t if m is None else m * t)
            out.append(s)
        return out

    def __call__(self, Q):
        q = [Ser.of(x) for x in _np.asarray(Q, dtype=object).reshape(-1)]
        self.calls.append(q)
        return array(self.value(q), _np.shape(Q))

    def flow(self, tau):
        """The exact solution at time tau*h from q0: Picard iteration in the series ring"""
        n = ORDER[0]
        y = [Ser([x]) for x in self.q0]
        # y(s), s = tau h; coefficients in h: integrate f(y) term by term
        for _ in range(n):
            f = self.value(y)
            y = [Ser([x] + [tau * c / k if tau != 1 else c / k for k, c in enumerate(g.c[:-1], start=1)]) for x, g in zip(self.q0, f)]
        return y


def phi_sum(tau, A, vecs):
    """sum_k tau^k phi_k(tau A) v_k with A linear and divisible by h; vecs: list of lists (k = 0, 1, ...)"""
    n = len(vecs[0])
    tot = [Ser([0]) for _ in range(n)]
    for k, v in enumerate(vecs):
        w = list(v)
        for j in range(ORDER[0] + 1):
            co = Fraction(1, factorial(j + k))
            t = tau ** (j + k) if tau != 1 else 1
            tot = [a + x * (co if t == 1 else float(co) * t) for a, x in zip(tot, w)]
            w = A(w)
            if not any(bool(x) for x in w):
                break
    return tot
