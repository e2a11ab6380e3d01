"""Symbolic scalars that the real WxFactory code is executed on.

A `Sym` is a node of a hash-consed expression DAG over the reals.  Instances live in numpy object arrays, so the
repository's own numpy expressions build the encoding while they run.  Comparisons give `SymBool`; converting one to
`bool` (an `if` in the code under test) asks the path explorer which way to go.
"""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as _np


class Unsupported(Exception):
    """The code did something that the symbolic executor cannot encode (an inconclusive result, never a verdict)."""


_table: dict = {}
_decimal_cache: dict = {}


def reset():
    _table.clear()
    _known_trig.clear()


def rationalise(x: float) -> Fraction:
    """The simplest rational that rounds to the double `x` (so that 1/6, 2/3, 287.05... mean what the author wrote);
    the exact binary value if there is no simple one."""
    f = _decimal_cache.get(x)
    if f is None:
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant")
        f = Fraction(x).limit_denominator(1000000)
        if float(f) != x:
            g = Fraction(repr(float(x)))
            f = g if g.denominator <= 10**12 else Fraction(x)
        _decimal_cache[x] = f
    return f


allow_undef = False  # division by a constant zero gives `undef` (NaN) instead of an exception


def undef():
    return _mk("undef")


def _mk(op, *args):
    if op not in ("ite", "undef") and allow_undef:
        for a in args:
            if isinstance(a, Sym) and a.op == "undef":
                return a
    key = (op,) + tuple(id(a) if isinstance(a, (Sym, SymBool)) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = Sym.__new__(Sym)
        n.op = op
        n.args = args
        _table[key] = n
    return n


def _mkb(op, *args):
    key = (op,) + tuple(id(a) if isinstance(a, (Sym, SymBool)) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = SymBool.__new__(SymBool)
        n.op = op
        n.args = args
        _table[key] = n
    return n


def const(v) -> "Sym":
    if isinstance(v, Sym):
        return v
    return _mk("const", v if isinstance(v, Fraction) else Fraction(v))


def var(name: str) -> "Sym":
    return _mk("var", name)


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return const(int(x))
    if isinstance(x, (int, _np.integer)):
        return const(int(x))
    if isinstance(x, (float, _np.floating)):
        return const(rationalise(float(x)))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


_rounder = [None]


def _rnd(x):
    """Hook for the rounding model: every computed value may be off by a relative error"""
    f = _rounder[0]
    return x if f is None or x.op in ("const", "var") else f(x)


printed = None  # a list: symbolic values that the code prints are collected here


class Sym:
    __slots__ = ("op", "args", "__weakref__")
    __array_priority__ = 1000.0
    dtype = _np.dtype(object)
    ndim = 0
    shape = ()
    size = 1

    # numpy scalars / arrays on the left must give up
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__":
            return NotImplemented
        conv = []
        for i in inputs:
            if isinstance(i, (Sym, SymBool)):
                a = _np.empty((), dtype=object)
                a[()] = i
                conv.append(a)
            elif isinstance(i, _np.ndarray):
                conv.append(i.astype(object) if i.dtype != object else i)
            elif isinstance(i, _np.generic):
                a = _np.empty((), dtype=object)
                a[()] = i.item()
                conv.append(a)
            else:
                conv.append(i)
        from . import symnp

        r = symnp.ufunc_call(ufunc, conv, kwargs)
        if isinstance(r, _np.ndarray) and r.ndim == 0 and kwargs.get("out") is None:
            return r[()]
        return r

    @property
    def c(self):
        """Fraction value if constant, else None"""
        return self.args[0] if self.op == "const" else None

    # --- arithmetic
    def __add__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(add(self, o2))

    __radd__ = __add__

    def __neg__(self):
        return mul(const(-1), self)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(sub(self, o2))

    def __rsub__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(sub(o2, self))

    def __mul__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(mul(self, o2))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(div(self, o2))

    def __rtruediv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return _rnd(div(o2, self))

    def __pow__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return power(self, o2)

    def __rpow__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return power(o2, self)

    def __abs__(self):
        return sabs(self)

    # --- comparisons
    def __lt__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else cmp("lt", self, o2)

    def __le__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else cmp("le", self, o2)

    def __gt__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else cmp("lt", o2, self)

    def __ge__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else cmp("le", o2, self)

    def __eq__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else cmp("eq", self, o2)

    def __ne__(self, o):
        o2 = lift(o)
        return NotImplemented if o2 is None else snot(cmp("eq", self, o2))

    def __hash__(self):
        return id(self) >> 4

    def __bool__(self):
        return bool(snot(cmp("eq", self, const(0))))

    # --- numpy object-ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return fun("exp", self)

    def log(self):
        return fun("log", self)

    def sin(self):
        return fun("sin", self)

    def cos(self):
        return fun("cos", self)

    def tan(self):
        return fun("tan", self)

    def arctan(self):
        return fun("atan", self)

    def arcsin(self):
        return fun("asin", self)

    def arccos(self):
        return fun("acos", self)

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling of a symbolic value")

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "const":
            return int(self.args[0])
        from . import explore

        return explore.integer(trunc(self))

    def __index__(self):
        if self.op == "const" and self.args[0].denominator == 1:
            return int(self.args[0])
        from . import explore

        return explore.integer(self)

    def __complex__(self):
        return complex(float(self))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round() to digits of a symbolic value")
        return fun("round", self)

    def __floor__(self):
        return fun("floor", self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def floor(self):
        return fun("floor", self)

    def ceil(self):
        return ceil(self)

    def rint(self):
        return fun("round", self)

    def __floordiv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return fun("floor", div(self, o2))

    def __rfloordiv__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return fun("floor", div(o2, self))

    def __mod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return sub(self, mul(o2, fun("floor", div(self, o2))))

    def __rmod__(self, o):
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return sub(o2, mul(self, fun("floor", div(o2, self))))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __and__(self, o):
        """x & (2^k - 1) for an integer-valued x"""
        o2 = lift(o)
        if o2 is None or o2.c is None or o2.c < 0 or (int(o2.c) + 1) & int(o2.c):
            return NotImplemented
        return self % const(int(o2.c) + 1)

    __rand__ = __and__

    def __format__(self, spec):
        if self.op == "const" and spec:
            return format(float(self.args[0]), spec)
        if printed is not None:
            printed.append(self)
            return f"<sym{len(printed) - 1}>"
        return "<sym>"

    def __str__(self):
        if printed is not None:
            return self.__format__("")
        return show(self, 4)

    __repr__ = __str__


class SymBool:
    __slots__ = ("op", "args", "__weakref__")
    __array_priority__ = 1000.0
    dtype = _np.dtype(object)
    ndim = 0
    shape = ()

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        from . import explore

        return explore.decide(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return ite(self, const(1), const(0))

    def __add__(self, o):
        return self._n() + (o._n() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * (o._n() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __and__(self, o):
        return sand(self, liftb(o))

    __rand__ = __and__

    def __or__(self, o):
        return snot(sand(snot(self), snot(liftb(o))))

    __ror__ = __or__

    def __invert__(self):
        return snot(self)

    def logical_not(self):
        return snot(self)

    def __eq__(self, o):
        o = liftb(o)
        return (self & o) | (~self & ~o)

    def __hash__(self):
        return id(self) >> 4

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return Sym.__array_ufunc__(self, ufunc, method, *inputs, **kwargs)

    def __str__(self):
        return showb(self, 4)

    __repr__ = __str__


TRUE = None
FALSE = None


def liftb(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return snot(cmp("eq", x, const(0)))
    return true() if bool(x) else false()


def true():
    return _mkb("true")


def false():
    return _mkb("false")


# ----------------------------------------------------------------------------------------------- constructors


def _comm_key(a, b):
    return (a, b) if id(a) <= id(b) else (b, a)


def add(a, b):
    ca, cb = a.c, b.c
    if ca is not None and cb is not None:
        return const(ca + cb)
    if ca == 0:
        return b
    if cb == 0:
        return a
    if a.op == "mul" and a.args[0].c == -1 and a.args[1] is b:
        return const(0)
    if b.op == "mul" and b.args[0].c == -1 and b.args[1] is a:
        return const(0)
    a, b = _comm_key(a, b)
    return _mk("add", a, b)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, mul(const(-1), b))


def mul(a, b):
    if allow_undef and (a.op == "undef" or b.op == "undef"):
        return undef()
    ca, cb = a.c, b.c
    if ca is not None and cb is not None:
        return const(ca * cb)
    if ca == 0 or cb == 0:
        return const(0)
    if ca == 1:
        return b
    if cb == 1:
        return a
    if cb is not None:
        a, b, ca, cb = b, a, cb, ca
    if ca is not None:
        if b.op == "mul" and b.args[0].c is not None:
            return mul(const(ca * b.args[0].c), b.args[1])
        return _mk("mul", a, b)
    # pull constants to the front
    if a.op == "mul" and a.args[0].c is not None:
        return mul(a.args[0], mul(a.args[1], b))
    if b.op == "mul" and b.args[0].c is not None:
        return mul(b.args[0], mul(a, b.args[1]))
    a, b = _comm_key(a, b)
    return _mk("mul", a, b)


def div(a, b):
    cb = b.c
    if cb is not None:
        if cb == 0:
            if allow_undef:
                return undef()
            raise ZeroDivisionError("symbolic division by zero")
        return mul(const(1 / cb), a)
    if a.c == 0:
        return a
    if a is b:
        return const(1)
    if b.op == "mul" and b.args[0].c is not None:
        return mul(const(1 / b.args[0].c), div(a, b.args[1]))
    if a.op == "mul" and a.args[0].c is not None:
        return mul(a.args[0], div(a.args[1], b))
    return _mk("div", a, b)


fold_constants = [False]  # logarithms, exponentials and powers of constants as the floating-point numbers they are


def power(a, b):
    cb = b.c
    ca = a.c
    if cb is not None and cb.denominator == 1:
        n = cb.numerator
        if n == 0:
            return const(1)
        if n < 0:
            return div(const(1), power(a, const(-n)))
        if ca is not None:
            return const(ca**n)
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else mul(r, base)
            n >>= 1
            if n:
                base = mul(base, base)
        return r
    if fold_constants[0] and ca is not None and cb is not None and ca > 0:
        return const(Fraction(float(ca) ** float(cb)))
    if cb is not None and cb.denominator == 2:
        return power(sqrt(a), const(cb.numerator))
    if ca == 1:
        return const(1)
    if cb is not None and ca is None:  # real powers are taken of positive numbers
        return fun("exp", mul(b, fun("log", a)))
    return _mk("powr", a, b)


def sqrt(a):
    c = a.c
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of a negative constant")
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(Fraction(n, d))
    return _mk("sqrt", a)


_TWO_PI = 2.0 * math.pi


def _strip_turn(a):
    """a minus whole turns added as a constant (for sin, cos)"""
    if a.op == "add":
        for i in (0, 1):
            c = a.args[i].c
            if c is not None and c != 0:
                k = float(c) / _TWO_PI
                if abs(k - round(k)) < 1e-15 * max(1.0, abs(k)):
                    return a.args[1 - i]
    return a


_known_trig: dict = {}


def set_trig(node, c, s):
    """prescribe the (rational) cosine and sine of an angle"""
    assert c * c + s * s == 1
    _known_trig[id(node)] = (node, const(c), const(s))


def ceil(a):
    return mul(const(-1), fun("floor", mul(const(-1), a)))


def trunc(a):
    if a.op == "fun" and a.args[0] in ("floor", "round"):
        return a
    if a.op == "mul" and a.args[0].c == -1 and a.args[1].op == "fun" and a.args[1].args[0] in ("floor", "round"):
        return a
    return ite(cmp("lt", a, const(0)), ceil(a), fun("floor", a))


def _integral(a, depth=5):
    """an integer for sure"""
    if a.op == "const":
        return a.c.denominator == 1
    if a.op == "fun":
        return a.args[0] in ("floor", "round")
    return depth > 0 and a.op in ("add", "mul") and all(_integral(x, depth - 1) for x in a.args)


def fun(name, a):
    if name in ("floor", "round"):
        if a.c is not None:
            return const(math.floor(a.c) if name == "floor" else round(a.c))
        if _integral(a):
            return a
        return _mk("fun", name, a)
    if id(a) in _known_trig and name in ("sin", "cos", "tan"):
        _, c, s = _known_trig[id(a)]
        return c if name == "cos" else s if name == "sin" else div(s, c)
    if a.c is not None and name in ("sin", "cos"):
        k = float(a.c) / (0.5 * math.pi)
        if k and abs(k - round(k)) < 1e-15 * abs(k):  # a multiple of pi/2, as written by the author
            i = (round(k) + (0 if name == "sin" else 1)) % 4
            return const((0, 1, 0, -1)[i])
    if a.op == "ite" and name in ("sin", "cos", "tan"):
        return ite(a.args[0], fun(name, a.args[1]), fun(name, a.args[2]))
    if name in ("sin", "cos", "tan") and a.op == "add":
        a = _strip_turn(a)
    if fold_constants[0] and a.c is not None and (name == "exp" or name == "log" and a.c > 0):
        return const(Fraction(math.exp(a.c) if name == "exp" else math.log(a.c)))
    if a.c == 0:
        if name in ("exp", "cos"):
            return const(1)
        if name in ("sin", "tan", "atan", "asin"):
            return const(0)
    if a.c == 1 and name == "log":
        return const(0)
    if name == "log" and a.op == "mul" and a.args[0].c is not None and a.args[0].c > 0:
        return add(const(Fraction(math.log(a.args[0].c))), fun("log", a.args[1]))
    # inverse pairs and elementary trigonometry of inverse functions (exact over the reals)
    if a.op == "fun2" and a.args[0] == "atan2" and name in ("sin", "cos", "tan"):
        yy, xx = a.args[1], a.args[2]
        if name == "tan":
            return div(yy, xx)
        h = sqrt(add(mul(xx, xx), mul(yy, yy)))
        return div(yy if name == "sin" else xx, h)
    if a.op == "fun":
        g, t = a.args
        if (name, g) in (("sin", "asin"), ("cos", "acos"), ("tan", "atan"), ("exp", "log"), ("log", "exp")):
            return t
        if (name, g) in (("cos", "asin"), ("sin", "acos")):
            return sqrt(sub(const(1), mul(t, t)))
        if g == "atan" and name in ("sin", "cos"):
            h = sqrt(add(const(1), mul(t, t)))
            return div(t, h) if name == "sin" else div(const(1), h)
    if a.op == "mul" and a.args[0].c is not None and a.args[0].c < 0 and name in ("sin", "tan", "cos", "atan", "asin"):
        r = fun(name, mul(const(-a.args[0].c), a.args[1]))
        return r if name == "cos" else mul(const(-1), r)
    if a.c is not None and a.c < 0 and name in ("sin", "tan", "cos", "atan", "asin"):
        r = fun(name, const(-a.c))
        return r if name == "cos" else mul(const(-1), r)
    return _mk("fun", name, a)


def fun2(name, a, b):
    return _mk("fun2", name, a, b)


def cmp(op, a, b):
    if a.op == "undef" or b.op == "undef":
        return false()
    if a is b:
        return true() if op in ("le", "eq") else false()
    if a.c is not None and b.c is not None:
        r = {"lt": a.c < b.c, "le": a.c <= b.c, "eq": a.c == b.c}[op]
        return true() if r else false()
    if op == "eq":
        a, b = _comm_key(a, b)
    return _mkb(op, a, b)


def snot(b):
    if b.op == "true":
        return false()
    if b.op == "false":
        return true()
    if b.op == "not":
        return b.args[0]
    return _mkb("not", b)


def sand(a, b):
    if a.op == "false" or b.op == "false":
        return false()
    if a.op == "true":
        return b
    if b.op == "true":
        return a
    if a is b:
        return a
    return _mkb("and", a, b)


def sor(a, b):
    return snot(sand(snot(a), snot(b)))


def ite(c, a, b):
    c = liftb(c)
    a, b = lift(a), lift(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op in ("lt", "le"):
        p, q = c.args
        if (a is p and b is q) or (a is q and b is p):  # minimum, maximum
            least = a is p
            p, q = _comm_key(p, q)
            c = cmp("lt", p, q)
            a, b = (p, q) if least else (q, p)
        elif (p.c == 0 or q.c == 0) and add(a, b).c == 0:  # absolute value, or its opposite
            x = q if p.c == 0 else p
            if a is x or b is x:
                pos = (b if q.c == 0 else a) is x
                c = cmp("lt", x, const(0))
                m = mul(const(-1), x)
                a, b = (m, x) if pos else (x, m)
    return _mk("ite", c, a, b)


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(cmp("lt", a, b), b, a)


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(cmp("lt", b, a), b, a)


def sabs(a):
    a = lift(a)
    return ite(cmp("lt", a, const(0)), mul(const(-1), a), a)


def ssign(a):
    a = lift(a)
    return ite(cmp("lt", a, const(0)), const(-1), ite(cmp("lt", const(0), a), const(1), const(0)))


# ----------------------------------------------------------------------------------------------- traversal

_FUNS = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "atan": math.atan, "asin": math.asin, "acos": math.acos, "floor": math.floor, "round": round,
    "f32": lambda x: float(_np.float32(x)),
}
_FUNS2 = {"atan2": math.atan2, "hypot": math.hypot}


def children(n):
    return [a for a in n.args if isinstance(a, (Sym, SymBool))]


def topo(roots):
    """Nodes reachable from roots, children first (iterative)."""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(list(roots))]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if id(n) in seen:
            continue
        seen.add(id(n))
        stack.append((n, True))
        for c in children(n):
            if id(c) not in seen:
                stack.append((c, False))
    return out


def variables(roots):
    return sorted({n.args[0] for n in topo(roots) if n.op == "var"})


def eval_op(op, a, num=float):
    """one operation on numbers"""
    if op == "const":
        return num(a[0])
    elif op == "undef":
        return math.nan
    elif op == "add":
        return a[0] + a[1]
    elif op == "mul":
        return a[0] * a[1]
    elif op == "div":
        return a[0] / a[1]
    elif op == "sqrt":
        return math.sqrt(a[0])
    elif op == "powr":
        return a[0] ** a[1]
    elif op == "fun":
        return _FUNS[a[0]](a[1])
    elif op == "fun2":
        return _FUNS2[a[0]](a[1], a[2])
    elif op == "ite":
        return a[1] if a[0] else a[2]
    elif op == "lt":
        return a[0] < a[1]
    elif op == "le":
        return a[0] <= a[1]
    elif op == "eq":
        return a[0] == a[1]
    elif op == "not":
        return not a[0]
    elif op == "and":
        return a[0] and a[1]
    elif op == "true":
        return True
    elif op == "false":
        return False
    else:
        raise Unsupported(op)


def evaluate(roots, env, num=float):
    """Evaluate in floating point (num=float) or exact rationals (num=Fraction; fails on transcendental nodes)."""
    val = {}
    for n in topo(roots):
        a = [val[id(c)] if isinstance(c, (Sym, SymBool)) else c for c in n.args]
        val[id(n)] = num(env[a[0]]) if n.op == "var" else eval_op(n.op, a, num)
    return [val[id(r)] for r in roots]


def substitute(roots, mapping):
    """mapping: id(node) -> node"""
    new = {}
    for n in topo(roots):
        if id(n) in mapping:
            new[id(n)] = mapping[id(n)]
            continue
        a = [new[id(c)] if isinstance(c, (Sym, SymBool)) else c for c in n.args]
        new[id(n)] = rebuild(n, a)
    return [new[id(r)] for r in roots]


def rebuild(n, a):
    op = n.op
    if op in ("const", "var", "true", "false", "undef"):
        return n
    if all(x is y for x, y in zip(a, n.args)):
        return n
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "sqrt":
        return sqrt(*a)
    if op == "powr":
        return power(*a)
    if op == "fun":
        return fun(*a)
    if op == "fun2":
        return fun2(*a)
    if op == "ite":
        return ite(*a)
    if op in ("lt", "le", "eq"):
        return cmp(op, *a)
    if op == "not":
        return snot(*a)
    if op == "and":
        return sand(*a)
    raise Unsupported(op)


def show(n, depth):
    if isinstance(n, SymBool):
        return showb(n, depth)
    if n.op == "const":
        return str(n.args[0]) if n.args[0].denominator < 10**6 else repr(float(n.args[0]))
    if n.op == "var":
        return n.args[0]
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) if isinstance(a, (Sym, SymBool)) else str(a) for a in n.args]
    sym = {"add": "+", "mul": "*", "div": "/", "powr": "**"}.get(n.op)
    if sym:
        return "(" + sym.join(s) + ")"
    return n.op + "(" + ",".join(s) + ")"


def showb(n, depth):
    if depth == 0:
        return "..."
    s = [show(a, depth - 1) if isinstance(a, (Sym, SymBool)) else str(a) for a in n.args]
    return n.op + "(" + ",".join(s) + ")"
