"""Make numpy (and math) usable on symbolic values: object arrays of `Sym`.

`install()` replaces public numpy functions by wrappers that behave exactly like numpy unless a symbolic value is
involved.  It must run before the repository's modules are imported, so that `from numpy import x` sees the wrappers.
Inside `symbolic()` newly allocated floating-point arrays are object arrays, able to hold symbolic values.
"""

from __future__ import annotations

import contextlib
import math
import operator
import threading

import numpy as np

from . import sym
from .sym import Sym, SymBool, Unsupported

_orig: dict = {}


class _State:
    """Flags of the current thread (simulated ranks are threads); a new thread starts with the main thread's values"""

    def __init__(self):
        self.base = {"on": False, "trig": False, "select": False}
        self.tls = threading.local()

    def __getitem__(self, k):
        d = getattr(self.tls, "d", None)
        return d[k] if d and k in d else self.base[k]

    def __setitem__(self, k, v):
        if threading.current_thread() is threading.main_thread():
            self.base[k] = v
        else:
            if not hasattr(self.tls, "d"):
                self.tls.d = {}
            self.tls.d[k] = v


_state = _State()
_TRIG = {"sin", "cos", "tan", "arctan", "arcsin", "arccos"}


@contextlib.contextmanager
def opaque_trig(on=True):
    """Trigonometric functions of *concrete* numbers become symbols too: what is then shown about them holds for every
    value they could have (subject to sin^2+cos^2=1)."""
    old = _state["trig"]
    _state["trig"] = on
    try:
        yield
    finally:
        _state["trig"] = old


@contextlib.contextmanager
def select_by_path():
    """a[mask] with a symbolic mask is a real selection, each entry of the mask decided by a path"""
    old = _state["select"]
    _state["select"] = True
    try:
        yield
    finally:
        _state["select"] = old


def _opaque_arg(a):
    if isinstance(a, np.ndarray):
        return a.astype(object)
    if isinstance(a, (float, int, np.floating, np.integer)):
        return sym.lift(float(a))
    return a
_installed = False


@contextlib.contextmanager
def symbolic(on=True):
    old = _state["on"]
    _state["on"] = on
    try:
        yield
    finally:
        _state["on"] = old


def _has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def _liftc(x):
    """Element of an object array -> Sym (constants too)"""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return x
    r = sym.lift(x)
    if r is None:
        raise Unsupported(f"value of type {type(x)} in a symbolic array")
    return r


def _num(x):
    if isinstance(x, SymBool):
        return sym.ite(x, sym.const(1), sym.const(0))
    return sym.lift(x) if not isinstance(x, Sym) else x


def _u1(f):
    return np.frompyfunc(lambda x: f(_num(x)), 1, 1)


def _u2(f):
    return np.frompyfunc(lambda x, y: f(_num(x), _num(y)), 2, 1)


def _u2ring(f, op):
    """also for elements of other rings (series, complex pairs), which bring their own operators"""

    def g(x, y):
        a, b = _num(x), _num(y)
        return op(x, y) if a is None or b is None else f(a, b)

    return np.frompyfunc(g, 2, 1)


def _log2(x):
    if x.c is not None and x.c > 0:
        return sym.lift(_orig.get("math.log2", math.log2)(float(x.c)))
    return sym.div(sym.fun("log", x), sym.fun("log", sym.const(2)))


def _fdiv(a, b):
    return sym.fun("floor", sym.div(a, b))


def _atan2(a, b):
    return sym.fun2("atan2", a, b)


def _b2(f):
    return np.frompyfunc(lambda x, y: f(sym.liftb(x), sym.liftb(y)), 2, 1)


_UF = {
    "sqrt": _u1(lambda a: sym.sqrt(a)),
    "exp": _u1(lambda x: sym.fun("exp", x)),
    "floor": _u1(lambda x: sym.fun("floor", x)),
    "ceil": _u1(sym.ceil),
    "rint": _u1(lambda x: sym.fun("round", x)),
    "remainder": _u2(lambda a, b: sym.sub(a, sym.mul(b, sym.fun("floor", sym.div(a, b))))),
    "log": _u1(lambda x: sym.fun("log", x)),
    "log2": _u1(lambda x: _log2(x)),
    "sin": _u1(lambda x: sym.fun("sin", x)),
    "cos": _u1(lambda x: sym.fun("cos", x)),
    "tan": _u1(lambda x: sym.fun("tan", x)),
    "arctan": _u1(lambda x: sym.fun("atan", x)),
    "arcsin": _u1(lambda x: sym.fun("asin", x)),
    "arccos": _u1(lambda x: sym.fun("acos", x)),
    "arctan2": _u2(_atan2),
    "hypot": _u2(lambda a, b: sym.sqrt(sym.add(sym.mul(a, a), sym.mul(b, b)))),
    "absolute": _u1(sym.sabs),
    "fabs": _u1(sym.sabs),
    "sign": _u1(sym.ssign),
    "maximum": _u2(sym.smax),
    "minimum": _u2(sym.smin),
    "fmax": _u2(sym.smax),
    "fmin": _u2(sym.smin),
    "add": _u2ring(sym.add, operator.add),
    "subtract": _u2ring(sym.sub, operator.sub),
    "multiply": _u2ring(sym.mul, operator.mul),
    "divide": _u2ring(sym.div, operator.truediv),
    "true_divide": _u2ring(sym.div, operator.truediv),
    "power": _u2(sym.power),
    "float_power": _u2(sym.power),
    "square": _u1(lambda x: sym.mul(x, x)),
    "reciprocal": _u1(lambda x: sym.div(sym.const(1), x)),
    "negative": _u1(lambda x: sym.mul(sym.const(-1), x)),
    "positive": _u1(lambda x: x),
    "conjugate": _u1(lambda x: x),
    "less": _u2(lambda a, b: sym.cmp("lt", a, b)),
    "less_equal": _u2(lambda a, b: sym.cmp("le", a, b)),
    "greater": _u2(lambda a, b: sym.cmp("lt", b, a)),
    "greater_equal": _u2(lambda a, b: sym.cmp("le", b, a)),
    "equal": _u2(lambda a, b: _equal1(a, b)),
    "not_equal": _u2(lambda a, b: sym.snot(_equal1(a, b))),
    "logical_and": _b2(sym.sand),
    "logical_or": _b2(sym.sor),
    "bitwise_and": _b2(sym.sand),
    "bitwise_or": _b2(sym.sor),
    "logical_not": np.frompyfunc(lambda x: sym.snot(sym.liftb(x)), 1, 1),
    "invert": np.frompyfunc(lambda x: sym.snot(sym.liftb(x)), 1, 1),
    "isnan": np.frompyfunc(lambda x: _isnan1(x), 1, 1),
    "isfinite": np.frompyfunc(lambda x: _isfin1(x), 1, 1),
    "isinf": np.frompyfunc(lambda x: _isinf1(x), 1, 1),
    "floor_divide": _u2(_fdiv),
    "matmul": None,
}


_nan_flags = {}


def set_nan_flag(x, flag):
    """numpy.isnan(x) is the symbolic condition `flag` (the code may only ask, not compute with x)"""
    _nan_flags[id(x)] = (x, flag)


def _flags_in(x):
    """NaN conditions of the flagged values that the expression x is computed from (NaN propagates)"""
    if not _nan_flags or not isinstance(x, Sym):
        return []
    seen, todo, out = set(), [x], []
    while todo:
        n = todo.pop()
        if id(n) in seen or not isinstance(n, (Sym, SymBool)):
            continue
        seen.add(id(n))
        if id(n) in _nan_flags:
            out.append(_nan_flags[id(n)][1])
        else:
            todo.extend(n.args)
    return out


def _isnan1(x):
    fl = _flags_in(x)
    if fl:
        r = fl[0]
        for f in fl[1:]:
            r = sym.sor(r, f)
        return r
    if isinstance(x, Sym):
        return x.op == "undef"
    return False if isinstance(x, SymBool) else bool(np.isnan(float(x)))


def _equal1(a, b):
    r = sym.cmp("eq", a, b)
    for f in _flags_in(a) + _flags_in(b):
        r = sym.sand(r, sym.snot(f))
    return r


def _isinf1(x):
    if isinstance(x, Sym):
        return x.op == "undef"
    return False if isinstance(x, SymBool) else bool(np.isinf(float(x)))


def _isfin1(x):
    if _flags_in(x):
        return sym.snot(sym.liftb(_isnan1(x)))
    return True if isinstance(x, (Sym, SymBool)) else bool(np.isfinite(float(x)))


def ufunc_call(ufunc, inputs, kwargs):
    name = ufunc.__name__
    f = _UF.get(name)
    if f is None:
        if name == "matmul":
            return _orig.get("matmul", np.matmul)(*inputs, **kwargs)
        raise Unsupported(f"ufunc {name}")
    kw = dict(kwargs)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    if kw:
        raise Unsupported(f"ufunc {name} with {list(kw)}")
    if isinstance(out, tuple):
        out = out[0]
    inputs = [np.asarray(i, dtype=object) if isinstance(i, (np.ndarray, np.generic)) else i for i in inputs]
    r = f(*inputs)
    if name in ("isnan", "isfinite", "isinf") and isinstance(r, np.ndarray) and not any(
        isinstance(e, SymBool) for e in r.ravel()
    ):
        r = r.astype(bool)
    if where is not True:
        if out is None:
            raise Unsupported("ufunc where= without out")
        out[...] = _where(np.asarray(where), r, out)
        return out
    if out is not None:
        out[...] = r
        return out
    return r


class Pair:
    """Complex number over terms"""

    __array_priority__ = 2000.0

    def __init__(self, real, imag=0):
        self.real, self.imag = sym.lift(real), sym.lift(imag)

    @staticmethod
    def of(x):
        if isinstance(x, Pair):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return Pair(float(x.real), float(x.imag))
        r = sym.lift(x)
        return None if r is None else Pair(r)

    def __add__(self, o):
        o = Pair.of(o)
        return NotImplemented if o is None else Pair(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __neg__(self):
        return Pair(-self.real, -self.imag)

    def __sub__(self, o):
        o = Pair.of(o)
        return NotImplemented if o is None else Pair(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = Pair.of(o)
        if o is None:
            return NotImplemented
        return Pair(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Pair.of(o)
        if o is None:
            return NotImplemented
        if o.imag.c is not None and o.imag.c == 0:
            return Pair(self.real / o.real, self.imag / o.real)
        d = o.real * o.real + o.imag * o.imag
        return Pair((self.real * o.real + self.imag * o.imag) / d, (self.imag * o.real - self.real * o.imag) / d)

    def __rtruediv__(self, o):
        return Pair.of(o) / self

    def conjugate(self):
        return Pair(self.real, -self.imag)


class SymArray(np.ndarray):
    """Object array of symbolic values: all arithmetic goes through the table above, and boolean masks of symbolic
    conditions work in `a[mask] = v` and `a[mask] op= v`."""

    __array_priority__ = 500.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        base = [i.view(np.ndarray) if isinstance(i, SymArray) else i for i in inputs]
        out = kwargs.get("out")
        if method == "__call__" and _UF.get(ufunc.__name__) is not None:
            r = ufunc_call(ufunc, [_boxed(b) for b in base], kwargs)
            if out is not None:
                return out[0] if isinstance(out, tuple) else out
        else:
            if out is not None:
                kwargs = dict(kwargs)
                kwargs["out"] = tuple(o.view(np.ndarray) if isinstance(o, SymArray) else o for o in out)
            if method == "reduce" and ufunc.__name__ in ("maximum", "minimum", "logical_or", "logical_and"):
                kw = {k: v for k, v in kwargs.items() if k in ("axis", "keepdims")}
                f = _UF[ufunc.__name__]
                if kw.get("axis", 0) is None:
                    r = f.reduce(base[0].ravel())
                else:
                    r = f.reduce(base[0], **kw)
            else:
                base = [b.astype(object) if isinstance(b, np.ndarray) and b.dtype != object else b for b in base]
                r = getattr(ufunc, method)(*base, **kwargs)
            if out is not None:
                return out[0]
        return wrap(r)

    def _mask(self, key):
        if isinstance(key, np.ndarray) and key.dtype == object and key.shape == self.shape[: key.ndim]:
            return np.ndarray.view(key, np.ndarray)
        return None

    def __getitem__(self, key):
        m = self._mask(key)
        if m is not None:
            if _state["select"] or all(isinstance(x, (bool, np.bool_)) or getattr(x, "op", "") in ("true", "false") for x in m.ravel()):
                sel = np.array([bool(x) for x in m.ravel()], dtype=bool).reshape(m.shape)
                return np.ndarray.__getitem__(self, sel)
            if m.shape != self.shape:
                raise Unsupported("partial symbolic mask")
            return self.copy()
        r = np.ndarray.__getitem__(self, key)
        return np.float64(r) if type(r) is float else r  # as an array of floats gives

    def __setitem__(self, key, val):
        m = self._mask(key)
        if m is not None:
            if m.shape != self.shape:
                raise Unsupported("partial symbolic mask")
            np.ndarray.__setitem__(self, Ellipsis, _where(m, val, self))
            return
        np.ndarray.__setitem__(self, key, val)

    def max(self, axis=None, **k):
        return np.max(self, axis)

    def min(self, axis=None, **k):
        return np.min(self, axis)

    def astype(self, dtype, *a, **k):
        if _is_floaty(dtype):
            if dtype is not None and np.dtype(dtype).itemsize < 8:  # loses digits: an opaque function of the value
                return wrap(np.frompyfunc(lambda x: sym.fun("f32", x) if isinstance(x, Sym) else x, 1, 1)(self))
            return self.copy()
        return np.ndarray.astype(self, dtype, *a, **k)

    def conj(self):
        return self

    @property
    def real(self):
        if any(isinstance(x, Pair) for x in self.flat):
            return wrap(np.frompyfunc(lambda x: x.real if isinstance(x, Pair) else x, 1, 1)(np.ndarray.view(self, np.ndarray)))
        return self

    @property
    def imag(self):
        if any(isinstance(x, Pair) for x in self.flat):
            return wrap(np.frompyfunc(lambda x: x.imag if isinstance(x, Pair) else sym.const(0), 1, 1)(np.ndarray.view(self, np.ndarray)))
        return np.zeros_like(self)


def wrap(r):
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    return r


class _Wrapped:
    """Callable stand-in for a numpy ufunc; everything but the call on symbolic data is the original."""

    def __init__(self, orig):
        self._o = orig
        self.__name__ = orig.__name__
        self.__doc__ = orig.__doc__

    def __call__(self, *args, **kwargs):
        nin = self._o.nin
        out = kwargs.get("out")
        if len(args) > nin:
            kwargs = dict(kwargs, out=args[nin])
            args = args[:nin]
            out = kwargs["out"]
        if _state["trig"] and self.__name__ in _TRIG and not any(_has_sym(a) for a in args):
            args = tuple(_opaque_arg(a) for a in args)
        if any(_has_sym(a) for a in args) or (out is not None and _has_sym(out)):
            conv = [np.asarray(a, dtype=object) if isinstance(a, (list, tuple)) else a for a in args]
            conv = [_boxed(a) for a in conv]
            r = ufunc_call(self._o, conv, kwargs)
            if isinstance(r, np.ndarray) and r.ndim == 0 and out is None:
                return r[()]
            return wrap(r)
        return self._o(*args, **kwargs)

    def __getattr__(self, name):
        return getattr(self._o, name)


def _boxed(a):
    if isinstance(a, (Sym, SymBool)):
        b = np.empty((), dtype=object)
        b[()] = a
        return b
    if isinstance(a, np.generic):
        b = np.empty((), dtype=object)
        b[()] = a.item()
        return b
    return a


def _where(cond, *args):
    if not args:
        return _orig["where"](cond)
    x, y = args
    if not (_has_sym(cond) or _has_sym(x) or _has_sym(y)):
        return _orig["where"](cond, x, y)
    f = np.frompyfunc(lambda c, a, b: sym.ite(c, _num(a), _num(b)), 3, 1)
    return wrap(f(_boxed(cond), _boxed(x), _boxed(y)))


_FLOATY = (None, float, np.float64, np.float32, np.double, complex, np.complex128)


def _is_floaty(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fc"
    except TypeError:
        return False


def _alloc(name, fill):
    orig = getattr(np, name)

    def f(shape, dtype=None, *a, **k):
        if _state["on"] and _is_floaty(dtype):
            r = np_empty(shape, dtype=object)
            r[...] = fill
            return wrap(r)
        if dtype is None:
            return orig(shape, *a, **k)
        return orig(shape, dtype, *a, **k)

    f.__name__ = name
    return f


np_empty = np.empty


def _alloc_like(name, fill):
    orig = getattr(np, name)

    def f(a, dtype=None, *args, **k):
        if _has_sym(a) or _state["on"]:
            arr = np.asarray(a)
            d = arr.dtype if dtype is None else np.dtype(dtype)
            if d.kind in "fcO":
                shape = k.get("shape")
                r = np_empty(arr.shape if shape is None else shape, dtype=object)
                r[...] = fill
                return wrap(r)
        if dtype is None:
            return orig(a, *args, **k)
        return orig(a, dtype, *args, **k)

    f.__name__ = name
    return f


def _eye(*a, **k):
    r = _orig["eye"](*a, **k)
    if _state["on"] and r.dtype.kind == "f":
        o = np_empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            o[i] = r[i]
        return wrap(o)
    return r


def _full(shape, fill_value, dtype=None, **k):
    if _has_sym(fill_value) or (_state["on"] and _is_floaty(dtype)):
        r = np_empty(shape, dtype=object)
        r[...] = fill_value
        return wrap(r)
    return _orig["full"](shape, fill_value, dtype, **k)


def _full_like(a, fill_value, dtype=None, **k):
    if _has_sym(a) or _has_sym(fill_value):
        return _full(np.shape(a), fill_value)
    return _orig["full_like"](a, fill_value, dtype, **k)


def _conv(name):
    orig = getattr(np, name)

    def f(a, dtype=None, *args, **k):
        if dtype is not None and _is_floaty(dtype) and _has_sym(a):
            dtype = object
        if isinstance(a, (list, tuple)) and _has_sym(a):
            dtype = object
        if dtype is None:
            return wrap(orig(a, *args, **k))
        return wrap(orig(a, dtype, *args, **k))

    f.__name__ = name
    return f


def _reduce_cmp(name, f2):
    orig = getattr(np, name)

    def f(a, axis=None, *args, **k):
        if not _has_sym(a):
            return orig(a, axis, *args, **k)
        arr = np.asarray(a, dtype=object)
        u = _u2(f2)
        if axis is None:
            return u.reduce(arr.ravel())
        return u.reduce(arr, axis=axis)

    f.__name__ = name
    return f


def _norm(x, ord=None, axis=None, keepdims=False):
    if not _has_sym(x):
        return _orig["norm"](x, ord, axis, keepdims)
    if axis is not None or ord not in (None, 2):
        raise Unsupported("norm of symbolic values")
    v = np.asarray(x, dtype=object).ravel()
    s = sym.const(0)
    for e in v:
        e = _num(e)
        s = sym.add(s, sym.mul(e, e))
    return sym.sqrt(s)


def _any(a, axis=None, *args, **k):
    if not _has_sym(a):
        return _orig["any"](a, axis, *args, **k)
    arr = np.asarray(a, dtype=object)
    u = _b2(sym.sor)
    return u.reduce(arr.ravel()) if axis is None else u.reduce(arr, axis=axis)


def _all(a, axis=None, *args, **k):
    if not _has_sym(a):
        return _orig["all"](a, axis, *args, **k)
    arr = np.asarray(a, dtype=object)
    u = _b2(sym.sand)
    return u.reduce(arr.ravel()) if axis is None else u.reduce(arr, axis=axis)


def _real(x):
    if _has_sym(x):
        return x
    return _orig["real"](x)


def _inner_like(name):
    orig = getattr(np, name)

    def f(a, b, *args, **k):
        if _has_sym(a) or _has_sym(b):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            if name == "vdot":
                return (a.ravel() * b.ravel()).sum()
        return orig(a, b, *args, **k)

    f.__name__ = name
    return f


def _clip(a, lo=None, hi=None, out=None, **k):
    if _has_sym(a) or _has_sym(lo) or _has_sym(hi):
        r = a
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r
    return _orig["clip"](a, lo, hi, out, **k)


def _einsum(*args, **k):
    if _state["on"] or any(_has_sym(a) for a in args):
        k = {kk: v for kk, v in k.items() if kk != "optimize"}
        args = [np.asarray(a, dtype=object).view(np.ndarray) if isinstance(a, np.ndarray) else a for a in args]
    return wrap(_orig["einsum"](*args, **k))


_TAG0, _TAGD = -1.25e200, 1e190
_filed = []


def _save(file, arr, *a, **k):
    """A file holds the 64-bit values of the array: symbolic entries go through it as tags."""
    if _has_sym(arr):
        out = np_empty(np.shape(arr), dtype=float)
        src = np.asarray(arr, dtype=object)
        for i in np.ndindex(*out.shape):
            v = src[i]
            if isinstance(v, Sym):
                _filed.append(v)
                v = _TAG0 - _TAGD * (len(_filed) - 1)
            out[i] = v
        arr = out
    elif isinstance(arr, np.ndarray) and arr.dtype == object:
        arr = np.ndarray.astype(np.asarray(arr), float)
    return _orig["save"](file, arr, *a, **k)


def _load(file, *a, **k):
    r = _orig["load"](file, *a, **k)
    if isinstance(r, np.ndarray) and r.dtype == float and _filed and np.min(r) <= _TAG0 * 0.9:
        out = np_empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            v = float(r[i])
            out[i] = _filed[int(round((_TAG0 - v) / _TAGD))] if v <= _TAG0 * 0.9 else v
        return wrap(out)
    return r


def _count_nonzero(a, axis=None, **k):
    if not _has_sym(a):
        return _orig["count_nonzero"](a, axis, **k)
    arr = np.frompyfunc(lambda x: _num(sym.liftb(x)), 1, 1)(np.asarray(a, dtype=object))
    return np.sum(arr, axis=axis)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name in list(_UF):
        o = getattr(np, name, None)
        if isinstance(o, np.ufunc) and name != "matmul":
            _orig[name] = o
            setattr(np, name, _Wrapped(o))
    np.abs = np.absolute
    np.conj = np.conjugate
    for n in ("acos", "asin", "atan", "atan2", "pow"):
        full = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2", "pow": "power"}[n]
        if hasattr(np, n):
            setattr(np, n, getattr(np, full))
    for n in ("where", "full", "full_like", "any", "all", "real", "clip", "einsum"):
        _orig[n] = getattr(np, n)
    _orig["norm"] = np.linalg.norm
    _orig["save"], _orig["load"] = np.save, np.load
    np.save, np.load = _save, _load
    for n, fill in (("zeros", np.float64(0.0)), ("ones", np.float64(1.0)), ("empty", None)):
        setattr(np, n, _alloc(n, fill))
    for n, fill in (("zeros_like", np.float64(0.0)), ("ones_like", np.float64(1.0)), ("empty_like", None)):
        setattr(np, n, _alloc_like(n, fill))
    _orig["eye"] = np.eye
    np.eye = _eye
    for n in ("array", "asarray", "ascontiguousarray", "asanyarray"):
        setattr(np, n, _conv(n))
    for n, f2 in (("max", sym.smax), ("amax", sym.smax), ("min", sym.smin), ("amin", sym.smin)):
        setattr(np, n, _reduce_cmp(n, f2))
    np.where, np.full, np.full_like = _where, _full, _full_like
    np.any, np.all, np.real, np.clip, np.einsum = _any, _all, _real, _clip, _einsum
    _orig["count_nonzero"] = np.count_nonzero
    np.count_nonzero = _count_nonzero
    np.linalg.norm = _norm
    for n in ("vdot", "inner"):
        setattr(np, n, _inner_like(n))

    def wrapm(name, f):
        o = getattr(math, name)
        _orig["math." + name] = o

        def g(*a):
            if _state["trig"] and name in ("sin", "cos", "tan", "atan", "asin", "acos", "atan2"):
                a = tuple(_opaque_arg(x) for x in a)
            if any(isinstance(x, (Sym, SymBool)) for x in a):
                return f(*[_num(x) for x in a])
            return o(*a)

        g.__name__ = name
        setattr(math, name, g)

    for n in ("sin", "cos", "tan", "exp", "log", "atan", "asin", "acos"):
        wrapm(n, lambda x, n=n: sym.fun(n, x))
    wrapm("floor", lambda x: sym.fun("floor", x))
    wrapm("ceil", sym.ceil)
    wrapm("trunc", sym.trunc)
    wrapm("sqrt", lambda a: sym.sqrt(a))
    wrapm("fabs", sym.sabs)
    wrapm("atan2", lambda a, b: sym.fun2("atan2", a, b))
    wrapm("hypot", lambda a, b: sym.sqrt(sym.add(sym.mul(a, a), sym.mul(b, b))))
    wrapm("pow", sym.power)
    wrapm("copysign", lambda a, b: sym.ite(sym.cmp("lt", sym.lift(b), sym.const(0)), sym.sub(sym.const(0), sym.sabs(sym.lift(a))), sym.sabs(sym.lift(a))))
    wrapm("log2", _log2)
    wrapm("isnan", _isnan1)
    wrapm("isfinite", _isfin1)
    wrapm("isinf", lambda x: False)


def symarray_unused(prefix, shape):
    a = np_empty(shape, dtype=object)
    it = np.ndindex(*a.shape) if a.shape else [()]
    for idx in it:
        a[idx] = sym.var(prefix + "".join(f"_{i}" for i in idx))
    return a
