"""Path exploration: run a function once per feasible combination of symbolic branch outcomes."""

from __future__ import annotations

import contextlib
import threading

from . import sym
from .sym import SymBool, Unsupported

_tls = threading.local()


class PathLimit(Unsupported):
    pass


class DeadPath(Unsupported):
    """A path that no value can take (found late, because the solver could not exclude a branch before)"""


class _Run:
    def __init__(self, prefix, assume, feasible):
        self.prefix = prefix  # list of bools
        self.taken = []  # list of (cond, bool)
        self.alternatives = []  # prefixes still to explore
        self.assume = assume
        self.feasible = feasible

    def decide(self, cond):
        for c, v in self.taken:
            if c is cond:
                return v
            if c.op == "not" and c.args[0] is cond or cond.op == "not" and cond.args[0] is c:
                return not v
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append((cond, v))
            return v
        if _generic[0] and (cond.op == "eq" or cond.op == "not" and cond.args[0].op == "eq"):
            v = cond.op != "eq"
            self.taken.append((cond, v))
            return v
        pc = self.assume + [c if v else sym.snot(c) for c, v in self.taken]
        t = self.feasible(pc + [cond])
        f = self.feasible(pc + [sym.snot(cond)])
        if t and f:
            self.alternatives.append([v for _, v in self.taken] + [False])
            v = True
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise DeadPath("infeasible path")
        self.taken.append((cond, v))
        return v

    def condition(self):
        return [c if v else sym.snot(c) for c, v in self.taken]


_current = [None]
_generic = [False]


@contextlib.contextmanager
def generic():
    """Values that meet an exact equality are left out: only the side of a branch on which it fails is followed"""
    old, _generic[0] = _generic[0], True
    try:
        yield
    finally:
        _generic[0] = old


def decide(cond: SymBool) -> bool:
    r = _current[0]
    if r is None:
        raise Unsupported(f"branch on a symbolic value outside an exploration: {cond}")
    return r.decide(cond)


def integer(n, limit=64):
    """The code needs a machine integer: one path per feasible value in [-limit, limit]."""
    if n.c is not None:
        return int(n.c)
    for k in sorted(range(-limit, limit + 1), key=abs):
        if decide(sym.cmp("eq", n, sym.const(k))):
            return k
    raise Unsupported("integer out of the explored range")


def paths(fn, assume, feasible, limit=2000):
    """Yield (path condition list, result or exception) for every feasible path of fn()."""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > limit:
            raise PathLimit(f"more than {limit} paths")
        run = _Run(prefix, list(assume), feasible)
        old = _current[0]
        _current[0] = run
        try:
            try:
                res = ("ok", fn())
            except DeadPath:
                work.extend(run.alternatives)
                continue
            except Unsupported:
                raise
            except Exception as e:  # the code under test raised: an outcome like any other
                res = ("raise", e)
        finally:
            _current[0] = old
        work.extend(run.alternatives)
        yield run.condition(), res
