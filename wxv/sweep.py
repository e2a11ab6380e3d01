"""Deciding large equalities by sweeping: sub-expressions that agree are shown equal bottom-up, each with z3, and sums that
are used by non-linear operations are replaced by fresh variables once their equal partners have been merged.

Replacing a term by a variable generalises the claim, so `proved` stays a proof; numerical signatures only choose which
pairs of sub-expressions to try.
"""

from __future__ import annotations

import math
import random
from fractions import Fraction

import z3

from . import sym
from .solver import Normal, Result, ToZ3, TooBig
from .sym import Sym, SymBool

POINTS = 3


class Sweep:
    def __init__(self, prover, seed=7):
        self.p = prover
        self.rng = random.Random(seed)
        self.env = [{} for _ in range(POINTS)]
        self.sig = {}
        self.rep = {}
        self.closed = {}
        self.defs = {}
        self.bucket = {}
        self.normal = Normal(limit=4000)
        self.keep = []
        self.assumed = {}
        self.level = {}

    # --- numerical signatures
    def value(self, name, k):
        v = self.env[k].get(name)
        if v is None:
            lo, hi = self.p.range_of(name)
            v = self.env[k][name] = Fraction(round(self.rng.uniform(float(lo), float(hi)) * 4096), 4096)
        return v

    def signature(self, root):
        for n in self._order(root, self.sig):
            self.sig[id(n)] = tuple(self._eval(n, k) for k in range(POINTS))
            self.keep.append(n)
        return self.sig[id(root)]

    def _order(self, root, done):
        out, seen, stack = [], set(), [(root, False)]
        while stack:
            n, d = stack.pop()
            if d:
                out.append(n)
                continue
            if id(n) in done or id(n) in seen:
                continue
            seen.add(id(n))
            stack.append((n, True))
            for c in sym.children(n):
                stack.append((c, False))
        return out

    def _eval(self, n, k):
        if n.op == "var":
            return float(self.value(n.args[0], k))
        a = [self.sig[id(c)][k] if isinstance(c, (Sym, SymBool)) else c for c in n.args]
        try:
            return sym.eval_op(n.op, a, float)
        except (ArithmeticError, ValueError, TypeError, OverflowError):
            return math.nan

    # --- rewriting
    def close(self, r):
        """r as an argument of a non-linear operation: a constant times an atom"""
        c = self.closed.get(id(r))
        if c is not None:
            return c
        if isinstance(r, SymBool):
            c = r
        elif r.op == "add":
            c = sym.var(f"!cut{len(self.defs)}")
            self.defs[c.args[0]] = r
            self.level[id(c)] = r
        elif r.op == "mul" and r.args[0].c is not None and r.args[1].op == "add":
            c = sym.mul(r.args[0], self.close(r.args[1]))
        else:
            c = r
        self.closed[id(r)] = c
        self.keep += [r, c]
        return c

    def rewrite(self, root):
        for n in self._order(root, self.rep):
            self.rep[id(n)] = self._one(n)
            self.keep.append(n)
        return self.rep[id(root)]

    def _one(self, n):
        if n.op in ("const", "var", "true", "false", "undef"):
            return n
        a = [self.rep[id(c)] if isinstance(c, (Sym, SymBool)) else c for c in n.args]
        linear = n.op == "add" or (n.op == "mul" and n.args[0].c is not None)
        if not linear:
            a = [self.close(x) if isinstance(x, Sym) else x for x in a]
        r = sym.rebuild(n, a)
        if isinstance(r, SymBool) or r.op in ("const", "var"):
            return r
        s = self.signature(n)
        if any(isinstance(x, float) and math.isnan(x) for x in s):
            return r
        if r.op == "ite":
            for br, cond in ((1, r.args[0]), (2, sym.snot(r.args[0]))):
                if self._same(s, self.sig.get(id(n.args[br]))) and self.implied(cond):
                    r = self.rep[id(n.args[br])]
                    break
        key = tuple(f"{x:.5e}" for x in s)
        cand = self.bucket.setdefault(key, [])
        for c in cand:
            if c is r:
                return r
        for c in cand:
            if self.equal(r, c):
                return c
        cand.append(r)
        self.keep.append(r)
        return r

    @staticmethod
    def _same(s, t):
        return t is not None and all(
            isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= 1e-9 * (1e-30 + abs(x) + abs(y))
            for x, y in zip(s, t)
        )

    def implied(self, cond):
        """cond follows from the assumptions (z3)"""
        if cond.op == "true":
            return True
        k = id(cond)
        if k not in self.assumed:
            self.keep.append(cond)
            names = set(sym.variables([cond]))
            rel = [c for c in self.ass if set(sym.variables([c])) <= names]
            t = ToZ3()
            cs = [t(c) for c in rel] + [z3.Not(t(cond))]
            r, _ = self.p._check(t.side + cs, 2)
            self.assumed[k] = r == z3.unsat
        return self.assumed[k]

    def expand(self, a, b):
        """replace cut variables by their definitions: the most recent ones that only one side mentions"""
        num = lambda v: int(v[4:])
        va = {v for v in sym.variables([a]) if v in self.defs}
        vb = {v for v in sym.variables([b]) if v in self.defs}
        if not va and not vb:
            return None
        ma, mb = max(map(num, va), default=-1), max(map(num, vb), default=-1)
        if ma > mb:
            names = {v for v in va if num(v) > mb and v not in vb}
        elif mb > ma:
            names = {v for v in vb if num(v) > ma and v not in va}
        else:
            d = va ^ vb
            names = {max(d or va, key=num)}
        return sym.substitute([a, b], {id(sym.var(v)): self.defs[v] for v in names})

    def equal(self, a, b):
        for depth in range(8):
            try:
                d = sym.sub(a, b)
                p, _ = self.normal.frac(d)
                p = self.normal.reduce(p)
                if not p.t:
                    r, _ = self.p._check([z3.RealVal(0) != 0])
                    return True
                saved, self.p.normal = self.p.normal, self.normal
                try:
                    if self.p.rounding(a, b, p):
                        return True
                finally:
                    self.p.normal = saved
            except (TooBig, ZeroDivisionError):
                return False
            ab = self.expand(a, b)
            if ab is None:
                return False
            a, b = ab
        return False

    # --- claims
    def prove(self, name, lhs, rhs, assume):
        self.ass = []
        sl, sr = self.signature(lhs), self.signature(rhs)
        for k in range(POINTS):
            x, y = sl[k], sr[k]
            if math.isnan(x) or math.isnan(y):
                continue
            if abs(x - y) > 1e-6 * (abs(x) + abs(y)) and abs(x - y) > 1e-9:
                if all(self.signature(c)[k] is True or self.signature(c)[k] == True for c in assume):  # noqa: E712
                    env = {v: self.value(v, k) for v in sym.variables([lhs, rhs] + list(assume))}
                    return Result("refuted", name, env, "model (sampled slice)")
        self.ass = []
        base = [self.rewrite(c) for c in assume]
        self.ass = base
        a, b = self.rewrite(lhs), self.rewrite(rhs)
        if a is b or self.equal(a, b):
            if a is b:
                self.p._check([z3.RealVal(0) != 0])
            return Result("proved", name)
        return None
