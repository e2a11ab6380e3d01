"""Deciding claims about symbolic values with z3.

`Prover.prove(claims, assume)` decides equalities `lhs == rhs` and boolean claims for *all* values of the variables that
satisfy the assumptions.  Equalities of rational expressions have their denominators cleared and are brought to a
polynomial normal form modulo the defining equations of the square roots; z3 decides the negated claim.
"""

from __future__ import annotations

import math
import random
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import sym
from .sym import Sym, SymBool, Unsupported


class TooBig(Exception):
    pass


# ------------------------------------------------------------------------------------------------ polynomials


class Poly:
    """Sparse polynomial; monomial = tuple of (atom key, exponent) sorted by key."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(k):
        return Poly({((k, 1),): Fraction(1)})

    def add(self, o, f=1):
        if len(self.t) < len(o.t) and f == 1:
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + f * c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    def mul(self, o, limit=200000):
        if len(self.t) > len(o.t):
            self, o = o, self
        if len(self.t) * len(o.t) > 40 * limit:
            raise TooBig()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mm(m1, m2)
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        if len(t) > limit:
            raise TooBig()
        return Poly(t)

    def scale(self, c):
        return Poly({m: v * c for m, v in self.t.items()} if c else {})

    def pow(self, n):
        r = Poly.const(Fraction(1))
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def key(self):
        return tuple(sorted(self.t.items()))


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


class Normal:
    """Rational normal form of DAG nodes: numerator Poly over a product of denominator factors."""

    def __init__(self, limit=60000):
        self.memo = {}
        self.atoms = {}  # atom key -> node
        self.limit = limit
        self.factors = {}  # factor key -> Poly
        self.count = 0
        self.trig = {}
        self.roots = {}
        self.by_content = {}
        self.keep = []
        self.square_classes = []

    def atom_key(self, node):
        if node.op == "var":
            k = (0, node.args[0])
        else:
            k = (2 if node.op == "sqrt" else 1, id(node))
        self.atoms[k] = node
        return k

    def content(self, num, den):
        """a canonical description of the reduced fraction num/den: ('c', value) if constant, else a key"""
        D = Poly.const(Fraction(1))
        for k, v in den.items():
            D = D.mul(self.factors[k].pow(v), self.limit)
        num, D = self.reduce(num), self.reduce(D)
        if not num.t:
            return ("c", Fraction(0))
        if not D.t:
            return None
        lead = min(D.t)
        c = D.t[lead]
        if lead in num.t:
            r = num.t[lead] / c
            if len(num.t) == len(D.t) and all(D.t.get(m, 0) * r == v for m, v in num.t.items()):
                return ("c", r)
        return ("k", num.scale(1 / c).key(), D.scale(1 / c).key())

    def to_sym(self, p):
        r = None
        for m, c in p.t.items():
            t = sym.const(c)
            for a, e in m:
                t = sym.mul(t, sym.power(self.atoms[a], sym.const(Fraction(e))))
            r = t if r is None else sym.add(r, t)
        return r if r is not None else sym.const(Fraction(0))

    def positive(self, f):
        """factor known to be >= 0 whatever the values: a single square-root atom"""
        if len(f.t) != 1:
            return False
        ((m, c),) = f.t.items()
        return c > 0 and all(self.atoms[a].op == "sqrt" for a, _ in m)

    def const_root(self, q):
        """sqrt of a positive rational: a rational, or a rational times one representative per square class"""
        for base, atom in [(Fraction(1), None)] + self.square_classes:
            r = q / base
            x, y = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if x * x == r.numerator and y * y == r.denominator:
                k = Fraction(x, y)
                return Poly.const(k) if atom is None else Poly.atom(atom).scale(k)
        node = sym.sqrt(sym.const(q))
        self.keep.append(node)
        a = self.atom_key(node)
        self.roots[id(node)] = (Poly.atom(a), {})
        self.square_classes.append((q, a))
        return Poly.atom(a)

    def sqrt_frac(self, node):
        """sqrt node as (polynomial, denominator): equal radicands (as reduced fractions) give the same atom, and
        even powers of positive denominators and rational squares are pulled out"""
        if id(node) in self.roots:
            return self.roots[id(node)]
        res = None
        self.keep.append(node)
        try:
            num, den = self.frac(node.args[0])
            if len(num.t) <= 600:
                out, rest = {}, {}
                for k, v in den.items():
                    if v % 2 == 0 and self.positive(self.factors[k]):
                        out[k] = v // 2
                    else:
                        rest[k] = v
                num = self.reduce(num)
                c = self.content(num, rest)
                q = None
                if c is not None and c[0] == "c":
                    q, num = c[1], Poly.const(Fraction(1))
                elif c is not None and not rest and num.t:
                    q = abs(num.t[min(num.t)])
                if q is not None and q > 0:
                    f = self.const_root(q)
                    if c[0] != "c":
                        num = num.scale(1 / q)
                        c = ("k", num.key(), ())
                        if c not in self.by_content:
                            inner = sym.sqrt(self.to_sym(num))
                            self.by_content[c] = inner
                            self.keep.append(inner)
                            self.roots[id(inner)] = (Poly.atom(self.atom_key(inner)), {})
                        f = f.mul(self.roots[id(self.by_content[c])][0])
                    res = (f, out)
                if res is None and c is not None and not out:
                    first = self.by_content.setdefault(c, node)
                    if first is not node:
                        res = self.roots[id(first)]
        except (TooBig, ZeroDivisionError):
            pass
        if res is None:
            res = (Poly.atom(self.atom_key(node)), {})
        self.roots[id(node)] = res
        return res

    def frac(self, root):
        for n in sym.topo_arith([root]) if False else _topo_arith(root, self.memo):
            self.memo[id(n)] = self._one(n)
        return self.memo[id(root)]

    def _one(self, n):
        op = n.op
        L = self.limit
        if op == "const":
            return (Poly.const(n.args[0]), {})
        if op == "add":
            (p, d), (q, e) = self.memo[id(n.args[0])], self.memo[id(n.args[1])]
            if d == e:
                r = p.add(q)
                if len(r.t) > L:
                    raise TooBig()
                return (r, d)
            l = dict(d)
            for k, v in e.items():
                l[k] = max(l.get(k, 0), v)
            for k, v in l.items():
                if v > d.get(k, 0):
                    p = p.mul(self.factors[k].pow(v - d.get(k, 0)), L)
                if v > e.get(k, 0):
                    q = q.mul(self.factors[k].pow(v - e.get(k, 0)), L)
            return (p.add(q), l)
        if op == "mul":
            (p, d), (q, e) = self.memo[id(n.args[0])], self.memo[id(n.args[1])]
            l = dict(d)
            for k, v in e.items():
                l[k] = l.get(k, 0) + v
            return (p.mul(q, L), l)
        if op == "div":
            (p, d), (q, e) = self.memo[id(n.args[0])], self.memo[id(n.args[1])]
            # p/d / (q/e) = p*e / (d*q)
            for k, v in e.items():
                p = p.mul(self.factors[k].pow(v), L)
            l = dict(d)
            if len(q.t) == 1:  # monomial: split in atoms
                (m, c), = q.t.items()
                p = p.scale(1 / c)
                for a, x in m:
                    f = Poly.atom(a)
                    k = f.key()
                    self.factors[k] = f
                    l[k] = l.get(k, 0) + x
            else:
                if not q.t:
                    raise ZeroDivisionError
                lead = q.t[min(q.t)]
                q = q.scale(1 / lead)
                p = p.scale(1 / lead)
                k = q.key()
                self.factors[k] = q
                l[k] = l.get(k, 0) + 1
            return (p, l)
        if op == "sqrt":
            return self.sqrt_frac(n)
        return (Poly.atom(self.atom_key(n)), {})

    def reduce(self, p):
        """Eliminate even powers of square roots (outermost first), and cos^2 in favour of sin^2."""
        changed = True
        guard = 0
        while changed:
            changed = False
            guard += 1
            if guard > 50:
                raise TooBig()
            top = {}
            for m in p.t:
                for a, e in m:
                    if e >= 2:
                        n = self.atoms.get(a)
                        if n is not None and (n.op == "sqrt" or (n.op == "fun" and n.args[0] == "cos")):
                            top[a] = max(top.get(a, 0), e)
            if not top:
                break
            a = max(top)  # most recently created first is not known; any order terminates
            n = self.atoms[a]
            if n.op == "sqrt":
                num, den = self.frac(n.args[0])
            else:
                s = sym.fun("sin", n.args[1])
                sp = Poly.atom(self.atom_key(s))
                num, den = Poly.const(Fraction(1)).add(sp.mul(sp), -1), {}
            D = Poly.const(Fraction(1))
            for k, v in den.items():
                D = D.mul(self.factors[k].pow(v))
            mx = top[a] // 2
            groups = {}
            for m, c in p.t.items():
                e = 0
                rest = m
                for x in m:
                    if x[0] == a:
                        e = x[1]
                        rest = tuple(y for y in m if y[0] != a)
                if e % 2:
                    rest = _mm(rest, ((a, 1),))
                groups.setdefault(e // 2, {})[rest] = groups.setdefault(e // 2, {}).get(rest, 0) + c
            r = Poly({})
            for h, t in groups.items():
                r = r.add(Poly(t).mul(num.pow(h), self.limit).mul(D.pow(mx - h), self.limit))
            p = r
            changed = True
        return p


def _topo_arith(root, done):
    """children-first over add/mul/div only (atoms are leaves); skips nodes already done"""
    out, seen = [], set()
    stack = [(root, False)]
    while stack:
        n, d = stack.pop()
        if d:
            out.append(n)
            continue
        if id(n) in seen or id(n) in done:
            continue
        seen.add(id(n))
        stack.append((n, True))
        if n.op in ("add", "mul", "div"):
            for c in n.args:
                stack.append((c, False))
    return out


# ------------------------------------------------------------------------------------------------ z3 translation


class ToZ3:
    """DAG -> z3 reals with auxiliary variables for quotients, roots and transcendental terms."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}
        self.atoms = {}  # z3 var name -> node
        self.uf = {}  # (fname) -> list of (args z3, result)

    def var(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Real(name)
        return v

    def fresh(self, n):
        return z3.Real(f"!{n.op}{len(self.memo)}")

    def __call__(self, root):
        for n in sym.topo([root]):
            if id(n) in self.memo:
                continue
            self.memo[id(n)] = self._one(n)
        return self.memo[id(root)]

    def _one(self, n):
        op = n.op
        a = [self.memo[id(c)] if isinstance(c, (Sym, SymBool)) else c for c in n.args]
        if op == "const":
            return z3.RealVal(str(a[0]))
        if op == "var":
            return self.var(a[0])
        if op == "add":
            return a[0] + a[1]
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            q = self.fresh(n)
            self.side.append(q * a[1] == a[0])
            self.side.append(a[1] != 0)
            return q
        if op == "sqrt":
            s = self.fresh(n)
            self.side += [s >= 0, s * s == a[0]]
            return s
        if op == "fun" and a[0] == "floor":
            return z3.ToReal(z3.ToInt(a[1]))
        if op == "fun" and a[0] == "round":  # half to even
            f = z3.ToInt(a[1] + z3.Q(1, 2))
            tie = z3.And(z3.ToReal(f) == a[1] + z3.Q(1, 2), f % 2 == 1)
            return z3.ToReal(z3.If(tie, f - 1, f))
        if op in ("fun", "fun2", "powr"):
            r = self.fresh(n)
            fname = op if op == "powr" else a[0]
            args = a if op == "powr" else a[1:]
            lst = self.uf.setdefault(fname, [])
            for pa, pr in lst:  # congruence
                self.side.append(z3.Implies(z3.And([x == y for x, y in zip(pa, args)]), pr == r))
                if fname in ("exp", "log"):
                    self.side.append((pa[0] < args[0]) == (pr < r))
            lst.append((args, r))
            if fname == "exp":
                self.side.append(r > 0)
                self.side.append(r >= 1 + args[0])
            if fname == "powr":
                self.side.append(z3.Implies(args[0] > 0, r > 0))
            if fname in ("sin", "cos"):
                self.side += [r <= 1, r >= -1]
                other = "cos" if fname == "sin" else "sin"
                for pa, pr in self.uf.get(other, []):
                    self.side.append(z3.Implies(pa[0] == args[0], pr * pr + r * r == 1))
            return r
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        raise Unsupported(op)


def _val(v):
    if v is None:
        return None
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    return None


class Result:
    def __init__(self, status, name=None, env=None, note=""):
        self.status = status  # 'proved' | 'refuted' | 'unknown'
        self.name = name
        self.env = env
        self.note = note

    def __repr__(self):
        return f"Result({self.status}, {self.name}, {self.note})"


class Prover:
    def __init__(self, timeout=20.0, seed=1, ranges=None, default_range=(-2.0, 2.0)):
        self.timeout = timeout
        self.stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "claims": 0, "splits": 0, "raw": 0}
        self.raw_fail = 0
        self.gave_up = 0
        self.ranges = ranges or {}
        self.default_range = default_range
        self.rng = random.Random(seed)
        self.normal = Normal()
        self.sweeping = False
        self.sweep = None

    # --- raw z3
    def _check(self, constraints, timeout=None):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(1000 * (timeout or self.timeout)))
        s.add(constraints)
        r = s.check()
        dt = time.time() - t0
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        self.stats[str(r)] += 1
        return r, s

    def feasible(self, conds, timeout=5):
        """False only if the solver shows the conjunction infeasible."""
        t = ToZ3()
        cs = [t(c) for c in conds]
        r, _ = self._check(t.side + cs, timeout)
        return r != z3.unsat

    def witness(self, conds, timeout=None):
        """A model of the conjunction (reachability witness), or None."""
        t = ToZ3()
        cs = [t(c) for c in conds]
        r, s = self._check(t.side + cs, timeout)
        if r != z3.sat:
            return None
        m = s.model()
        return {n: _val(m.eval(v, model_completion=True)) for n, v in t.vars.items()}

    # --- claims
    def prove_eq(self, name, lhs, rhs, assume=(), depth=0):
        """lhs == rhs for all values satisfying assume"""
        if depth == 0:
            self.stats["claims"] += 1
        lhs, rhs = sym.lift(lhs), sym.lift(rhs)
        diff = sym.sub(lhs, rhs)
        if depth == 0 and self.sweeping and _count(diff, 150) is None:
            from .sweep import Sweep

            if self.sweep is None:
                self.sweep = Sweep(self)
            res = self.sweep.prove(name, lhs, rhs, list(assume))
            if res is not None:
                return res
            if _count(diff, 2000) is None:
                return Result("unknown", name, note="not decided by sweeping")
        # the claim as it stands, when it is small enough for the solver to decide directly
        if self.raw_fail < 4 and diff.op != "const":
            nodes = _count(diff, 80)
            if nodes is not None:
                t = ToZ3()
                neg = t(diff) != 0
                r, _ = self._check(t.side + [neg], 0.5)
                if r == z3.unsat:
                    self.stats["raw"] += 1
                    return Result("proved", name)
                if r == z3.unknown:
                    self.raw_fail += 1
        # normal form with everything non-rational opaque, then the solver's verdict on it
        status = None
        try:
            p, den = self.normal.frac(diff)
            p = self.normal.reduce(p)
            if len(p.t) == 0:
                r, _ = self._check([z3.RealVal(0) != 0])
                return Result("proved", name)
            status = p
            if self.rounding(lhs, rhs, p):
                return Result("proved", name, note="up to rounding of constants")
        except TooBig:
            status = None
        ites = [n for n in sym.topo([diff]) if n.op == "ite"]
        if ites:
            cond = next((n.args[0] for n in ites if not _contains_ite(n.args[0])), None)
            if cond is None or depth > 40:
                return Result("unknown", name, note="ite nest")
            self.stats["splits"] += 1
            best = None
            for v in (True, False):
                c2 = cond if v else sym.snot(cond)
                ass2 = list(assume) + [c2]
                if not self.feasible(ass2, 2):
                    continue
                rep = sym.true() if v else sym.false()
                (d2,) = sym.substitute([diff], {id(cond): rep})
                r = self.prove_eq(name, d2, sym.const(0), ass2, depth + 1)
                if r.status == "refuted":
                    return r
                if r.status == "unknown":
                    best = r
            return best or Result("proved", name)
        # pure rational/opaque claim that is not an identity as it stands
        env = self.sample(diff, assume)
        t = ToZ3()
        cs = [t(c) for c in assume]
        if status is not None and len(status.t) < 400:
            num = self._poly_z3(status, t)
            neg = num != 0
        else:
            neg = t(diff) != 0
        if env is not None:
            # confirm the sampled point with the solver (restricted query: quick)
            fix = [t.var(k) == z3.RealVal(str(v)) for k, v in env.items()]
            r, s = self._check(t.side + cs + [neg] + fix, min(5, self.timeout))
            if r != z3.unsat:
                return Result("refuted", name, env, "model (sampled slice)" if r == z3.sat else "float point")
        r, s = self._check(t.side + cs + [neg], self.timeout if self.gave_up < 3 else min(2.0, self.timeout))
        if r == z3.unknown:
            self.gave_up += 1
        if r == z3.unsat:
            return Result("proved", name)
        if r == z3.sat:
            m = s.model()
            env = {n: _val(m.eval(v, model_completion=True)) for n, v in t.vars.items()}
            if self.confirm(diff, assume, env):
                return Result("refuted", name, env, "model")
            return Result("unknown", name, env, "model does not survive evaluation")
        return Result("unknown", name, note="solver unknown")

    def rounding(self, lhs, rhs, p, rel=Fraction(1, 10**9), tiny=Fraction(1, 10**13)):
        """True if z3 shows that what is left of lhs - rhs comes only from floating-point constants (folded by Python
        before they reached a symbolic value): every coefficient is below `rel` of the coefficients it is the
        difference of, or its monomial is below `tiny` of the largest one on the box of the inputs."""
        if len(p.t) > 3000:
            return False
        (nl, dl), (nr, dr) = self.normal.frac(lhs), self.normal.frac(rhs)
        L = dict(dl)
        for k, v in dr.items():
            L[k] = max(L.get(k, 0), v)
        parts = []
        for n, d in ((nl, dl), (nr, dr)):
            for k, v in L.items():
                if v > d.get(k, 0):
                    n = n.mul(self.normal.factors[k].pow(v - d.get(k, 0)), self.normal.limit)
            parts.append(self.normal.reduce(n))
        A, B = parts
        p = A.add(B, -1)
        big = Fraction(0)
        W = {}
        for q in parts:
            for m, c in q.t.items():
                w = W.get(m)
                if w is None:
                    w = Fraction(1)
                    for a, e in m:
                        lo, hi = self.range_of(a[1]) if a[0] == 0 else (-2.0, 2.0)
                        w *= Fraction(max(abs(lo), abs(hi))).limit_denominator(10**6) ** e
                    W[m] = w
                big = max(big, abs(c) * w)
        if not big:
            return False
        cs, terms, allow = [], [], Fraction(0)
        for m, c in p.t.items():
            w = W.get(m)
            if w is None:
                return False
            mag = max(abs(A.t.get(m, 0)), abs(B.t.get(m, 0)))
            if not (abs(c) <= rel * mag or abs(c) * w <= tiny * big):
                return False
            y = z3.Real(f"y{len(terms)}")
            cs += [y <= z3.RealVal(str(w)), y >= z3.RealVal(str(-w))]
            terms.append(z3.RealVal(str(c)) * y)
            allow += max(rel * mag * w, tiny * big)
        tot = z3.Sum(terms) if terms else z3.RealVal(0)
        T = z3.RealVal(str(allow))
        r, _ = self._check(cs + [z3.Or(tot > T, tot < -T)], 10)
        if r == z3.unsat:
            self.stats["rounded"] = self.stats.get("rounded", 0) + 1
            return True
        return False

    def _poly_z3(self, p, t):
        zs = []
        for m, c in p.t.items():
            term = [z3.RealVal(str(c))]
            for a, e in m:
                node = self.normal.atoms[a]
                x = t(node)
                term += [x] * e
            z = term[0]
            for x in term[1:]:
                z = z * x
            zs.append(z)
        return z3.Sum(zs) if len(zs) > 1 else zs[0]

    def prove(self, name, claim, assume=()):
        """boolean claim for all values satisfying assume"""
        self.stats["claims"] += 1
        claim = sym.liftb(claim)
        if claim.op == "eq":
            self.stats["claims"] -= 1
            return self.prove_eq(name, claim.args[0], claim.args[1], assume)
        t = ToZ3()
        cs = [t(c) for c in assume]
        neg = z3.Not(t(claim))
        r, s = self._check(t.side + cs + [neg])
        if r == z3.unsat:
            return Result("proved", name)
        if r == z3.sat:
            m = s.model()
            env = {n: _val(m.eval(v, model_completion=True)) for n, v in t.vars.items()}
            try:
                full = self._complete(env, [claim] + list(assume))
                vals = sym.evaluate([claim] + list(assume), full)
                if not vals[0] and all(vals[1:]):
                    return Result("refuted", name, env, "model")
            except (ArithmeticError, ValueError, TypeError, OverflowError):
                pass
            return Result("unknown", name, env, "model does not survive evaluation")
        return Result("unknown", name, note="solver unknown")

    def _complete(self, env, roots):
        full = {k: (0 if v is None else v) for k, v in env.items()}
        for v in sym.variables(roots):
            full.setdefault(v, 0)
        return full

    def confirm(self, diff, assume, env):
        try:
            full = self._complete(env, [diff] + list(assume))
            vals = sym.evaluate([diff] + list(assume), full)
        except (ArithmeticError, ValueError, TypeError, OverflowError):
            return False
        return abs(vals[0]) > 1e-12 and all(vals[1:])

    def sample(self, diff, assume, n=60):
        names = sym.variables([diff] + list(assume))
        best = None
        for _ in range(n):
            env = {}
            for v in names:
                lo, hi = self.range_of(v)
                env[v] = Fraction(round(self.rng.uniform(lo, hi) * 64), 64)
            try:
                vals = sym.evaluate([diff] + list(assume), env)
            except (ArithmeticError, ValueError, TypeError, OverflowError):
                continue
            if isinstance(vals[0], complex) or not all(vals[1:]):
                continue
            if best is None or abs(vals[0]) > best[0]:
                best = (abs(vals[0]), env)
        if best is not None and best[0] > 1e-9:
            return best[1]
        return None

    def range_of(self, v):
        r = self.ranges.get(v)
        if r is None:
            for k, rr in self.ranges.items():
                if k.endswith("*") and v.startswith(k[:-1]):
                    return rr
            return self.default_range
        return r


def _count(root, limit):
    """number of nodes below root, or None if above the limit"""
    seen, stack = set(), [root]
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if len(seen) > limit:
            return None
        stack.extend(sym.children(n))
    return len(seen)


def _contains_ite(b):
    return any(n.op == "ite" for n in sym.topo([b]))


def _prove_close(self, name, lhs, rhs, tol, box=1.0, assume=()):
    """|lhs - rhs| <= tol for every assignment with |v| <= box (variables and opaque terms).  Each monomial of the
    normal form is over-approximated by a variable of its own range, so `unsat` is a proof (linear arithmetic)."""
    self.stats["claims"] += 1
    diff = sym.sub(sym.lift(lhs), sym.lift(rhs))
    try:
        p, den = self.normal.frac(diff)
        p = self.normal.reduce(p)
    except TooBig:
        return Result("unknown", name, note="too big")
    if den:
        return Result("unknown", name, note="denominator in a tolerance claim")
    ys, cs, terms = {}, [], []
    for m, c in p.t.items():
        if m == ():
            terms.append(z3.RealVal(str(c)))
            continue
        y = z3.Real(f"m{len(ys)}")
        ys[m] = y
        b = Fraction(1)
        for a, e in m:
            bb = box[self.normal.atoms[a].args[0]] if isinstance(box, dict) else box
            b *= Fraction(bb) ** e
        cs += [y <= z3.RealVal(str(b)), y >= z3.RealVal(str(-b))]
        terms.append(z3.RealVal(str(c)) * y)
    tot = z3.Sum(terms) if terms else z3.RealVal(0)
    T = z3.RealVal(str(Fraction(tol)))
    r, s = self._check(cs + [z3.Or(tot > T, tot < -T)])
    if r == z3.unsat:
        return Result("proved", name)
    if r == z3.sat:
        # the largest monomial alone decides: set its variables to the corner of the box
        names = sym.variables([diff])
        best = None
        for _ in range(200):
            env = {}
            for v in names:
                b = float(box[v]) if isinstance(box, dict) else float(box)
                env[v] = Fraction(self.rng.choice([-1, 1, 1, 0])) * Fraction(b)
            try:
                (d,) = sym.evaluate([diff], env)
            except (ArithmeticError, ValueError, TypeError, OverflowError):
                continue
            if best is None or abs(d) > best[0]:
                best = (abs(d), env)
        if best and best[0] > float(tol):
            return Result("refuted", name, best[1], "model")
        m = s.model()
        return Result("unknown", name, None, "linear relaxation is satisfiable")
    return Result("unknown", name, note="solver unknown")


Prover.prove_close = _prove_close
