"""P22: the products with the Jacobian that the integrators use are those of the right-hand side's derivative."""

import importlib
import math

from wxv.check import Sub, main, np, sym, symnp

EPS_FD = math.sqrt(np.finfo(np.float32).eps)
EPS_C = math.sqrt(np.finfo(float).eps)


class Rhs:
    """f(q) = c + L q + 1/2 B(q, q) + 1/6 C(q, q, q) with free coefficients (up to the degree given)"""

    def __init__(self, inp, n, degree, shape):
        self.n, self.shape, self.args = n, shape, []
        self.c = inp.array("c", (n,), -1, 1)
        self.L = inp.array("L", (n, n), -1, 1)
        self.B = inp.array("B", (n, n, n), -1, 1) if degree > 1 else None
        self.C = inp.array("C", (n,), -1, 1) if degree > 2 else None  # coefficient of q_i^3 / 6

    def flat(self, q):
        out = []
        for i in range(self.n):
            t = self.c[i]
            for j in range(self.n):
                t = t + q[j] * self.L[i, j]
                if self.B is not None:
                    for k in range(self.n):
                        t = t + q[j] * q[k] * (self.B[i, j, k] * 0.5)
            if self.C is not None:
                t = t + q[i] * q[i] * q[i] * (self.C[i] / 6)
            out.append(t)
        return out

    def __call__(self, Q):
        q = np.asarray(Q).reshape(-1)
        self.args.append(np.shape(Q))
        r = self.flat(list(q))
        if any(isinstance(x, (sym.Sym, symnp.Pair)) for x in r):
            out = np.ndarray((self.n,), dtype=object)
            out[:] = r
            return symnp.wrap(out.reshape(self.shape))
        return np.array(r).reshape(self.shape)

    def jac(self, q, v):
        out = []
        for i in range(self.n):
            t = 0
            for j in range(self.n):
                t = t + self.L[i, j] * v[j]
                if self.B is not None:
                    for k in range(self.n):
                        t = t + self.B[i, j, k] * 0.5 * (q[j] * v[k] + v[j] * q[k])
            if self.C is not None:
                t = t + self.C[i] * 0.5 * q[i] * q[i] * v[i]
            out.append(t)
        return out

    def second(self, q, v):
        """half of the second derivative along v"""
        out = []
        for i in range(self.n):
            t = 0
            if self.B is not None:
                for j in range(self.n):
                    for k in range(self.n):
                        t = t + self.B[i, j, k] * 0.5 * v[j] * v[k]
            if self.C is not None:
                t = t + self.C[i] * 0.5 * q[i] * v[i] * v[i]
            out.append(t)
        return out


def pairs(inp, a):
    if not inp.symbolic:
        return a
    out = np.ndarray(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = symnp.Pair(a[i])
    return symnp.wrap(out)


def reals(x):
    return np.array([v.real if isinstance(v, symnp.Pair) else v for v in np.asarray(x, dtype=object).reshape(-1)], dtype=object)


def product(which, shape, degree, method=None):
    n = int(np.prod(shape))

    def run(inp, cl):
        mod = importlib.import_module("solvers.matvec")
        f = Rhs(inp, n, degree, shape)
        q, v = inp.array("q", (n,), -1, 1), inp.array("v", (n,), -1, 1)
        dt = inp.real("dt", 0.1, 2)
        Q = q.reshape(shape)
        rhs = f(Q)
        cx = method in ("complex", "default")
        Qa, va = (pairs(inp, Q), pairs(inp, v)) if cx else (Q.copy(), v.copy())
        Q0, v0 = Qa.copy(), va.copy()
        if which == "fun":
            out = mod.matvec_fun(va, dt, Qa, rhs, f, method) if method != "default" else mod.matvec_fun(va, dt, Qa, rhs, f)
        elif which == "rat":
            out = mod.matvec_rat(va, dt, Qa, rhs, f)
        else:
            op = mod.MatvecOpRat(dt, Qa, rhs, f)
            out = op(va)
            cl.eq("size of the operator", op.size, n)
            cl.eq("shape of the operator", np.array(op.shape), np.array(shape))
        for s in f.args:
            cl.eq("shape of the state at which the right-hand side is evaluated", np.array(s), np.array(shape))
        cl.eq("shape", np.array(np.shape(out)), np.array([n]))
        cl.eq("state untouched", reals(Qa), reals(Q0))
        cl.eq("vector untouched", reals(va), reals(v0))
        J, S = f.jac(q, v), f.second(q, v)
        third = [f.C[i] / 6 * v[i] * v[i] * v[i] for i in range(n)] if f.C is not None else [0] * n
        if cx:
            want = [dt * (J[i] - EPS_C * EPS_C * third[i]) for i in range(n)]
        else:
            want = [dt * (J[i] + EPS_FD * S[i] + EPS_FD * EPS_FD * third[i]) for i in range(n)]
            if which != "fun":
                want = [v[i] - 0.5 * want[i] for i in range(n)]
        out = reals(out)
        for i in range(n):
            # the step is small: the product is that with the derivative up to the second (third) derivative times the step
            exact = dt * J[i] if which == "fun" else v[i] - 0.5 * dt * J[i]
            if degree == 1 or (cx and degree == 2):
                cl.eq(f"product with the Jacobian [{i}]", out[i], exact)
            else:
                bound = (abs(S[i]) + abs(third[i])) * abs(dt) * (1e-3 if not cx else 1e-7)
                d = out[i] - exact
                cl.holds(f"product with the Jacobian up to the size of the step [{i}]", (d <= bound + 1e-9) & (d >= -bound - 1e-9))

    return run


def difference(shape):
    """Free right-hand side values: the finite difference is taken between the right points"""
    n = int(np.prod(shape))

    def run(inp, cl):
        mod = importlib.import_module("solvers.matvec")
        q, v = inp.array("q", shape, -1, 1), inp.array("v", (n,), -1, 1)
        dt = inp.real("dt", 0.1, 2)
        r0, r1 = inp.array("r", shape, -1, 1), inp.array("s", shape, -1, 1)
        seen = []

        def f(Q):
            seen.append(Q)
            return r1.copy()

        out = mod.matvec_fun(v, dt, q, r0, f, "fd")
        if len(seen) != 1:
            cl.fail("one evaluation", f"{len(seen)}")
            return
        # whatever the step e: the point is q + e v, the result dt (r1 - r0) / e
        d = (seen[0] - q).reshape(-1)
        for i in range(n):
            cl.eq(f"difference quotient [{i}]", np.asarray(out)[i] * d[i], dt * (r1 - r0).reshape(-1)[i] * v[i])

    return run


SUBS = []
for shape, tier in (((2,), "quick"), ((2, 1, 1), "quick"), ((3, 1), "quick"), ((2, 1, 2), "thorough")):
    for m in ("complex", "fd"):
        for d in (1, 2, 3):
            t = "thorough" if (m, shape) == ("fd", (3, 1)) and d > 1 else tier
            SUBS.append(Sub(f"{m}, shape {shape}, degree {d}", product("fun", shape, d, m), tier=t, timeout=10))
    SUBS.append(Sub(f"default method, shape {shape}", product("fun", shape, 2, "default"), tier=tier))
    for d in (1, 2):
        if d == 2 and shape == (3, 1):
            tier = "thorough"
        SUBS.append(Sub(f"rational, shape {shape}, degree {d}", product("rat", shape, d), tier=tier, timeout=10))
        SUBS.append(Sub(f"rational operator, shape {shape}, degree {d}", product("op", shape, d), tier=tier, timeout=10))
    SUBS.append(Sub(f"difference quotient, shape {shape}", difference(shape), tier=tier))

if __name__ == "__main__":
    main(
        "P22",
        SUBS,
        [
            "the right-hand side is a polynomial with free coefficients (degree up to 3); complex numbers are pairs of reals",
            "real arithmetic: the rounding of the difference quotients is not modelled",
        ],
        "The real matvec functions run on free state, vector, step and right-hand-side coefficients.",
        {"unknowns": "2 to 4", "degree": "1 to 3"},
    )
