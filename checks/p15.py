"""P15: every time integrator is consistent with the equation it advances, to its nominal order."""

import contextlib
import importlib
import itertools
import types

from wxv import series, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.series import Field, Ser
from wxv.simu import quiet



def device():
    d = simu.device()
    d.comm = types.SimpleNamespace(rank=0, size=1)
    return d


SOLVERS = ("kiops pmex pmex_1s pmex_ne1s cwy_ne cwy_1s cwy_ne1s icwy_1s icwy_ne icwy_ne1s icwy_neiop dcgs2 kiops_nest exode").split()
CHOICES = ("pmex kiops exode pmex_ne cwy_1s cwy_ne cwy_ne1s dcgs2 icwy_1s icwy_neiop icwy_ne icwy_ne1s kiops_ne pmex_1s pmex_ne1s").split()


def params(**kw):
    p = types.SimpleNamespace(
        tolerance=1e-7, exponential_solver="pmex", jacobian_method="complex", case_number=0, time_integrator="x",
        num_elements_horizontal=1, exode_method="BS3(2)", exode_controller="deadbeat", verbose_solver=0, gmres_restart=20,
        linear_solver="fgmres",
    )
    p.__dict__.update(kw)
    return p


@contextlib.contextmanager
def exact_tools(modname, cl):
    """Krylov solvers replaced by exact phi functions, the Jacobian product by the exact one (their own properties)"""
    mod = importlib.import_module(modname)
    saved = {}

    def put(name, val):
        if hasattr(mod, name):
            saved[name] = getattr(mod, name)
            setattr(mod, name, val)

    def matvec(vec, dt, Q, rhs, rhs_handle, method="complex"):
        f = rhs_handle
        q = [Ser.of(x) for x in np.asarray(Q, dtype=object).reshape(-1)]
        v = [Ser.of(x) for x in np.asarray(vec, dtype=object).reshape(-1)]
        r = series.array(f.value(q))
        for i, (a, b) in enumerate(zip(r, np.asarray(rhs, dtype=object).reshape(-1))):
            cl.eq(f"right-hand side given with the Jacobian [{i}]", np.array(Ser.of(b).c[:-2], dtype=object), np.array(a.c[:-2], dtype=object))
        return series.array([x * dt for x in f.jacobian(q, v)])

    def solve(tau, A, u, *a, **k):
        taus = [tau] if np.ndim(tau) == 0 else list(tau)
        vec = [[Ser.of(x) for x in row] for row in np.asarray(u, dtype=object)]
        out = np.empty((len(taus), len(vec[0])), dtype=object)

        def apply(w):
            return [Ser.of(x) for x in np.asarray(A(series.array(w)), dtype=object).reshape(-1)]

        for i, t in enumerate(taus):
            out[i] = series.phi_sum(1 if t == 1 else float(t), apply, vec)
            if k.get("task1"):
                raise sym.Unsupported("task1")
        return out, (1, 0, 1, 0, 0.0, 10)

    put("matvec_fun", matvec)
    for s in SOLVERS:
        put(s, solve)
    try:
        yield mod
    finally:
        for k, v in saved.items():
            setattr(mod, k, v)


def field(inp, dim, degree):
    q0 = [inp.real(f"q{i}", -1, 1) for i in range(dim)]
    co = []
    for i in range(dim):
        d = {}
        for al in itertools.product(range(degree + 1), repeat=dim):
            if sum(al) <= degree:
                d[al] = inp.real("f%d_%s" % (i, "".join(map(str, al))), -1, 1)
        co.append(d)
    return Field(q0, co)


def start(f, shape=None):
    return series.array(list(f.q0), shape)


def agree(cl, what, got, want, order, tol=None):
    got = [Ser.of(x) for x in np.asarray(got, dtype=object).reshape(-1)]
    cl.eq(what + ": size", len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        for k in range(order + 1):
            cl.eq(f"{what}: component {i}, power {k} of the time step", a.c[k], b.c[k], tol=tol)


def explicit(modname, cls, order, dim, degree):
    def run(inp, cl):
        series.set_order(order + 1)
        f = field(inp, dim, degree)
        C = getattr(importlib.import_module(modname), cls)
        it = C(params(), f, device=device())
        h = Ser([0, 1])
        Q0 = start(f, (dim, 1, 1))
        Q = it.step(Q0, h)
        cl.eq("shape", np.array(np.shape(Q)), np.array((dim, 1, 1)))
        agree(cl, "one step", Q, f.flow(1), order)
        agree(cl, "input state untouched", Q0, [Ser([x]) for x in f.q0], order)
        Q = it.step(Q, h)
        agree(cl, "two steps", Q, f.flow(2), order)

    return run


class Flow:
    """Stand-in for the starting method: the exact solution"""

    def __init__(self, f):
        self.f, self.t = f, 0
        self.steps = []

    def step(self, Q, dt):
        self.steps.append((Q, dt))
        t = self.t
        self.t = t + dt.c[1]
        return series.array(self.f.flow(self.t), np.shape(Q))


def epi(kind, order, solver, nsteps, degree, dim=1):
    """Start-up by the exact flow, then regular steps"""

    def run(inp, cl):
        series.set_order(order + 1)
        f = field(inp, dim, degree)
        mods = "integrators.epi" if kind == "Epi" else "integrators.epi_stiff"
        with exact_tools(mods, cl) as mod, quiet(), symnp.symbolic(True):
            C = getattr(mod, kind)
            flow = Flow(f)
            it = C(params(exponential_solver=solver), order, f, init_method=flow, init_substeps=2, device=device())
            h = Ser([0, 1])
            Q = start(f)
            for k in range(1, nsteps + 1):
                n0 = len(flow.steps)
                Q = it.step(Q, h)
                used = flow.steps[n0:]
                if k <= it.n_prev:
                    cl.eq(f"step {k}: start-up substeps", len(used), 2)
                else:
                    cl.eq(f"step {k}: no start-up substep", len(used), 0)
                    flow.t = k
                agree(cl, f"after {k} steps", Q, f.flow(k), order)

    return run


def epi_default_start(kind, order):
    """The built-in starting procedure is second order, on substeps that add up to the step"""

    def run(inp, cl):
        series.set_order(3)
        f = field(inp, 1, 2)
        mods = "integrators.epi" if kind == "Epi" else "integrators.epi_stiff"
        with exact_tools("integrators.epi", cl), exact_tools(mods, cl) as mod, quiet(), symnp.symbolic(True):
            it = getattr(mod, kind)(params(), order, f, init_substeps=3, device=device())
            Q = start(f)
            for k in range(1, it.n_prev + 2):
                Q = it.step(Q, Ser([0, 1]))
                agree(cl, f"after {k} steps", Q, f.flow(k), 2)

    return run


def epi_dt_change(kind, order):
    """A different time step: the history of the old one is not used"""

    def run(inp, cl):
        series.set_order(order + 1)
        f = field(inp, 1, order)
        mods = "integrators.epi" if kind == "Epi" else "integrators.epi_stiff"
        with exact_tools(mods, cl) as mod, quiet(), symnp.symbolic(True):
            flow = Flow(f)
            it = getattr(mod, kind)(params(), order, f, init_method=flow, init_substeps=1, device=device())
            Q = start(f)
            t = 0
            half = 0.5
            plan = [1] * (it.n_prev + 1) + [half] * (it.n_prev + 2) + [1]
            for k, d in enumerate(plan):
                flow.t = t
                Q = it.step(Q, Ser([0, d]))
                t = t + d
                agree(cl, f"step {k} (of length {d})", Q, f.flow(t), order)

    return run


def srerk(order, solver, dim, degree):
    def run(inp, cl):
        series.set_order(order + 2)
        f = field(inp, dim, degree)
        with exact_tools("integrators.srerk", cl) as mod, quiet(), symnp.symbolic(True):
            with symnp.symbolic(False):
                it = mod.Srerk(params(exponential_solver=solver), order, f, device=device())
            Q = it.step(start(f), Ser([0, 1]))
            agree(cl, "one step", Q, f.flow(1), order, tol=1e-7)

    return run


# ---- implicit methods: the solver is a stand-in that returns an arbitrary solution of the system it is given


class Rhs:
    """An arbitrary function of the state: equal arguments, equal values"""

    def __init__(self, inp, name):
        self.inp, self.name, self.seen = inp, name, []

    def __call__(self, Q):
        q = np.asarray(Q)
        flat = list(q.reshape(-1))
        for a, v in self.seen:
            if len(a) == len(flat) and all((x is y) or (not sym.is_sym(x) and not sym.is_sym(y) and x == y) for x, y in zip(a, flat)):
                return symnp.wrap(np.array(v, dtype=q.dtype).reshape(q.shape)) if q.dtype == object else np.array(v).reshape(q.shape)
        v = [self.inp.real(f"{self.name}{len(self.seen)}_{i}", -1, 1) for i in range(len(flat))]
        self.seen.append((flat, v))
        out = np.empty(len(flat), dtype=object if self.inp.symbolic else float)
        out[:] = v
        return symnp.wrap(out.reshape(q.shape))


class LinRhs:
    """f(q) = M q + g with arbitrary M, g"""

    def __init__(self, inp, name, n):
        self.M = inp.array(name + "M", (n, n), -1, 1)
        self.g = inp.array(name + "g", n, -1, 1)

    def __call__(self, Q):
        q = np.asarray(Q)
        return (self.M @ q.reshape(-1) + self.g).reshape(q.shape)


@contextlib.contextmanager
def patched(modname, **kw):
    mod = importlib.import_module(modname)
    old = {k: getattr(mod, k) for k in kw if hasattr(mod, k)}
    for k in old:
        setattr(mod, k, kw[k])
    try:
        yield mod
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


def solution_of(inp, name, F, x0, guess):
    """a value x with F(x) = 0: symbolic, or found by Newton's method on numbers"""
    n = int(np.size(x0))
    shape = np.shape(x0)
    if inp.symbolic:
        x = inp.array(name, n, -2, 2).reshape(shape)
        for r in list(np.asarray(F(x)).reshape(-1)):
            inp.assume(sym.lift(r) == 0)
        return x
    return guess(F, np.array(x0, dtype=float), shape)


def newton_numbers(F, x0, shape):
    x = x0.reshape(-1)
    n = x.size
    g = lambda v: np.asarray(F(v.reshape(shape)), dtype=float).reshape(-1)
    for _ in range(60):
        r = g(x)
        J = np.empty((n, n))
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1e-6
            J[:, j] = (g(x + e) - g(x - e)) / 2e-6
        d = np.linalg.solve(J, r)
        x = x - d
        if np.max(np.abs(d)) < 1e-13:
            break
    return x.reshape(shape)


class NumRhs:
    """numbers: a fixed smooth function (Rhs has no derivative there)"""

    def __init__(self, inp, name):
        self.a = inp.real(name + "a", -1, 1)
        self.b = inp.real(name + "b", -1, 1)

    def __call__(self, Q):
        q = np.asarray(Q)
        return self.a + self.b * q + 0.3 * q * q + 0.1 * np.roll(q, 1)


def rhs_of(inp, name="f"):
    return Rhs(inp, name) if inp.symbolic else NumRhs(inp, name)


def implicit(modname, cls, steps, equation, shape=(2, 1, 2)):
    """equation(cl, k, dts, states, f): the claims about step k"""

    def run(inp, cl):
        n = int(np.prod(shape))
        f = rhs_of(inp)
        count = [0]

        def newton(F, x0, *a, **k):
            count[0] += 1
            return solution_of(inp, f"y{count[0]}_", F, x0, newton_numbers), 3, [(0.0, 0.0, 0.0)]

        with patched(modname, newton_krylov=newton) as mod, quiet():
            it = getattr(mod, cls)(params(), f, device=device())
            Q = inp.array("q", shape, -1, 1)
            states, dts = [Q], []
            for k in range(len(steps)):
                dt = inp.real(f"dt{steps[k]}", 0.05, 0.2)
                inp.assume(dt > 0)
                Q0 = Q.copy()
                new = it.step(Q, dt)
                cl.eq(f"step {k}: shape", np.array(np.shape(new)), np.array(shape))
                cl.eq(f"step {k}: previous state untouched", Q, Q0)
                states.append(new)
                dts.append(dt)
                equation(cl, k, dts, states, f)
                Q = new

    return run


def backward_euler(cl, k, dts, s, f):
    cl.eq(f"step {k}", s[k + 1], s[k] + dts[k] * f(s[k + 1]))


def crank_nicolson(cl, k, dts, s, f):
    cl.eq(f"step {k}", s[k + 1], s[k] + dts[k] * 0.5 * (f(s[k + 1]) + f(s[k])))


def bdf2(cl, k, dts, s, f):
    if k == 0:
        backward_euler(cl, k, dts, s, f)
        return
    # derivative at the new time of the parabola through the three states = f(new state)
    h, p = dts[k], dts[k - 1]
    lhs = s[k + 1] * ((2 * h + p) / (h * (h + p))) - s[k] * ((h + p) / (h * p)) + s[k - 1] * (h / (p * (h + p)))
    cl.eq(f"step {k}", lhs * (h * p * (h + p)), f(s[k + 1]) * (h * p * (h + p)))


def imex2(cl, k, dts, s, f):
    pass


def ros2(solver):
    """x with (I - dt/2 J)(x - Q) = dt f(Q), for linear f"""

    def run(inp, cl):
        n = 3
        f = LinRhs(inp, "f", n)
        dt = inp.real("dt", 0.05, 0.2)
        count = [0]

        def lin(A, b, *a, **k):
            F = lambda v: np.asarray(A(v)) - b
            return solution_of(inp, "x", F, np.asarray(b), newton_numbers)

        def fgmres(A, b, *a, **k):
            count[0] += 1
            return lin(A, b), 0.0, 1.0, 3, 0, [(0.0, 0.0, 0.0)]

        def gcrot(A, b, *a, **k):
            count[0] += 1
            return lin(A, b), 0.0, 3, 0, [(0.0, 0.0, 0.0)]

        with patched("integrators.ros2", fgmres=fgmres, gcrot=gcrot) as mod, quiet():
            it = mod.Ros2(params(linear_solver=solver), f, device=device())
            Q = inp.array("q", (n, 1), -1, 1)
            Q0 = Q.copy()
            if inp.symbolic and solver == "gcrot":
                with patched_norm():
                    new = it.step(Q, dt)
            else:
                new = it.step(Q, dt)
            cl.eq("one linear solve", count[0], 1)
            cl.eq("shape", np.array(np.shape(new)), np.array((n, 1)))
            cl.eq("state untouched", Q, Q0)
            d = (new - Q).reshape(-1)
            cl.eq("equation", d - dt * 0.5 * (f.M @ d), dt * f(Q).reshape(-1))

    return run


@contextlib.contextmanager
def patched_norm():
    old = np.linalg.norm
    np.linalg.norm = lambda x, *a, **k: 1.0
    try:
        yield
    finally:
        np.linalg.norm = old


def rosexp2():
    """(I - dt/2 Ji)(x - Q) = dt phi_1(dt (Jf - Ji)) f(Q): here with full = implicit part + nilpotent rest"""

    def run(inp, cl):
        n = 3
        fi = LinRhs(inp, "i", n)
        # the explicit part of the Jacobian is strictly upper triangular, so that phi_1 is a finite sum
        N = np.zeros((n, n), dtype=object if inp.symbolic else float)
        for i in range(n):
            for j in range(i + 1, n):
                N[i, j] = inp.real(f"n{i}{j}", -1, 1)
        N = symnp.wrap(N)
        g = inp.array("e", n, -1, 1)

        def full(Q):
            q = np.asarray(Q).reshape(-1)
            return fi(Q) + (N @ q + g).reshape(np.shape(Q))

        def matvec(vec, dt, Q, rhs, rhs_handle, method="complex"):
            q = np.asarray(Q).reshape(-1)
            v = np.asarray(vec).reshape(-1)
            return dt * (rhs_handle((q + v).reshape(np.shape(Q))) - rhs_handle(Q)).reshape(-1)

        def pmex(tau, A, u, *a, **k):
            cl.eq("exponential over one step", np.asarray(tau, dtype=float), np.array([1.0]))
            w = u[0].copy()
            t = u[0].copy()
            for j in range(1, n + 1):  # phi_0
                t = np.asarray(A(t)) / j
                w = w + t
            t = u[1].copy()
            w = w + t
            for j in range(2, n + 2):  # phi_1
                t = np.asarray(A(t)) / j
                w = w + t
            return w.reshape(1, -1), (1, 0, 1, 0, 0.0, 10)

        def fgmres(A, b, *a, **k):
            F = lambda v: np.asarray(A(v)) - b
            return solution_of(inp, "x", F, np.asarray(b), newton_numbers), 0.0, 1.0, 3, 0, [(0.0, 0.0, 0.0)]

        dt = inp.real("dt", 0.05, 0.2)
        with patched("integrators.rosexp2", fgmres=fgmres, pmex=pmex, matvec_fun=matvec) as mod, quiet():
            it = mod.RosExp2(params(), full, fi, device=device())
            Q = inp.array("q", (n, 1), -1, 1)
            new = it.step(Q, dt)
            d = (new - Q).reshape(-1)
            v = full(Q).reshape(-1)
            w, t = v, v
            for j in range(2, n + 2):
                t = dt * (N @ t) / j
                w = w + t
            cl.eq("equation", d - dt * 0.5 * (fi.M @ d), dt * w)

    return run


def splitting(cls, plan):
    def run(inp, cl):
        mod = importlib.import_module("integrators.splitting")
        log = []

        class S:
            def __init__(self, name):
                self.name = name

            def step(self, Q, dt):
                new = inp.array(f"o{len(log)}", Q.shape, -1, 1)
                log.append((self.name, Q, dt, new))
                return new

        with simu.no_compile():
            it = getattr(mod, cls)(params(), S("a"), S("b"))
        dt = inp.real("dt", 0.1, 0.5)
        Q = inp.array("q", (2, 2), -1, 1)
        new = it.step(Q, dt)
        cl.eq("number of substeps", len(log), len(plan))
        cur = Q
        for k, ((name, frac), (nm, q, d, out)) in enumerate(zip(plan, log)):
            cl.holds(f"substep {k}: scheme", name == nm)
            cl.eq(f"substep {k}: starts from", q, cur)
            cl.eq(f"substep {k}: length", d, dt * frac)
            cur = out
        cl.eq("result", new, cur)

    return run


def clock(inp, cl):
    """simulated time and step count"""
    from integrators.euler1 import Euler1

    f = LinRhs(inp, "f", 2)
    it = Euler1(params(), f, device=device())
    t0 = inp.real("t0", 0, 5)
    it.sim_time = t0
    Q = inp.array("q", 2, -1, 1)
    t = t0
    for k in range(3):
        dt = inp.real(f"dt{k}", 0.1, 1)
        Q = it.step(Q, dt)
        t = t + dt
        cl.eq(f"time after {k + 1} steps", it.sim_time, t)
        cl.eq(f"number of steps after {k + 1}", it.num_completed_steps, k + 1)


SUBS = [
    Sub("euler1", explicit("integrators.euler1", "Euler1", 1, 2, 2)),
    Sub("tvdrk3", explicit("integrators.tvdrk3", "Tvdrk3", 3, 2, 2)),
    Sub("tvdrk3, scalar cubic", explicit("integrators.tvdrk3", "Tvdrk3", 3, 1, 4)),
]
for o, n in ((2, 2), (3, 3), (4, 4), (5, 5), (6, 6)):
    SUBS.append(Sub(f"epi{o}", epi("Epi", o, "pmex", n, o if o < 6 else 4), bounds=f"{n} steps"))
for o in (3, 4):
    SUBS.append(Sub(f"epi{o}, system of 2", epi("Epi", o, "kiops", o, 2, dim=2)))
for s in CHOICES:
    SUBS.append(Sub(f"epi3 with {s}", epi("Epi", 3, s, 2, 2)))
for o in (3, 4, 5, 6):
    SUBS.append(Sub(f"epi_stiff{o}", epi("EpiStiff", o, "pmex", o, o if o < 6 else 4), bounds=f"{o} steps"))
for s in ("kiops", "exode"):
    SUBS.append(Sub(f"epi_stiff4 with {s}", epi("EpiStiff", 4, s, 4, 3)))
for kd, o in (("Epi", 3), ("Epi", 5), ("EpiStiff", 4)):
    SUBS.append(Sub(f"built-in start-up of {kd} {o}", epi_default_start(kd, o)))
    SUBS.append(Sub(f"change of time step, {kd} {o}", epi_dt_change(kd, o)))
for o in (3, 4, 5, 6):
    SUBS.append(Sub(f"srerk{o}", srerk(o, "kiops", 1, min(o, 4)), box=1.0))
SUBS.append(Sub("srerk4, system of 2", srerk(4, "pmex", 2, 2), box=1.0))
for s in CHOICES:
    if s not in ("exode", "pmex_ne"):
        SUBS.append(Sub(f"srerk3 with {s}", srerk(3, s, 1, 2), box=1.0))
SUBS += [
    Sub("backward_euler", implicit("integrators.backward_euler", "BackwardEuler", "ab", backward_euler)),
    Sub("crank_nicolson", implicit("integrators.crank_nicolson", "CrankNicolson", "ab", crank_nicolson)),
    Sub("bdf2, constant step", implicit("integrators.bdf2", "Bdf2", "aaa", bdf2)),
    Sub("bdf2, variable step", implicit("integrators.bdf2", "Bdf2", "aab", bdf2)),
    Sub("ros2 with fgmres", ros2("fgmres")),
    Sub("ros2 with gcrot", ros2("gcrot")),
    Sub("rosexp2", rosexp2()),
    Sub("Strang splitting", splitting("StrangSplitting", [("a", 0.5), ("b", 1), ("a", 0.5)])),
    Sub("Lie splitting", splitting("LieSplitting", [("a", 1), ("b", 1)])),
    Sub("clock", clock),
]

if __name__ == "__main__":
    main(
        "P15",
        SUBS,
        [
            "Krylov solvers return exact phi-function products and Newton/GMRES exact solutions (their own properties)",
            "the right-hand side is a polynomial with free coefficients of the stated degree (explicit and exponential "
            "methods), an arbitrary function (implicit methods) or an arbitrary affine function (Rosenbrock methods)",
        ],
        "Each integrator's step is executed on power series in the time step with symbolic coefficients; z3 decides that "
        "all coefficients up to the nominal order are those of the exact solution, or that the state returned satisfies "
        "the defining equation of the implicit method.",
        {"order": "up to 6", "steps": "up to 8 per history", "state": "1 to 4 components"},
    )
