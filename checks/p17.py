"""P17: what the linear solver (FGMRES) returns belongs together, and all processes agree on it."""

import contextlib
import importlib

from wxv import explore, symla
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World, fake_device
from wxv.simu import quiet

symla.install()


def device(comm):
    d = fake_device(comm)
    d.xalg = symla.algebra()
    return d


def dot(a, b):
    t = 0
    for x, y in zip(np.asarray(a, dtype=object).ravel(), np.asarray(b, dtype=object).ravel()):
        t = t + x * y
    return t


@contextlib.contextmanager
def rotation(inp):
    """On symbols, rotg is taken by its specification, which the harness 'rotation' decides on its own (fewer paths)"""
    mod = importlib.import_module("solvers.fgmres")
    if not inp.symbolic or not hasattr(mod, "rotg"):
        yield
        return
    saved = mod.rotg

    def rotg(a, b):
        r = (a * a + b * b).sqrt() if sym.is_sym(a) or sym.is_sym(b) else saved(a, b)[2]
        return a / r, b / r, r

    mod.rotg = rotg
    try:
        yield
    finally:
        mod.rotg = saved


def free(inp, name, n, active):
    """n values of which the first ones are 0 and the last `active` ones free"""
    out = inp.const_array(np.zeros(n)).copy()
    for i in range(n - active, n):
        out[i] = inp.real(f"{name}_{i}", -2, 2)
    return out


class Op:
    """An arbitrary operator: anything may come back from each call"""

    def __init__(self, inp, name, n, active):
        self.inp, self.name, self.n, self.active, self.calls = inp, name, n, active, []

    def __call__(self, v):
        out = free(self.inp, f"{self.name}{len(self.calls)}", self.n, self.active)
        self.calls.append((np.array(v).copy(), out))
        return out.copy()


def arbitrary(nproc, n, restart, maxiter, guess, order=None, hegedus=False, precond=False, active=None, generic=False):
    """Whatever the operator does: residual, norms, flag and number of iterations of the vector returned"""

    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        act = active or (n,) * nproc
        bs = {r: free(inp, f"b{r}", n, act[r]) for r in range(nproc)}
        x0s = {r: free(inp, f"x{r}", n, act[r]) for r in range(nproc)}
        tol = inp.real("tol", 1e-6, 0.5)
        inp.assume(tol > 0)
        nb2 = sum((dot(bs[r], bs[r]) for r in range(nproc)), 0)
        inp.assume(nb2 > 0)
        ops = {r: Op(inp, f"A{r}_", n, act[r]) for r in range(nproc)}
        pre = {r: Op(inp, f"M{r}_", n, act[r]) for r in range(nproc)}

        def body(rank, comm):
            kw = dict(tol=tol, restart=restart, maxiter=maxiter, device=device(comm), hegedus=hegedus)
            if guess:
                kw["x0"] = x0s[rank].copy()
            if precond:
                kw["preconditioner"] = pre[rank]
            b = bs[rank].copy()
            out = fg(ops[rank], b, **kw)
            return out, b, kw.get("x0")

        with quiet(), symnp.select_by_path(), rotation(inp), explore.generic() if generic else contextlib.nullcontext():
            res = World(nproc, order=order).run(body)
        res = returned(inp, cl, res)
        if res is None:
            return
        rr2 = 0
        for r in range(nproc):
            (x, nr, nb, it, flag, hist), b, x0 = res[r]
            if not ops[r].calls:
                cl.fail(f"process {r}: the operator is applied to the result", "never applied")
                return
            arg, out = ops[r].calls[-1]
            cl.eq(f"process {r}: the residual is that of the vector returned", np.asarray(arg).ravel(), np.asarray(x).ravel())
            rr2 = rr2 + dot(bs[r] - out, bs[r] - out)
            cl.eq(f"process {r}: right-hand side untouched", b, bs[r])
            if guess:
                cl.eq(f"process {r}: initial guess untouched", x0, x0s[r])
        first = res[0][0]
        for r in range(nproc):
            (x, nr, nb, it, flag, hist), _, _ = res[r]
            cl.eq(f"process {r}: norm of the residual", nr * nr, rr2)
            cl.holds(f"process {r}: norm of the residual is not negative", nr >= 0)
            cl.eq(f"process {r}: norm of the right-hand side", nb * nb, nb2)
            cl.holds(f"process {r}: norm of the right-hand side is not negative", nb >= 0)
            cl.eq(f"process {r}: last entry of the history", hist[-1][0] * nb, nr)
            cl.eq(f"process {r}: same number of iterations", it, first[3])
            cl.eq(f"process {r}: same flag", flag, first[4])
            cl.eq(f"process {r}: operator applied equally often", len(ops[r].calls), len(ops[0].calls))
            if flag == 0:
                cl.holds(f"process {r}: converged only within the tolerance", nr < tol * nb)
            elif flag != -1:
                cl.fail(f"process {r}: flag", f"{flag!r}")

    return run


def zero_rhs(nproc, n):
    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        x0s = {r: inp.array(f"x{r}_", (n,), -2, 2) for r in range(nproc)}
        ops = {r: Op(inp, f"A{r}_", n, n) for r in range(nproc)}

        def body(rank, comm):
            return fg(ops[rank], inp.const_array(np.zeros(n)), x0=x0s[rank].copy(), restart=1, maxiter=2, device=device(comm))

        with quiet():
            res = World(nproc).run(body)
        for r in range(nproc):
            if res[r][0] != "ok":
                cl.fail(f"process {r} returns", repr(res[r][1]))
                continue
            x, nr, nb, it, flag, hist = res[r][1]
            cl.eq(f"process {r}: zero", x, np.zeros(n))
            cl.eq(f"process {r}: norms", np.array([nr, nb]), np.zeros(2))
            cl.eq(f"process {r}: flag", flag, 0)

    return run


def exact_guess(nproc, n):
    """The initial guess solves the system: it is the result"""

    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        x0s = {r: inp.array(f"x{r}_", (n,), 0.5, 2, bounded=True) for r in range(nproc)}
        bs = {r: inp.array(f"b{r}_", (n,), 0.5, 2, bounded=True) for r in range(nproc)}

        def body(rank, comm):
            def A(v):
                return bs[rank].copy()

            return fg(A, bs[rank].copy(), x0=x0s[rank].copy(), restart=1, maxiter=1, device=device(comm))

        with quiet(), np.errstate(all="ignore"):
            res = World(nproc).run(body)
        for r in range(nproc):
            if res[r][0] != "ok":
                cl.fail(f"process {r} returns", repr(res[r][1]))
                continue
            x, nr, nb, it, flag, hist = res[r][1]
            cl.eq(f"process {r}: result", x, x0s[r])
            cl.eq(f"process {r}: residual", nr, 0.0)
            cl.eq(f"process {r}: flag", flag, 0)

    return run


def start(nproc, hegedus, maxiter=0):
    """Before the first cycle: the guess (rescaled to the smallest residual), its residual in the history; then the search starts from it"""
    n = 2

    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        M = {r: inp.array(f"a{r}_", (n, n), -1, 1) for r in range(nproc)}
        bs = {r: inp.array(f"b{r}_", (n,), -2, 2) for r in range(nproc)}
        x0s = {r: inp.array(f"x{r}_", (n,), -2, 2) for r in range(nproc)}
        first = {}

        def body(rank, comm):
            def pre(v):
                first.setdefault(rank, np.array(v).copy())
                return v.copy()

            return fg(lambda v: M[rank] @ v, bs[rank].copy(), x0=x0s[rank].copy(), tol=1e-30, restart=1, maxiter=maxiter,
                      hegedus=hegedus, preconditioner=pre, device=device(comm))

        inp.assume(sum((dot(bs[r], bs[r]) for r in bs), 0) > 0)
        with quiet(), symnp.select_by_path(), rotation(inp), explore.generic():
            res = returned(inp, cl, World(nproc).run(body))
        if res is None:
            return
        Ax = {r: M[r] @ x0s[r] for r in x0s}
        aa, ba = sum((dot(Ax[r], Ax[r]) for r in Ax), 0), sum((dot(bs[r], Ax[r]) for r in Ax), 0)
        # residual of the rescaled guess, times aa
        k = ba if hegedus else aa
        rr = {r: bs[r] * aa - Ax[r] * k for r in Ax}
        for r in res:
            x, nr, nb, it, flag, hist = res[r]
            cl.eq(f"process {r}: residual of the guess in the history", hist[0][0] * hist[0][0] * nb * nb * aa * aa, sum((dot(rr[q], rr[q]) for q in rr), 0))
            if maxiter == 0:
                cl.eq(f"process {r}: guess", np.asarray(x) * aa, x0s[r] * k)
            for i in range(n):
                if r in first:
                    cl.eq(f"process {r}: the search starts along the residual [{i}]", first[r][i] * hist[0][0] * nb * aa, rr[r][i])

    return run


def exact_breakdown(res):
    return res[0] == "raise" and isinstance(res[1], ZeroDivisionError) and "symbolic" in str(res[1])


def returned(inp, cl, res):
    """Results of all processes, or None"""
    for r in res:
        if res[r][0] == "ok":
            continue
        if isinstance(res[r][1], sym.Unsupported):
            raise res[r][1]
        if inp.symbolic and any(exact_breakdown(res[q]) for q in res):
            return None
        cl.fail(f"process {r} returns", repr(res[r][1]))
        return None
    return {r: res[r][1] for r in res}


def optimal(where, nloc, nproc, restart, guess=False):
    """A linear operator, in the basis in which its Krylov matrix is Hessenberg (every operator has one): the update is the
    least-squares optimum over the Krylov space. `where`: places of the first basis vectors in the distributed vector"""
    n = nproc * nloc
    k = restart + 1

    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        M = inp.const_array(np.zeros((n, n))).copy()
        for i in range(k):
            for j in range(k):
                if i <= j + 1:
                    M[where[i], where[j]] = inp.real(f"a{i}{j}", 0.25 if i == j + 1 else -2, 2, bounded=True)
        beta = inp.real("beta", 0.5, 2, bounded=True)
        # the operator at the initial guess is free as well; right-hand side = that + beta e_0
        g = inp.array("g", (n,), -2, 2) if guess else inp.const_array(np.zeros(n))
        if guess:
            g[where[0]] = sym.const(0) if inp.symbolic else 0.0
        b = g.copy()
        b[where[0]] = beta
        x0 = inp.array("x", (n,), -2, 2) if guess else inp.const_array(np.zeros(n))

        def body(rank, comm):
            sl = slice(rank * nloc, (rank + 1) * nloc)
            calls = []

            def A(v):
                calls.append(0)
                whole = np.concatenate([np.asarray(p) for p in comm.allgather(np.asarray(v).copy())])
                return g[sl].copy() if len(calls) == 1 else (M @ whole)[sl]

            kw = dict(tol=1e-30, restart=restart, maxiter=1, device=device(comm))
            if guess:
                kw["x0"] = x0[sl].copy()
            return fg(A, b[sl].copy(), **kw)

        with quiet(), symnp.select_by_path(), rotation(inp), explore.generic():
            res = returned(inp, cl, World(nproc).run(body))
        if res is None:
            return
        if any(res[r][3] != restart for r in res):
            return  # ended before: nothing left to gain
        d = np.concatenate([np.asarray(res[r][0]) for r in range(nproc)]) - x0
        rr = inp.const_array(np.zeros(n)).copy()
        rr[where[0]] = beta
        rr = rr - M @ d
        for j in range(restart):
            cl.eq(f"residual orthogonal to the image of direction {j}", dot(rr, M[:, where[j]]), 0.0)
        for i in range(n):
            if i not in where[:restart]:
                cl.eq(f"update within the Krylov space [{i}]", d[i], 0.0)

    return run


def optimal_free(precond):
    """The same for a full matrix of free entries, one iteration, with a diagonal preconditioner of free entries"""
    n = 2

    def run(inp, cl):
        fg = importlib.import_module("solvers.fgmres").fgmres
        M = inp.array("a", (n, n), -1, 1)
        b = inp.array("b", (n,), -2, 2)
        P = inp.array("p", (n,), 0.5, 2) if precond else inp.const_array(np.ones(n))
        inp.assume(dot(b, b) > 0)

        def body(rank, comm):
            kw = dict(tol=1e-30, restart=1, maxiter=1, device=device(comm))
            if precond:
                kw["preconditioner"] = lambda v: P * v
            return fg(lambda v: M @ v, b.copy(), **kw)[0]

        with quiet(), symnp.select_by_path(), rotation(inp), explore.generic():
            res = returned(inp, cl, World(1).run(body))
        if res is None:
            return
        x = np.asarray(res[0])
        z = P * b
        cl.eq("residual orthogonal to the image of the direction", dot(b - M @ x, M @ z), 0.0)
        cl.eq("update along the preconditioned residual", x[0] * z[1], x[1] * z[0])

    return run


def givens():
    def run(inp, cl):
        rotg = importlib.import_module("solvers.fgmres").rotg
        a, b = inp.real("a", -2, 2), inp.real("b", -2, 2)
        c, s, r = rotg(a, b)
        cl.eq("rotates onto the axis", c * a + s * b, r)
        cl.eq("and clears the other entry", c * b - s * a, 0.0)
        cl.eq("is a rotation", c * c + s * s, 1.0)

    return run


SUBS = [
    Sub("arbitrary operator, 1 process, restart 1, one cycle", arbitrary(1, 2, 1, 1, False), paths=200),
    Sub("arbitrary operator, 1 process, restart 1, one cycle, guess", arbitrary(1, 2, 1, 1, True), paths=200),
    Sub("arbitrary operator, 1 process, restart 1, two cycles", arbitrary(1, 2, 1, 2, True), paths=400),
    Sub("arbitrary operator, 2 processes, one cycle", arbitrary(2, 2, 1, 1, True, [0, 1]), paths=400),
    Sub("arbitrary operator, 2 processes, two cycles, one of them idle", arbitrary(2, 2, 1, 2, False, [0, 1], active=(1, 0)), paths=400),
    Sub("arbitrary operator, 2 processes, two cycles", arbitrary(2, 2, 1, 2, True, [1, 0], active=(1, 1)), paths=400),
    Sub("arbitrary operator, 1 process, restart 2, one cycle", arbitrary(1, 3, 2, 1, True, generic=True), paths=400),
    Sub("arbitrary operator, 1 process, restart 2, two cycles", arbitrary(1, 3, 2, 2, True, generic=True), paths=400, tier="thorough"),
    Sub("arbitrary operator, 3 processes, restart 1, two cycles", arbitrary(3, 2, 1, 2, True, [2, 0, 1], active=(1, 1, 0), generic=True), paths=400),
    Sub("arbitrary operator and preconditioner", arbitrary(1, 2, 1, 1, True, precond=True), paths=200),
    Sub("arbitrary operator, guess rescaled", arbitrary(1, 2, 1, 1, True, hegedus=True), paths=200),
    Sub("start, 1 process", start(1, False), paths=20),
    Sub("start, guess rescaled, 1 process", start(1, True), paths=20),
    Sub("start, guess rescaled, 2 processes", start(2, True), paths=20),
    Sub("first direction, guess rescaled, 1 process", start(1, True, 1), paths=50),
    Sub("zero right-hand side, 1 process", zero_rhs(1, 2), paths=20),
    Sub("zero right-hand side, 2 processes", zero_rhs(2, 2), paths=20),
    Sub("exact guess, 1 process", exact_guess(1, 2), paths=20),
    Sub("exact guess, 2 processes", exact_guess(2, 2), paths=20),
    Sub("rotation", givens(), paths=30),
    Sub("least squares, full matrix, restart 1", optimal_free(False), paths=50),
    Sub("least squares, full matrix, restart 1, preconditioned", optimal_free(True), paths=50),
    Sub("least squares, 1 process, restart 1, guess", optimal([0, 1], 2, 1, 1, True), paths=50),
    Sub("least squares, 1 process, restart 2", optimal([0, 1, 2], 3, 1, 2), paths=50),
    Sub("least squares, 1 process, restart 2, guess", optimal([2, 0, 1], 3, 1, 2, True), paths=50),
    Sub("least squares, 1 process, restart 3", optimal([0, 2, 1, 3], 4, 1, 3), paths=50, timeout=120, tier="thorough"),
    Sub("least squares, 2 processes, restart 1", optimal([2, 0], 2, 2, 1), paths=50),
    Sub("least squares, 2 processes, restart 2", optimal([0, 3, 1], 3, 2, 2), paths=50),
    Sub("least squares, 2 processes, restart 3", optimal([0, 4, 5, 1], 4, 2, 3), paths=50, tier="thorough"),
]

if __name__ == "__main__":
    main(
        "P17",
        SUBS,
        [
            "real arithmetic (rounding is not modelled); exact breakdown of the Krylov space, which the function's documentation excludes, is outside",
            "MPI is simulated",
        ],
        "The real fgmres runs on free vectors with an operator that returns fresh symbols at each call, or a matrix of free entries.",
        {"processes": "1, 2", "unknowns per process": "2, 3", "restart": "1, 2", "cycles": "1, 2"},
    )
