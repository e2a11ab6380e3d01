"""P16: the exponential solvers return the combination of phi functions, exactly, when the Krylov space is exhausted."""

import contextlib
import importlib
import math
from fractions import Fraction

from wxv import solver, symla
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World, fake_device
from wxv.simu import quiet

symla.install()


def expm(M):
    """Matrix exponential. The matrices here are nilpotent (see below), so that the sum is finite and exact"""
    if not symla._sym(M):
        return symla.scipy.linalg.expm(M)
    M = np.asarray(M, dtype=object)
    n = M.shape[0]
    one = np.ndarray((n, n), dtype=object)
    for i in np.ndindex(n, n):
        one[i] = sym.const(1 if i[0] == i[1] else 0)
    total, term = one.copy(), one
    for k in range(1, n + 1):
        term = mul(term, M) * sym.const(Fraction(1, k))
        total = total + term
    return symnp.wrap(total)


def mul(a, b):
    out = np.ndarray((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            t = sym.const(0)
            for k in range(a.shape[1]):
                t = t + sym.lift(a[i, k]) * sym.lift(b[k, j])
            out[i, j] = t
    return out


@contextlib.contextmanager
def roots(positive):
    """The square root of a square is written as what was squared, for products of the values known to be positive"""
    plain, norm = sym.sqrt, solver.Normal()

    def sqrt(a):
        try:
            num, den = norm.frac(a)
            num = norm.reduce(num)
        except (solver.TooBig, ZeroDivisionError):
            return plain(a)
        norm.keep.append(a)
        if not num.t:
            return sym.const(0)
        powers = {}
        common = None
        for m in num.t:
            common = dict(m) if common is None else {k: min(v, dict(m).get(k, 0)) for k, v in common.items()}
        rest = solver.Poly({tuple((k, v - common.get(k, 0)) for k, v in m if v > common.get(k, 0)): c for m, c in num.t.items()})
        for k, v in common.items():
            powers[k] = powers.get(k, 0) + v
        left = sym.const(1)
        for f, v in den.items():
            t = norm.factors[f].t
            ((m, c),) = t.items() if len(t) == 1 else ((None, None),)
            if m is None:
                left = left * sym.power(norm.to_sym(norm.factors[f]), sym.const(v))
            else:
                assert c == 1 and len(m) == 1
                powers[m[0][0]] = powers.get(m[0][0], 0) - v * m[0][1]
        out, inner = sym.const(1), norm.to_sym(rest) / left
        for k, v in powers.items():
            atom = norm.atoms[k]
            if v % 2 == 0 and atom.op == "var" and atom.args[0] in positive:
                out = out * sym.power(atom, sym.const(v // 2))
            else:
                inner = inner * sym.power(atom, sym.const(v))
        return out * plain(inner)

    sym.sqrt, sym.fold_constants[0] = sqrt, True
    try:
        yield
    finally:
        sym.sqrt, sym.fold_constants[0] = plain, False


def device(comm, expm=expm):
    d = fake_device(comm)
    d.xalg = symla.algebra(expm=expm)
    return d


def nilpotent(inp, n, free=True):
    """A general nilpotent Hessenberg matrix S J S^-1: J a weighted lower shift, S upper triangular with unit diagonal"""
    zero, one = (sym.const(0), sym.const(1)) if inp.symbolic else (0.0, 1.0)
    S = [[one if i == j else zero for j in range(n)] for i in range(n)]
    Si = [[one if i == j else zero for j in range(n)] for i in range(n)]
    J = [[zero] * n for _ in range(n)]
    for i in range(n - 1):
        J[i + 1][i] = inp.real(f"a{i}", 0.25, 1, bounded=True)
    for i in range(n):
        for j in range(i + 1, n):
            if free:
                S[i][j] = inp.real(f"s{i}{j}", -1, 1, bounded=True)
    # inverse of S by back substitution
    for c in range(n):
        for i in range(n - 1, -1, -1):
            t = one if i == c else zero
            for k in range(i + 1, n):
                t = t - S[i][k] * Si[k][c]
            Si[i][c] = t

    def mm(A, B):
        return [[sum((A[i][k] * B[k][j] for k in range(n)), zero) for j in range(n)] for i in range(n)]

    return mm(mm(S, J), Si)


def combination(inp, A, rows, t):
    """sum over k of t^k phi_k(t A) u_k, for a nilpotent A of size n"""
    n = len(rows[0])
    out = [number(inp, 0)] * n
    for k, u in enumerate(rows):
        term = [number(inp, x) for x in u]
        for m in range(n):
            c = number(inp, Fraction(t) ** (m + k) / math.factorial(m + k))
            out = [o + x * c for o, x in zip(out, term)]
            term = [sum((A[i][j] * term[j] for j in range(n)), number(inp, 0)) for i in range(n)]
    return out


def number(inp, x):
    return sym.const(Fraction(x)) if inp.symbolic else float(Fraction(x))


def matrix(inp, rows, cols, nloc):
    u = inp.const_array(np.zeros((len(rows), nloc))).copy()
    for k, r in enumerate(rows):
        for q, i in enumerate(cols):
            if i < len(r):
                u[k, q] = number(inp, r[i])
    return u


def exact(name, n, rows, taus, nproc=1, free=True, **kw):
    """The combination for a free nilpotent operator and the given vectors, at every requested time"""
    rows = [list(r) + ["0"] * (n - len(r)) for r in rows]

    def run(inp, cl):
        fn = getattr(importlib.import_module(f"solvers.{name}"), name)
        nloc = -(-n // nproc)
        A = nilpotent(inp, n, free)

        def body(rank, comm):
            mine = range(rank * nloc, (rank + 1) * nloc)

            def op(v):
                whole = np.concatenate([np.asarray(x) for x in comm.allgather(np.asarray(v).copy())])
                out = inp.const_array(np.zeros(nloc)).copy()
                for q, i in enumerate(mine):
                    if i < n:
                        out[q] = sum((A[i][j] * whole[j] for j in range(n)), 0 * whole[0])
                return out

            u = matrix(inp, rows, mine, nloc)
            u0 = u.copy()
            room = n + len(rows) + 2
            args = dict(tol=1e-9, m_init=room, mmin=room, mmax=room + 1, device=device(comm))
            if name == "kiops":
                args["iop"] = room
            args.update(kw)
            w, stats = fn(np.array([float(Fraction(t)) for t in taus]), op, u, **args)
            return w, u, u0, mine

        with quiet(), symnp.select_by_path(), roots({f"a{i}" for i in range(n)}):
            res = World(nproc).run(body)
        for r in res:
            if res[r][0] != "ok":
                if isinstance(res[r][1], sym.Unsupported):
                    raise res[r][1]
                cl.fail(f"process {r} returns", repr(res[r][1]))
                return
        for r in res:
            w, u, u0, mine = res[r][1]
            cl.eq(f"process {r}: input untouched", u, u0)
            cl.eq(f"process {r}: shape", np.array(np.shape(w)), np.array([len(taus), nloc]))
            for i, t in enumerate(taus):
                want = combination(inp, A, rows, t)
                if kw.get("task1"):
                    want = [x / number(inp, t) for x in want]
                for q, k in enumerate(mine):
                    cl.eq(f"time {t}: value {k}", w[i, q], want[k] if k < n else 0.0)

    return run


def substeps(name, rows, taus, nproc=1):
    """What is left after an accepted substep: the first one is not exhausted, and is rejected once. The exponential it
    asks for is a stand-in (the identity, with an error estimate that is first large, then small), so that the result of
    the substep is the initial vector, and the operator only has to lead out of the space (it is chosen to make the norms
    rational); from there the operator has an exhausted Krylov space, and the second substep is
    exact: it has to continue the problem from the time reached, with the forcing of that time."""
    n, mmax, T = 3, 4, taus[-1]
    rows = [list(r) + ["0"] * (n - len(r)) for r in rows]

    def run(inp, cl):
        fn = getattr(importlib.import_module(f"solvers.{name}"), name)
        nloc = -(-n // nproc)
        a = inp.real("a0", 0.25, 1, bounded=True)
        o = number(inp, 0)
        scale = 2 ** math.ceil(math.log2(max(sum(abs(Fraction(x)) for x in r) for r in rows[1:])))
        first = [[number(inp, Fraction(x) - Fraction(y) * f / scale) for x, y in zip(v, r)]
                 for v, r, f in ((["3/4", 0, 0], rows[1], 1), ([0, "3/5", 0], rows[2], Fraction(4, 5)), ([0, 0, 1], rows[0], 0), ([1, 0, 0], rows[0], 0))]
        second = [[o, o, o], [a, o, o], [o, o, o]]  # e0 -> a e1

        def body(rank, comm):
            mine = range(rank * nloc, (rank + 1) * nloc)
            calls, times = [], []

            def op(v):
                calls.append(1)
                whole = np.concatenate([np.asarray(x) for x in comm.allgather(np.asarray(v).copy())])
                out = inp.const_array(np.zeros(nloc)).copy()
                for q, i in enumerate(mine):
                    if i < n and len(calls) <= mmax:
                        out[q] = first[len(calls) - 1][i]
                    elif i < n:
                        out[q] = sum((second[i][j] * whole[j] for j in range(n)), 0 * whole[0])
                return out

            def stand_in(M):
                if len(calls) > mmax:
                    return expm(M)
                times.append(M[0, -1])
                F = np.eye(M.shape[0])
                F[-2, -1] = 2.0**-28 if len(times) == 1 else 2.0**-90
                return F

            u = matrix(inp, rows, mine, nloc)
            args = dict(tol=1e-9, m_init=mmax, mmin=mmax, mmax=mmax, device=device(comm, stand_in))
            if name == "kiops":
                args["iop"] = mmax + 1
            w, stats = fn(np.array([float(Fraction(t)) for t in taus]), op, u, **args)
            return w, times, mine

        with quiet(), symnp.select_by_path(), roots({"a0"}):
            res = World(nproc).run(body)
        for r in res:
            if res[r][0] != "ok":
                if isinstance(res[r][1], sym.Unsupported):
                    raise res[r][1]
                cl.fail(f"process {r} returns", repr(res[r][1]))
                return
        for r in res:
            w, times, mine = res[r][1]
            part = [Fraction(x.c) if isinstance(x, sym.Sym) else Fraction(float(x)) for x in times]
            reached = Fraction(T) * part[-1] / part[0]
            if len(times) != 2 or not 0 < reached < Fraction(T):
                raise sym.Unsupported("the step control does not follow the scenario")
            forcing = [rows[0]]
            for m in range(1, len(rows)):
                forcing.append([sum((Fraction(rows[k][i]) * reached ** (k - m) / math.factorial(k - m) for k in range(m, len(rows))), Fraction(0)) for i in range(n)])
            for i, t in enumerate(taus):
                want = combination(inp, second, forcing, Fraction(t) - reached)
                for q, k in enumerate(mine):
                    cl.eq(f"time {t}: value {k}", w[i, q], want[k] if k < n else 0.0)

    return run


Z, E0, B = ["0"], ["3/4"], ["-5/12"]

SUBS = []
for s in ("kiops", "pmex"):
    SUBS += [
        Sub(f"{s}: phi_1, 2 unknowns", exact(s, 2, [Z, E0], ["1"]), paths=20),
        Sub(f"{s}: phi_1, 3 unknowns", exact(s, 3, [Z, E0], ["1"]), paths=20),
        Sub(f"{s}: phi_1, 4 unknowns, short step", exact(s, 4, [Z, E0], ["3/8"]), paths=20),
        Sub(f"{s}: phi_1, long step", exact(s, 3, [Z, E0], ["5/2"]), paths=20),
        Sub(f"{s}: phi_1, several times", exact(s, 3, [Z, E0], ["1/4", "1/2", "1"]), paths=20),
        Sub(f"{s}: phi_1, several times, divided by the time", exact(s, 3, [Z, E0], ["1/4", "1/2", "1"], task1=True), paths=20),
        Sub(f"{s}: phi_1, large vector", exact(s, 3, [Z, ["-300"]], ["1"]), paths=20),
        Sub(f"{s}: phi_1, 3 unknowns on 2 processes", exact(s, 3, [Z, E0], ["1/2", "1"], nproc=2), paths=20),
        Sub(f"{s}: phi_1, 3 unknowns on 3 processes", exact(s, 3, [Z, E0], ["1"], nproc=3), paths=20),
        Sub(f"{s}: phi_0 and phi_1", exact(s, 2, [B, E0], ["1/2", "1"], free=False), paths=20),
        Sub(f"{s}: phi_0", exact(s, 2, [E0, Z], ["1"], free=False), paths=20),
        Sub(f"{s}: phi_0, one row", exact(s, 3, [E0], ["1"], free=False), paths=20),
        Sub(f"{s}: phi_1 and phi_2", exact(s, 2, [Z, E0, B], ["1/2", "1"], free=False), paths=20),
        Sub(f"{s}: phi_2 only", exact(s, 2, [Z, Z, E0], ["1"]), paths=20),
        Sub(f"{s}: phi_3 only", exact(s, 2, [Z, Z, Z, E0], ["1"]), paths=20),
        Sub(f"{s}: two substeps, phi_1 and phi_2", substeps(s, [Z, ["9/25"], ["0", "16/25"]], ["15/4"]), paths=20),
        Sub(f"{s}: two substeps, several times", substeps(s, [Z, ["9/25"], ["0", "16/25"]], ["3/2", "9/4", "15/4"]), paths=20),
        Sub(f"{s}: two substeps, phi_1 and phi_2, 3 processes", substeps(s, [Z, ["36/25"], ["0", "64/25"]], ["15/4"], nproc=3), paths=20),
    ]

if __name__ == "__main__":
    main("P16", SUBS,
         ["real arithmetic: sums, products, quotients and square roots are those of the reals",
          "the matrix exponential of the (nilpotent) projected operator is its exact finite sum",
          "the norms that tell the space is exhausted are decided exactly (tolerance 1e-9, operator entries at least 1/4)"],
         "solvers.kiops.kiops and solvers.pmex.pmex, on 1 to 3 simulated processes with a free nilpotent operator; what they "
         "return is compared with the finite sum of the phi functions, for every entry of the operator.",
         {"unknowns": "2 to 4", "processes": "1 to 3", "phi functions": "up to phi_3", "times": "up to 3",
          "outside": "operators whose Krylov space is not exhausted (only the restart after such a substep is covered); other solvers"})
