"""P10: the Cartesian Euler right-hand side (compiled kernels included) is a closed balance of every element."""

import atexit
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import types

from wxv import llvmir, simu
from wxv.check import REPO, Sub, main, np, sym, symnp
from wxv.simu import quiet

from checks.p14 import config

SOURCE = os.path.join(REPO, "wx_factory", "pde", "interface.cpp")
NAMES = ("rho", "rho_u", "rho_w", "rho_theta")
_real = []


def compiled():
    """the extension module, built from the working tree in a scratch directory (for replays in floating point)"""
    if not _real:
        import pybind11

        d = tempfile.mkdtemp(prefix="wxv_pde_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
        out = os.path.join(d, "pde_cpp.so")
        subprocess.run(["g++", "-O1", "-shared", "-std=c++11", "-fPIC", "-w", "-I", pybind11.get_include(), "-I", sysconfig.get_paths()["include"], SOURCE, "-o", out],
                       check=True, capture_output=True)
        spec = importlib.util.spec_from_file_location("pde_cpp", out)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _real.append(mod)
        shutil.rmtree(d, ignore_errors=True)
    return _real[0]


def setup(inp, nx, nz, n):
    from geometry import Cartesian2D, DFROperators

    with symnp.symbolic(False), quiet():
        d = simu.device()
        d.comm = types.SimpleNamespace(rank=0, size=1)
        g0 = Cartesian2D((0.0, 1.0), (0.0, 1.0), nx, nz, n, d)
        ops = DFROperators(g0, config(), d)
    d.pde = llvmir.Extension(SOURCE) if inp.symbolic else compiled()
    dx, dz = inp.real("dx", 0.5, 2), inp.real("dz", 0.5, 2)
    inp.assume(dx > 0)
    inp.assume(dz > 0)
    geom = types.SimpleNamespace(device=d)
    for k, v in (("Δx1", dx), ("Δx3", dz)):
        setattr(geom, __import__("unicodedata").normalize("NFKC", k), v)
    return geom, ops, dx, dz


def pressure(rt):
    from common.definitions import p0, Rd, cpd, cvd

    return p0 * np.exp((cpd / cvd) * np.log((Rd / p0) * rt))


def ausm(L, R, d):
    """AUSM flux across an interface with normal d (1: x, 2: z); L before it, R after it"""
    from common.definitions import cpd, cvd

    gam = cpd / cvd
    pL, pR = pressure(L[3]), pressure(R[3])
    aL, aR = np.sqrt(gam * pL / L[0]), np.sqrt(gam * pR / R[0])
    mL, mR = L[d] / (L[0] * aL), R[d] / (R[0] * aR)
    M = 0.25 * ((mL + 1.0) ** 2 - (mR - 1.0) ** 2)
    F = [np.maximum(0.0, M) * aL * L[v] + np.minimum(0.0, M) * aR * R[v] for v in range(4)]
    F[d] = F[d] + 0.5 * ((1.0 + mL) * pL + (1.0 - mR) * pR)
    return F


def state(inp, nx, nz, n, tag=""):
    Q = inp.array("q" + tag, (4, nz, nx, n * n), -1, 1)
    for idx in np.ndindex(nz, nx, n * n):
        for v, lo, hi in ((0, 1.0, 2.0), (3, 300.0, 400.0)):
            x = inp.real(f"pos{tag}{v}_" + "_".join(map(str, idx)), lo, hi)
            inp.assume(x > 0)
            Q[(v,) + idx] = x
    return Q


def balance(nx, nz, n, twice=False):
    def run(inp, cl):
        from common.definitions import gravity
        from pde import PDEEulerCartesian
        from rhs.rhs_dfr import RHSDirecFluxReconstruction

        geom, ops, dx, dz = setup(inp, nx, nz, n)
        param = types.SimpleNamespace(num_elements_horizontal=nx, num_elements_vertical=nz, num_solpts=n)
        rhs = RHSDirecFluxReconstruction(PDEEulerCartesian(geom, param, None), geom, ops, None, None, None, param, (4, nz, nx, n * n))
        Q = state(inp, nx, nz, n)
        if twice:
            first = rhs(state(inp, nx, nz, n, "before"))
            kept = first.copy()
        Q0 = Q.copy()
        try:
            got = rhs(Q)
        except llvmir.OutOfBounds as e:
            return cl.fail("the kernels stay inside their arrays", str(e))
        if twice:
            cl.eq("an earlier result stays", first, kept)
        cl.eq("state untouched", Q, Q0)

        e = {-1: np.asarray(ops.extrap_west, dtype=float), 1: np.asarray(ops.extrap_east, dtype=float)}
        D, C = np.asarray(ops.diff_solpt, dtype=float), np.asarray(ops.correction, dtype=float)
        size = {1: nx, 2: nz}

        def line(d, f):
            return [f * n + k if d == 1 else k * n + f for k in range(n)]

        def trace(el, d, s, f):
            out = []
            for v in range(4):
                acc = 0.0
                for k, o in enumerate(line(d, f)):
                    acc = acc + float(e[s][k]) * Q0[(v,) + el + (o,)]
                out.append(acc)
            return out

        faces = {}
        for j in range(nz):
            for i in range(nx):
                for d in (1, 2):
                    c = i if d == 1 else j
                    for f in range(n):
                        for s in (-1, 1):
                            me = trace((j, i), d, s, f)
                            inp.assume(me[0] > 0)
                            inp.assume(me[3] > 0)
                            if not 0 <= c + s < size[d]:  # wall: only the pressure acts
                                F = [0.0] * 4
                                F[d] = pressure(me[3])
                            else:
                                nb = (j, i + s) if d == 1 else (j + s, i)
                                other = trace(nb, d, -s, f)
                                F = ausm(me, other, d) if s > 0 else ausm(other, me, d)
                            faces[j, i, d, s, f] = F
        for j in range(nz):
            for i in range(nx):
                fl = {}
                for p in range(n * n):
                    q = [Q0[v, j, i, p] for v in range(4)]
                    pr = pressure(q[3])
                    for d in (1, 2):
                        fl[d, p] = [q[d] / q[0] * q[v] + (pr if v == d else 0.0) for v in range(4)]
                for p in range(n * n):
                    z, x = divmod(p, n)
                    for v in range(4):
                        tend = 0.0
                        for d, pos, f, h in ((1, x, z, dx), (2, z, x, dz)):
                            t = 0.0
                            for k, o in enumerate(line(d, f)):
                                t = t + float(D[pos, k]) * fl[d, o][v]
                            t = t + float(C[pos, 0]) * faces[j, i, d, -1, f][v] + float(C[pos, 1]) * faces[j, i, d, 1, f][v]
                            tend = tend - 2.0 / h * t
                        if v == 2:
                            tend = tend - gravity * Q0[0, j, i, p]
                        cl.eq(f"tendency of {NAMES[v]}, element ({j}, {i}), point {p}", got[v, j, i, p], tend)
        with symnp.symbolic(False):
            wt = [float(x) for x in np.polynomial.legendre.leggauss(n)[1]]
        for v in (0, 3):
            # what one point gains is what the others lose
            parts = [wt[p // n] * wt[p % n] * got[v, j, i, p] for j in range(nz) for i in range(nx) for p in range(n * n)]
            total = 0.0
            for x in parts[1:]:
                total = total + x
            cl.eq(f"total {'mass' if v == 0 else 'potential temperature'} of the domain", total, -parts[0])

    return run


def consistent(inp, cl):
    """equal states on both sides of an interface: the flux is the physical one"""
    for d in (1, 2):
        L = [inp.real(f"r{d}", 1, 2), inp.real(f"u{d}", -1, 1), inp.real(f"w{d}", -1, 1), inp.real(f"t{d}", 300, 400)]
        inp.assume(L[0] > 0)
        inp.assume(L[3] > 0)
        F = ausm(L, L, d)
        for v in range(4):
            cl.eq(f"normal {d}, {NAMES[v]}", F[v], L[d] / L[0] * L[v] + (pressure(L[3]) if v == d else 0.0))


SUBS = []
for nx, nz, n, twice, tier in ((2, 2, 2, False, "quick"), (3, 2, 2, True, "quick"), (2, 3, 3, False, "quick"), (1, 1, 3, False, "quick"), (3, 3, 3, True, "thorough"), (2, 2, 4, False, "thorough")):
    SUBS.append(Sub(f"{nx}x{nz} elements of {n}x{n} points" + (", second evaluation" if twice else ""), balance(nx, nz, n, twice), tier=tier, tol=1e-7, sweep=True, undef=True,
                    bounds=f"{nx}x{nz} elements, {n} points per direction"))
SUBS.append(Sub("interface flux: consistency", consistent))

if __name__ == "__main__":
    main(
        "P10",
        SUBS,
        [
            "positive density and potential temperature, at the points and on the interfaces",
            "the kernels are the double-precision ones that the extension module exports, as compiled by clang to LLVM IR",
            "real arithmetic; exp and log are opaque functions",
        ],
        "The real right-hand side runs on a free state; its C++ kernels are compiled to LLVM IR from the working tree and that IR is "
        "executed symbolically. z3 decides that every tendency equals the balance of its element with one AUSM flux per interface, "
        "pressure-only walls and gravity, and that total mass and potential temperature do not change.",
        {"elements": "up to 3x2 (3x3 in depth)", "points per direction": "2, 3 (4 in depth)"},
    )
