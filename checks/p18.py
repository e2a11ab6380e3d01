"""P18: what is written to the output file and printed as statistics are the model's fields at the right points."""

import contextlib
import io
import math
import re

from wxv import fakenc, geo, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World
from wxv.simu import quiet, scratch, simulation, sphere, values

R, OMEGA, GRAV = 6371220.0, 7.29212e-5, 9.80616


@contextlib.contextmanager
def spoken():
    """What is printed; symbolic values appear as <symK>"""
    old = sym.printed
    sym.printed = []
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        sym.printed = old


def number(text, label, terms):
    """the value printed after a label: a number or a symbolic value"""
    m = re.findall(re.escape(label) + r"\s*=\s*(\S+)", text)
    out = []
    for t in m:
        k = re.fullmatch(r"<sym(\d+)>", t)
        out.append(terms[int(k.group(1))] if k else float(t))
    return out


def vorticity(sim, u1, u2):
    """curl of the covariant components, each element's polynomial differentiated exactly"""
    m = sim.metric
    n = sim.config.num_solpts
    D = np.asarray(sim.operators.diff, dtype=float)
    v1, v2 = m.H_cov_11 * u1 + m.H_cov_12 * u2, m.H_cov_21 * u1 + m.H_cov_22 * u2
    out = symnp.np_empty(u1.shape, dtype=u1.dtype)
    for e in np.ndindex(*u1.shape[:2]):
        for j in range(n):
            for i in range(n):
                s = t = 0.0
                for k in range(n):
                    s = s + float(D[i, k]) * v2[e + (j * n + k,)]
                    t = t + float(D[j, k]) * v1[e + (k * n + i,)]
                out[e + (j * n + i,)] = float(m.inv_sqrtG[e + (j * n + i,)]) * (s - t)
    return symnp.wrap(out)


def derivative(inp, cl):
    """the differentiation matrix used above is exact on polynomials"""
    from geometry import DFROperators
    from checks.p14 import config

    for n in (2, 3, 4, 5):
        with symnp.symbolic(False), quiet():
            from geometry import CubedSphere2D

            g = CubedSphere2D(1, n, 0.0, 0.0, 0.0, geo.Topo(0), None, simu.device())
            d = simu.device()
            import types

            d.comm = types.SimpleNamespace(rank=0, size=1)
            D = np.asarray(DFROperators(g, config(), d).diff, dtype=float)
            x = np.polynomial.legendre.leggauss(n)[0]
        c = [inp.real(f"c{n}_{k}", -1, 1) for k in range(n)]
        for i in range(n):
            got = sum(float(D[i, k]) * sum(c[p] * float(x[k]) ** p for p in range(n)) for k in range(n))
            want = sum(c[p] * (p * float(x[i]) ** (p - 1) if p else 0.0) for p in range(n))
            cl.eq(f"{n} points, derivative at point {i}", got, want, tol=1e-9)


def sw_state(inp, sim, rank, tag=""):
    sh = sim.Q.shape[1:]
    h = inp.array(f"h{tag}{rank}", sh, 1.0, 2.0)
    for x in np.asarray(h).reshape(-1):
        inp.assume(x > 0)
    u1, u2 = inp.array(f"u{tag}{rank}", sh, -1, 1), inp.array(f"v{tag}{rank}", sh, -1, 1)
    Q = symnp.np_empty((3,) + sh, dtype=object if inp.symbolic else float)
    Q[0], Q[1], Q[2] = h, h * u1, h * u2
    return symnp.wrap(Q), h, u1, u2


def placed(sim, k, n):
    """(panel, row, column) in the whole panel of point k = (element row, element column, point) of this tile"""
    ej, ei, p = k
    ne = sim.Q.shape[-2]
    t = sim.process_topo
    return t.my_panel, (t.my_row * ne + ej) * n + p // n, (t.my_col * ne + ei) * n + p % n


def grid(cl, ds, sims, n):
    """longitude, latitude and panel coordinates"""
    side = sims[0].process_topo.num_lines_per_panel
    ne = sims[0].Q.shape[-2] * side
    with symnp.symbolic(False):
        gl = np.polynomial.legendre.leggauss(n)[0]
        x = [-math.pi / 4 + (e + (v + 1) / 2) * (math.pi / 2 / ne) for e in range(ne) for v in gl]
        for nm in ("Xdim", "Ydim"):
            cl.holds(f"coordinate {nm}", len(x) == ds.dimensions[nm] and all(abs(float(ds[nm][k]) - v) < 1e-12 for k, v in enumerate(x)))
        for p in range(6):
            cl.holds(f"panel number {p}", int(ds["npe"][p]) == p)
            frame = geo.panel_frame(p, 0.0, 0.0, 0.0)
            bad = 0
            for j, y in enumerate(x):
                for i, z in enumerate(x):
                    r, _, _ = geo.embedding(frame, math.tan(z), math.tan(y))
                    lo, la = float(ds["lons"][p, j, i]), float(ds["lats"][p, j, i])
                    c = math.cos(math.radians(la))
                    q = (c * math.cos(math.radians(lo)), c * math.sin(math.radians(lo)), math.sin(math.radians(la)))
                    bad += max(abs(a - b) for a, b in zip(q, r)) > 1e-9
            cl.holds(f"longitude and latitude of the points of panel {p}", bad == 0)


def contents(case, nranks, ns, ne):
    """shallow water: the file holds height, winds and vorticity of every point at its place"""

    def run(inp, cl):
        with scratch() as d, quiet(), fakenc.module() as nc, simu.no_compile():

            def f(rank, comm):
                cfg = sphere(d, case=case, ns=ns, ne=ne)
                cfg.output_freq = 2
                sim = simulation(cfg, comm)
                with symnp.symbolic(inp.symbolic):
                    states = []
                    for step in (2, 4):
                        st = sw_state(inp, sim, rank, f"s{step}r")
                        sim.output.step(st[0].copy(), step)
                        states.append(st)
                sim.output.finalize(0.0)
                return sim, states

            res = values(World(nranks).run(f))
            files = [x for x in nc.made if x.variables]
            cl.holds("one file", len(nc.made) == 1 and len(files) == 1 and files[0].closed == 1)
            ds = files[0]
            grid(cl, ds, [r[0] for r in res], ns)
            cl.holds("three times", len(ds["time"]) == 3)
            for k in range(3):
                cl.eq(f"time {k}", ds["time"][k], 10.0 * k)
            for rank, (sim, states) in enumerate(res):
                hs = 0.0 if sim.output.topo is None else np.asarray(sim.output.topo.hsurf, dtype=float)
                for t, (Q, h, u1, u2) in enumerate(states):
                    rv = vorticity(sim, u1, u2)
                    u, v = sim.geometry.contra2wind(u1, u2)
                    want = {"h": h + hs, "U": u, "V": v, "RV": rv, "PV": (rv + np.asarray(sim.metric.coriolis_f, dtype=float)) / h}
                    for nm, w in want.items():
                        for k in np.ndindex(*h.shape):
                            cl.eq(f"{nm}, rank {rank}, point {k}, time {t + 1}", ds[nm][(t + 1,) + placed(sim, k, ns)], w[k])

    return run


def euler_contents(case, nranks, ns, ne, nv):
    def run(inp, cl):
        from common.definitions import p0, Rd, cpd, cvd

        with scratch() as d, quiet(), fakenc.module() as nc, simu.no_compile():

            def f(rank, comm):
                cfg = sphere(d, eq="euler", case=case, ns=ns, ne=ne, nv=nv)
                cfg.output_freq = 1
                sim = simulation(cfg, comm)
                with symnp.symbolic(inp.symbolic):
                    sh = sim.Q.shape[1:]
                    rho, th = inp.array(f"rho{rank}", sh, 1, 2), inp.array(f"theta{rank}", sh, 300, 400)
                    for x in list(np.asarray(rho).reshape(-1)) + list(np.asarray(th).reshape(-1)):
                        inp.assume(x > 0)
                    u = [inp.array(f"u{c}r{rank}", sh, -1, 1) for c in range(3)]
                    Q = symnp.np_empty(sim.Q.shape, dtype=object if inp.symbolic else float)
                    Q[0], Q[4] = rho, rho * th
                    for c in range(3):
                        Q[1 + c] = rho * u[c]
                    q = []
                    for c in range(5, Q.shape[0]):
                        q.append(inp.array(f"tracer{c}r{rank}", sh, 0, 1))
                        Q[c] = rho * q[-1]
                    sim.output.step(symnp.wrap(Q), 1)
                return sim, (rho, u, th, q)

            res = values(World(nranks).run(f))
            cl.holds("one file", len(nc.made) == 1)
            ds = nc.made[0]
            sims = [r[0] for r in res]
            grid(cl, ds, sims, ns)
            for rank, (sim, (rho, u, th, q)) in enumerate(res):
                U, V, W = sim.geometry.contra2wind_3d(*u, sim.metric)
                want = {"rho": rho, "U": U, "V": V, "W": W, "theta": th, "P": p0 * (rho * th * Rd / p0) ** (cpd / cvd)}
                for c in range(len(q) if case == 11 else 1 if case == 12 else 0):
                    want[f"q{c + 1}"] = q[c]
                z = np.asarray(sim.geometry.coordVec_latlon[2], dtype=float)
                floor = np.asarray(sim.geometry.zbot, dtype=float)
                for k in np.ndindex(*rho.shape):
                    p, j, i = placed(sim, (k[1], k[2], k[3] % (ns * ns)), ns)
                    lev = k[0] * ns + k[3] // (ns * ns)
                    for nm, w in want.items():
                        cl.eq(f"{nm}, rank {rank}, point {k}", ds[nm][1, p, lev, j, i], w[k])
                ni = sim.geometry.ni
                t = sim.process_topo
                bad = 0
                for k in range(z.shape[0]):
                    for j in range(ni):
                        for i in range(ni):
                            bad += float(ds["elev"][t.my_panel, k, t.my_row * ni + j, t.my_col * ni + i]) != z[k, j, i]
                for j in range(ni):
                    for i in range(ni):
                        bad += float(ds["topo"][t.my_panel, t.my_row * ni + j, t.my_col * ni + i]) != floor[j, i]
                cl.holds(f"elevation of the points and of the ground, rank {rank}", bad == 0)

    return run


def statistics(case, nranks, ns, ne):
    """the printed integrals and errors"""

    def run(inp, cl):
        with scratch() as d, simu.no_compile():
            with spoken() as out:

                def f(rank, comm):
                    cfg = sphere(d, case=case, ns=ns, ne=ne)
                    sim = simulation(cfg, comm)
                    cfg.stat_freq = 1
                    with symnp.symbolic(inp.symbolic):
                        states = []
                        for step in (1, 2):
                            st = sw_state(inp, sim, rank, f"s{step}r")
                            sim.output.step(st[0], step)
                            states.append(st)
                    return sim, states

                res = values(World(nranks).run(f))
                terms, text = sym.printed, out.getvalue()
            with symnp.symbolic(False):
                w1 = [float(x) for x in np.polynomial.legendre.leggauss(ns)[1]]
            total = {}
            for step in (0, 1):
                for sim, states in res:
                    Q, h, u1, u2 = states[step]
                    m = sim.metric
                    f_ = np.asarray(m.coriolis_f, dtype=float)
                    hs = None if sim.output.topo is None else np.asarray(sim.output.topo.hsurf, dtype=float)
                    pot = 0.5 * GRAV * (h**2 if hs is None else (h + hs) ** 2 - hs**2)
                    v1, v2 = m.H_cov_11 * u1 + m.H_cov_12 * u2, m.H_cov_21 * u1 + m.H_cov_22 * u2
                    fields = {
                        "mass": h,
                        "energy": 0.5 * h * (v1 * u1 + v2 * u2) + pot,
                        "enstrophy": (vorticity(sim, u1, u2) + f_) ** 2 / (2.0 * h),
                    }
                    if case == 2:
                        # Williamson et al., test 2
                        u0 = 2.0 * math.pi * R / (12.0 * 86400.0)
                        exact = np.asarray((29400.0 - (R * OMEGA * u0 + 0.5 * u0**2) * np.asarray(sim.geometry.sinlat, dtype=float) ** 2) / GRAV, dtype=float)
                        fields.update({"l1": abs(h - exact), "l2": (h - exact) ** 2, "n1": abs(exact), "n2": exact**2})
                        for x, y in zip(np.asarray(h).reshape(-1), exact.reshape(-1)):
                            total.setdefault(("linf", step), []).append((x, float(y)))
                            total["ninf"] = max(total.get("ninf", 0.0), float(y))
                    for nm, v in fields.items():
                        s = total.get((nm, step), 0.0)
                        for k in np.ndindex(*h.shape):
                            s = s + (v[k] * float(m.sqrtG[k])) * (w1[k[2] // ns] * w1[k[2] % ns])
                        total[nm, step] = s
            for nm in ("mass", "energy", "enstrophy"):
                first = number(text, f"Integral of {nm}", terms)
                cl.holds(f"{nm} printed once", len(first) == 1)
                cl.eq(f"integral of {nm}", first[0], total[nm, 0])
                errs = number(text, f"normalized error for {nm}", terms)
                cl.holds(f"change of {nm} printed for each state", len(errs) == 2)
                cl.eq(f"no change of {nm} at first", errs[0], 0.0)
                cl.eq(f"change of {nm}", errs[1], (total[nm, 1] - total[nm, 0]) / total[nm, 0])
            if case == 2:
                for nm, power in (("l1", 1), ("l2", 2), ("linf", 1)):
                    got = number(text, nm, terms)
                    cl.holds(f"{nm} printed for each state", len(got) == 2)
                    for step in (0, 1):
                        if nm == "linf":  # not below any error, and one of them
                            top = got[step] * total["ninf"] + (0.0 if inp.symbolic else 1e-9)
                            some = sym.false() if inp.symbolic else False
                            for k, (x, y) in enumerate(total[nm, step]):
                                cl.holds(f"linf error covers point {k}, state {step}", (x - y <= top) & (y - x <= top))
                                t = top if inp.symbolic else top - 2e-9
                                some = sym.sor(some, (x - y >= t) | (y - x >= t)) if inp.symbolic else some or abs(x - y) >= t
                            cl.holds(f"linf error occurs, state {step}", some)
                        else:
                            cl.eq(f"{nm} error, state {step}", got[step] ** power, total[nm, step] / total["n" + nm[1], step])

    return run


SUBS = [Sub("differentiation of a polynomial", derivative, box=1.0)]
for case, nr, ns, ne, tier in ((6, 6, 2, 2, "quick"), (5, 24, 2, 4, "quick"), (2, 6, 3, 1, "quick"), (5, 6, 3, 2, "thorough"), (6, 24, 2, 4, "thorough")):
    SUBS.append(Sub(f"contents of the file: shallow water case {case}, {nr} processes, {ns} points", contents(case, nr, ns, ne), tier=tier, sweep=True,
                    bounds=f"{nr} processes, {ne}x{ne} elements of {ns}x{ns} points per panel, two output times"))
for case, nr, ns, ne, nv, tier in ((31, 6, 2, 1, 2, "quick"), (21, 24, 2, 4, 1, "quick")):
    SUBS.append(Sub(f"contents of the file: Euler case {case}, {nr} processes", euler_contents(case, nr, ns, ne, nv), tier=tier, sweep=True, undef=True,
                    bounds=f"{nr} processes, {ne}x{ne}x{nv} elements of {ns}^3 points per panel"))
for case, nr, ns, ne in ((6, 6, 2, 1), (5, 24, 2, 4), (2, 6, 2, 1)):
    SUBS.append(Sub(f"statistics: case {case}, {nr} processes", statistics(case, nr, ns, ne), sweep=True, undef=True, points=4,
                    bounds=f"{nr} processes, {ne}x{ne} elements of {ns}x{ns} points per panel"))

if __name__ == "__main__":
    main(
        "P18",
        SUBS,
        [
            "positive depth, density and potential temperature",
            "netCDF files are replaced by an in-memory recorder",
            "wind conversion, metric and the derivative's exactness have their own properties (P13, P14)",
        ],
        "Runs of 6 and 24 simulated processes write symbolic states through the real output code; z3 decides that every entry of the file "
        "and every printed statistic is the value of the field at that point.",
        {"processes": "6, 24", "points": "2, 3 per element and direction"},
    )
