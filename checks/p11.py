"""P11: the 3-D Euler right-hand side on the cubed sphere is the balance of every element, one flux per interface."""

import math
import types

from wxv import geo, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.simu import quiet

from checks.p14 import config

NAMES = ("rho", "rho_u1", "rho_u2", "rho_w", "rho_theta")


class Box:
    """indices of a tile of nz x ny x nx elements of n^3 points"""

    def __init__(self, nx, nz, n):
        self.nx, self.nz, self.n = nx, nz, n
        self.shape = (nz, nx, nx, n**3)
        self.elements = [(k, j, i) for k in range(nz) for j in range(nx) for i in range(nx)]

    def size(self, d):
        return self.nz if d == 3 else self.nx

    def move(self, e, d, s):
        k, j, i = e
        return (k, j, i + s) if d == 1 else (k, j + s, i) if d == 2 else (k + s, j, i)

    def coord(self, e, d):
        return e[3 - d]

    def face_points(self):
        return range(self.n * self.n)

    def line(self, d, f):
        """the points of an element on the line in direction d through point f of a face"""
        n = self.n
        a, b = divmod(f, n)
        if d == 1:  # face (z, y)
            return [(a * n + b) * n + k for k in range(n)]
        if d == 2:  # face (z, x)
            return [(a * n + k) * n + b for k in range(n)]
        return [(k * n + a) * n + b for k in range(n)]

    def face_of(self, d, p):
        """(face point, position along d) of point p"""
        n = self.n
        z, y, x = p // (n * n), p // n % n, p % n
        return ((z * n + y, x), (z * n + x, y), (y * n + x, z))[d - 1]


def setup(inp, b):
    from geometry import DFROperators

    obj = object if inp.symbolic else float
    with symnp.symbolic(False), quiet():
        from geometry import CubedSphere3D

        d = simu.device()
        d.comm = types.SimpleNamespace(rank=0, size=1)
        g0 = CubedSphere3D(b.nx, b.nz, b.n, 0.0, 0.0, 0.0, 10000.0, geo.Topo(0), types.SimpleNamespace(depth_approx="deep", case_number=31), d)
        ops = DFROperators(g0, config(), d)
    geom = types.SimpleNamespace(
        device=g0.device, itf_i_shape=g0.itf_i_shape, itf_j_shape=g0.itf_j_shape, itf_k_shape=g0.itf_k_shape, itf_size=g0.itf_size,
        halo_side_shape=g0.halo_side_shape, boundary_sn_new="SN", boundary_we_new="WE", ztop=30000.0,
        num_solpts=b.n,
    )
    n2 = b.n * b.n

    def interior(name, lo, hi):
        return inp.array(name, b.shape, lo, hi)

    def itf(d, name, lo, hi):
        """one value per interface point; the outer halves of the halo are separate"""
        a = symnp.np_empty((g0.itf_i_shape, g0.itf_j_shape, g0.itf_k_shape)[d - 1], dtype=obj)
        for k in range(a.shape[0]):
            for j in range(a.shape[1]):
                for i in range(a.shape[2]):
                    for s in range(2):
                        t = b.move((k, j, i), d, s)
                        for p in range(n2):
                            a[k, j, i, s * n2 + p] = inp.real(f"{name}{d}_{t[0]}_{t[1]}_{t[2]}_{p}", lo, hi)
        return symnp.wrap(a)

    m = types.SimpleNamespace()
    m.sqrtG_new = interior("sg", 0.5, 2)
    m.inv_sqrtG_new = 1.0 / m.sqrtG_new
    m.inv_dzdeta_new = interior("dz", 0.5, 2)
    m.sqrtG_itf_i_new, m.sqrtG_itf_j_new, m.sqrtG_itf_k_new = (itf(d, "sg", 0.5, 2) for d in (1, 2, 3))

    def tensor(make, shape):
        h = symnp.np_empty((3, 3) + tuple(shape), dtype=obj)
        for r in range(3):
            for c in range(r, 3):
                v = make(f"h{r}{c}", *((0.5, 2) if r == c else (-0.4, 0.4)))
                h[r, c] = v
                h[c, r] = v
        return symnp.wrap(h)

    m.h_contra_new = tensor(interior, b.shape)
    m.h_contra_itf_i_new = tensor(lambda *a: itf(1, *a), g0.itf_i_shape)
    m.h_contra_itf_j_new = tensor(lambda *a: itf(2, *a), g0.itf_j_shape)
    m.h_contra_itf_k_new = tensor(lambda *a: itf(3, *a), g0.itf_k_shape)
    m.christoffel = inp.array("C", (3, 9) + b.shape, -1, 1)
    for v in (m.sqrtG_new, m.inv_dzdeta_new, m.sqrtG_itf_i_new, m.sqrtG_itf_j_new, m.sqrtG_itf_k_new, m.h_contra_itf_i_new[0, 0], m.h_contra_itf_j_new[1, 1], m.h_contra_itf_k_new[2, 2]):
        for x in np.asarray(v).reshape(-1):
            inp.assume(x > 0)
    return geom, ops, m


class Exchange:
    """Stand-in for the process topology: records what is sent, delivers arbitrary values"""

    def __init__(self, inp, b):
        self.inp, self.b, self.calls = inp, b, 0
        self.sent, self.halo, self.dest, self.flips = {}, {}, {}, set()

    def begin(self):
        """the halos of the next evaluation"""
        self.calls += 1
        self.scalars = ["rho", "rho_theta"]

    def _recv(self, name, lo, hi):
        out = []
        for side in "SNWE":
            a = self.inp.array(f"halo{self.calls}{name}{side}", (self.b.nz, self.b.nx, self.b.n**2), lo, hi)
            if lo > 0:
                for x in np.asarray(a).reshape(-1):
                    self.inp.assume(x > 0)
            out.append(a)
            self.halo[name, side] = a
        return out

    def start_exchange_scalars(self, south, north, west, east, boundary_shape, flip_dim=-1):
        name = self.scalars.pop(0)
        self.sent[name] = dict(S=south.copy(), N=north.copy(), W=west.copy(), E=east.copy())
        self.flips.add((tuple(boundary_shape), flip_dim))
        r = self._recv(name, *((1.0, 2.0) if name == "rho" else (300.0, 400.0)))
        return types.SimpleNamespace(shape=south.shape, wait=lambda: tuple(x.copy() for x in r))

    def start_exchange_vectors(self, south, north, west, east, boundary_sn, boundary_we, flip_dim=-1, covariant=False):
        assert not covariant
        for c in range(3):
            self.sent[NAMES[c + 1]] = dict(S=south[c].copy(), N=north[c].copy(), W=west[c].copy(), E=east[c].copy())
        self.bounds = (boundary_sn, boundary_we)
        self.flips.add(((self.b.nx, self.b.n, self.b.n), flip_dim))
        rs = [self._recv(NAMES[c], -1, 1) for c in (1, 2, 3)]
        return types.SimpleNamespace(shape=south[0].shape, wait=lambda: tuple(tuple(r[k].copy() for r in rs) for k in range(4)))


def smax(a, b):
    return np.maximum(a, b)


def spec(inp, b, ops, m, Q, ex, case, geom):
    from common.definitions import p0, Rd, cpd, cvd, gravity

    n = b.n
    e_ = {-1: [float(x) for x in np.asarray(ops.extrap_west, dtype=float)], 1: [float(x) for x in np.asarray(ops.extrap_east, dtype=float)]}
    D, C = np.asarray(ops.diff_solpt, dtype=float), np.asarray(ops.correction, dtype=float)
    HF = np.asarray(ops.highfilter, dtype=float)
    gam = cpd / cvd
    press = lambda rt: p0 * np.exp(gam * np.log((Rd / p0) * rt))
    itf_sg = {1: m.sqrtG_itf_i_new, 2: m.sqrtG_itf_j_new, 3: m.sqrtG_itf_k_new}
    itf_h = {1: m.h_contra_itf_i_new, 2: m.h_contra_itf_j_new, 3: m.h_contra_itf_k_new}
    halo = {1: ("W", "E"), 2: ("S", "N")}

    def trace(e, d, s, f):
        """the element's state at point f of its side s (-1, +1) in direction d"""
        pts = b.line(d, f)
        out = []
        for v in range(5):
            acc = 0.0
            for k in range(n):
                q = Q[(v,) + e + (pts[k],)]
                acc = acc + e_[s][k] * (np.log(q) if v in (0, 4) else q)
            out.append(np.exp(acc) if v in (0, 4) else acc)
        return out

    outer = {}

    def flux(e, d, s, f):
        """everything the element needs about the interface on its side s of direction d"""
        mine = trace(e, d, s, f)
        nb = b.move(e, d, s)
        idx = list(e)
        idx[3 - d] += 1  # place of the element in the arrays with a halo
        where = tuple(idx) + ((n * n if s > 0 else 0) + f,)
        sg = itf_sg[d][where]
        h = [itf_h[d][(d - 1, c) + where] for c in range(3)]
        wall = False
        if 0 <= b.coord(nb, d) < b.size(d):
            other = trace(nb, d, -s, f)
        elif d == 3:
            other, wall = list(mine), True
        else:
            side = halo[d][1 if s > 0 else 0]
            k = (e[0], e[1] if d == 1 else e[2], f)
            other = [ex.halo[nm, side][k] for nm in NAMES]
        L, R = (mine, other) if s > 0 else (other, mine)
        uL, uR = L[d] / L[0], R[d] / R[0]
        if wall:  # impermeable: the outside moves the other way
            if s > 0:
                uR = -uL
            else:
                uL = -uR
        pL, pR = press(L[4]), press(R[4])
        eig = smax(*[abs(u) + (0.0 if case < 13 else np.sqrt(h[d - 1] * gam * p / q[0])) for u, p, q in ((uL, pL, L), (uR, pR, R))])
        F, Fadv = [], None
        for v in range(5):
            adv = 0.5 * (sg * uL * L[v] + sg * uR * R[v] - eig * sg * (R[v] - L[v]))
            if v == 3:
                Fadv = adv
            F.append(adv + (0.5 * sg * h[v - 1] * (pL + pR) if v in (1, 2, 3) else 0.0))
        pm = pL if s > 0 else pR
        out = dict(F=F, adv=Fadv, pres=0.5 * sg * h[2] * (pL + pR) / pm, logp=np.log(pm))
        if wall or not (0 <= b.coord(nb, d) < b.size(d)):
            outer[e, d, s, f] = F[0]
        return out

    faces = {}
    for e in b.elements:
        for d in (1, 2, 3):
            for s in (-1, 1):
                for f in b.face_points():
                    faces[e, d, s, f] = flux(e, d, s, f)
    out = {}
    for e in b.elements:
        val = {}
        for p in range(n**3):
            at = e + (p,)
            q = [Q[(v,) + at] for v in range(5)]
            u = [None] + [q[d] / q[0] for d in (1, 2, 3)]
            sg, pr = m.sqrtG_new[at], press(q[4])
            h = [[m.h_contra_new[(r, c) + at] for c in range(3)] for r in range(3)]
            fl = {d: [sg * u[d] * q[v] + (sg * h[d - 1][v - 1] * pr if v in (1, 2) else 0.0) for v in range(5)] for d in (1, 2, 3)}
            val[p] = dict(q=q, u=u, sg=sg, p=pr, h=h, fl=fl, lp=np.log(pr))
        for p in range(n**3):
            at = e + (p,)
            w = val[p]
            tend = [0.0] * 5
            for d in (1, 2, 3):
                f, x = b.face_of(d, p)
                pts = b.line(d, f)
                lo, hi = faces[e, d, -1, f], faces[e, d, 1, f]
                for v in (0, 1, 2, 4):
                    t = 0.0
                    for k in range(n):
                        t = t + float(D[x, k]) * val[pts[k]]["fl"][d][v]
                    tend[v] = tend[v] + t + float(C[x, 0]) * lo["F"][v] + float(C[x, 1]) * hi["F"][v]
                # the pressure gradient in the vertical momentum: p d(G h) + (G h) p d(log p)
                ta = tp = tl = 0.0
                for k in range(n):
                    o = val[pts[k]]
                    ta = ta + float(D[x, k]) * o["fl"][d][3]
                    tp = tp + float(D[x, k]) * (o["sg"] * o["h"][d - 1][2])
                    tl = tl + float(D[x, k]) * o["lp"]
                ta = ta + float(C[x, 0]) * lo["adv"] + float(C[x, 1]) * hi["adv"]
                tp = tp + float(C[x, 0]) * lo["pres"] + float(C[x, 1]) * hi["pres"]
                tl = tl + float(C[x, 0]) * lo["logp"] + float(C[x, 1]) * hi["logp"]
                tend[3] = tend[3] + ta + tp * w["p"] + tl * w["p"] * (w["sg"] * w["h"][d - 1][2])
            rho, u = w["q"][0], w["u"]
            force = [0.0] * 5
            for r in range(3):
                c = [m.christoffel[(r, k) + at] for k in range(9)]
                s = 2.0 * rho * (c[0] * u[1] + c[1] * u[2] + c[2] * u[3])
                for k, (i, j) in enumerate(((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))):
                    s = s + (1.0 if i == j else 2.0) * c[3 + k] * (rho * u[i] * u[j] + w["h"][i - 1][j - 1] * w["p"])
                force[1 + r] = s
            # gravity, with the highest vertical mode of the mass removed
            f, x = b.face_of(3, p)
            gr = 0.0
            for k, o in enumerate(b.line(3, f)):
                gr = gr + float(HF[x, k]) * (val[o]["sg"] * val[o]["q"][0])
            force[3] = force[3] + m.inv_dzdeta_new[at] * gravity * gr / w["sg"]
            if case in (21, 22):
                lat, z = geom.polar[(1,) + at], geom.polar[(2,) + at]
                cs = 2.5e-4 if case == 22 else 0.0
                t_ = 1.0 - cs * 400.0 / gravity * np.sin(lat) ** 2
                uref = 20.0 * np.cos(lat) * np.sqrt(2.0 * cs * z / t_ + t_)
                damp = np.where(z <= 20000.0, 0.0, rho / 25.0 * np.sin(math.pi / 2 * (z - 20000.0) / 10000.0) ** 2)
                for r in range(3):
                    force[1 + r] = force[1 + r] + damp * (u[1 + r] - geom.wind[(r,) + at] * uref)
            for v in range(5):
                out[(v,) + at] = 0.0 if case < 13 else -tend[v] / w["sg"] - force[v]
    return out, outer


def state(inp, b, tag):
    Q = inp.array("q" + tag, (5,) + b.shape, -1, 1)
    for idx in np.ndindex(*b.shape):
        for v, lo, hi in ((0, 1.0, 2.0), (4, 300.0, 400.0)):
            x = inp.real(f"pos{tag}{v}_" + "_".join(map(str, idx)), lo, hi)
            inp.assume(x > 0)
            Q[(v,) + idx] = x
    return Q


def balance(nx, nz, n, case, twice=False):
    def run(inp, cl):
        from pde import PDEEulerCubesphere
        from rhs.rhs_dfr import RHSDirecFluxReconstruction_mpi

        b = Box(nx, nz, n)
        geom, ops, m = setup(inp, b)
        if case in (21, 22):
            geom.polar = symnp.wrap(symnp.np_empty((3,) + b.shape, dtype=object if inp.symbolic else float))
            geom.polar[0] = 0.0
            geom.polar[1] = inp.array("lat", b.shape, -1.5, 1.5)
            geom.polar[2] = inp.array("z", b.shape, 15000.0, 30000.0)
            geom.wind = inp.array("wind", (3,) + b.shape, -1, 1)

            def wind2contra(u, v, w, metric):
                """east wind to contravariant components: arbitrary factors"""
                assert np.ndim(v) == 0 and v == 0.0 and np.ndim(w) == 0 and w == 0.0 and metric is m
                return tuple(geom.wind[r] * u for r in range(3))

            geom.wind2contra = wind2contra
        param = types.SimpleNamespace(num_elements_horizontal=nx, num_elements_vertical=nz, num_solpts=n, case_number=case)
        Q = state(inp, b, "")
        ex = Exchange(inp, b)
        pde = PDEEulerCubesphere(geom, param, m)
        rhs = RHSDirecFluxReconstruction_mpi(pde, geom, ops, m, None, ex, param, Q.shape)
        first = None
        if twice:  # an earlier evaluation leaves no trace
            ex.begin()
            first = rhs(state(inp, b, "before"))
            kept = first.copy()
        ex.begin()
        Q0 = Q.copy()
        got = rhs(Q)
        if twice:
            cl.eq("an earlier result stays", first, kept)
        cl.eq("state untouched", Q, Q0)
        cl.holds("coordinates along the edges", ex.bounds == ("SN", "WE"))
        cl.holds("shape and reversal of the edges", ex.flips == {((nx, n, n), (-3, -1))})
        want, outer = spec(inp, b, ops, m, Q0, ex, case, geom)
        ew, ee = np.asarray(ops.extrap_west, dtype=float), np.asarray(ops.extrap_east, dtype=float)
        for v, nm in enumerate(NAMES):
            for side in "SNWE":
                d = 1 if side in "WE" else 2
                c = ew if side in "WS" else ee
                for z in range(nz):
                    for e in range(nx):
                        last = nx - 1 if side in "EN" else 0
                        el = (z, e, last) if d == 1 else (z, last, e)
                        for f in b.face_points():
                            s = 0.0
                            for k, o in enumerate(b.line(d, f)):
                                q = Q0[(v,) + el + (o,)]
                                s = s + float(c[k]) * (np.log(q) if v in (0, 4) else q)
                            cl.eq(f"{nm} sent {side}, level {z}, element {e}, point {f}", ex.sent[nm][side][z, e, f], np.exp(s) if v in (0, 4) else s)
        for k, w in want.items():
            cl.eq(f"tendency of {NAMES[k[0]]} at {k[1:]}", got[k], w)
        if case >= 13:
            for (e, d, s, f), fl in outer.items():
                if d == 3:
                    cl.eq(f"no mass through the {'top' if s > 0 else 'surface'}: {e}, {f}", fl, 0.0)
            with symnp.symbolic(False):
                wt = [float(x) for x in np.polynomial.legendre.leggauss(n)[1]]
            total = flow = 0.0
            for e in b.elements:
                for p in range(n**3):
                    w = wt[p // (n * n)] * wt[p // n % n] * wt[p % n]
                    total = total + w * m.sqrtG_new[e + (p,)] * got[(0,) + e + (p,)]
            for (e, d, s, f), fl in outer.items():
                flow = flow - s * wt[f // n] * wt[f % n] * fl
            cl.eq("mass of the tile", total, flow)

    return run


SUBS = []
for nx, nz, n, case, twice, tier in (
    (2, 2, 2, 31, False, "quick"),
    (1, 1, 3, 31, False, "quick"),
    (1, 2, 2, 31, True, "quick"),
    (1, 1, 2, 21, False, "quick"),
    (1, 1, 2, 22, False, "quick"),
    (1, 1, 2, 12, False, "quick"),
    (2, 3, 2, 20, True, "thorough"),
    (2, 1, 3, 31, False, "thorough"),
):
    SUBS.append(
        Sub(f"{nx}x{nx}x{nz} elements of {n}^3 points, case {case}" + (", second evaluation" if twice else ""), balance(nx, nz, n, case, twice), tier=tier, tol=1e-6,
            sweep=True, undef=True, bounds=f"{nx}x{nx}x{nz} elements, {n} points per direction")
    )

if __name__ == "__main__":
    main(
        "P11",
        SUBS,
        [
            "positive density and potential temperature",
            "the metric is single-valued on interfaces; the halo exchange delivers arbitrary values (P01, P02 say which)",
            "real arithmetic; exp and log are opaque functions (with exp(log x) = x, log(c x) = log c + log x)",
        ],
        "The real right-hand side is executed on a tile with free state, metric, Christoffel symbols and halo values; z3 decides that "
        "every tendency equals the balance of its element with one numerical flux per interface and impermeable top and surface.",
        {"elements": "up to 2x2x2 (2x2x3 in depth)", "points per direction": "2, 3"},
    )
