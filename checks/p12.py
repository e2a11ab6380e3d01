"""P12: the shallow-water right-hand side is the flux-form balance on every element, with one flux per interface."""

import types

from wxv import geo, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.simu import quiet

G = 9.80616


def setup(inp, ne, n, topo, tie=True):
    """stand-in grid, metric, topography: free values, single-valued on interfaces"""
    from geometry import DFROperators
    from common.definitions import gravity

    from checks.p14 import config

    obj = object if inp.symbolic else float
    with symnp.symbolic(False), quiet():
        from geometry import CubedSphere2D

        d = simu.device()
        d.comm = types.SimpleNamespace(rank=0, size=1)
        g0 = CubedSphere2D(ne, n, 0.0, 0.0, 0.0, geo.Topo(0), None, d)
        ops = DFROperators(g0, config(), d)
    geom = types.SimpleNamespace(
        device=g0.device, itf_i_shape=g0.itf_i_shape, itf_j_shape=g0.itf_j_shape, boundary_sn="SN", boundary_we="WE",
    )
    S = (ne, ne, n * n)

    def interior(name, lo, hi):
        return inp.array(name, S, lo, hi)

    def itf_i(name, lo, hi):
        """the same value on both sides of an interface; outer halves of the halo are separate"""
        a = symnp.np_empty(g0.itf_i_shape, dtype=obj)
        for j in range(ne):
            for k in range(ne + 2):
                for s in range(2):
                    for p in range(n):
                        t = k + s  # number of the interface, 0 .. ne + 2
                        a[j, k, s * n + p] = inp.real(f"{name}i_{j}_{t}_{p}", lo, hi)
        return symnp.wrap(a)

    def itf_j(name, lo, hi):
        a = symnp.np_empty(g0.itf_j_shape, dtype=obj)
        for k in range(ne + 2):
            for i in range(ne):
                for s in range(2):
                    for p in range(n):
                        a[k, i, s * n + p] = inp.real(f"{name}j_{k + s}_{i}_{p}", lo, hi)
        return symnp.wrap(a)

    m = types.SimpleNamespace()
    m.sqrtG = interior("sg", 0.5, 2)
    m.inv_sqrtG = 1.0 / m.sqrtG
    m.sqrtG_itf_i, m.sqrtG_itf_j = itf_i("sg", 0.5, 2), itf_j("sg", 0.5, 2)
    for a, b in ((1, 1), (1, 2), (2, 2)):
        lo, hi = (0.5, 2) if a == b else (-0.4, 0.4)
        for suf, f in (("", interior), ("_itf_i", itf_i), ("_itf_j", itf_j)):
            v = f(f"H{a}{b}", lo, hi)
            setattr(m, f"H_contra_{a}{b}{suf}", v)
            setattr(m, f"H_contra_{b}{a}{suf}", v)
    for c in ("1_01", "1_02", "1_11", "1_12", "2_01", "2_02", "2_12", "2_22"):
        setattr(m, "christoffel_" + c, interior("C" + c, -1, 1))
    for v in [m.sqrtG, m.sqrtG_itf_i, m.sqrtG_itf_j, m.H_contra_11_itf_i, m.H_contra_22_itf_j]:
        for x in np.asarray(v).reshape(-1):
            inp.assume(x > 0)
    tp = None
    if topo:
        tp = types.SimpleNamespace(
            hsurf=interior("hs", 0, 0.2), dzdx1=interior("z1", -1, 1), dzdx2=interior("z2", -1, 1),
            hsurf_itf_i=itf_i("hs", 0, 0.2), hsurf_itf_j=itf_j("hs", 0, 0.2),
        )
    return geom, ops, m, tp, gravity


class Exchange:
    """Stand-in for the process topology: records what is sent, delivers arbitrary values"""

    def __init__(self, inp, ne, n):
        self.inp, self.ne, self.n = inp, ne, n
        self.sent = {}
        self.halo = {}

    def _recv(self, name, lo, hi):
        out = []
        for side in "SNWE":
            out.append(self.inp.array(f"{name}{side}", (self.ne, self.n), lo, hi))
            self.halo[name, side] = out[-1]
        return out

    def start_exchange_scalars(self, south, north, west, east, boundary_shape, flip_dim=-1):
        self.sent["h"] = dict(S=south.copy(), N=north.copy(), W=west.copy(), E=east.copy())
        r = self._recv("h", 1.0, 2.0)
        return types.SimpleNamespace(wait=lambda: tuple(x.copy() for x in r))

    def start_exchange_vectors(self, south, north, west, east, boundary_sn, boundary_we, flip_dim=-1, covariant=False):
        assert not covariant
        for c in range(2):
            self.sent[f"hu{c + 1}"] = dict(S=south[c].copy(), N=north[c].copy(), W=west[c].copy(), E=east[c].copy())
        self.bounds = (boundary_sn, boundary_we)
        r1, r2 = self._recv("hu1", -1, 1), self._recv("hu2", -1, 1)
        return types.SimpleNamespace(wait=lambda: tuple((a.copy(), b.copy()) for a, b in zip(r1, r2)))


def pos(x):
    return np.maximum(0.0, x)


def neg(x):
    return np.minimum(0.0, x)


def ausm(g, sg, Hn, Ht, L, R, normal):
    """Flux through an interface in direction `normal` (1 or 2): L is the state before it, R the state after it.
    Hn: metric coefficient along the normal, Ht: the mixed one"""
    aL, aR = np.sqrt(g * L[0] * Hn), np.sqrt(g * R[0] * Hn)
    mL, mR = L[normal] / (L[0] * aL), R[normal] / (R[0] * aR)
    M = 0.25 * ((mL + 1.0) ** 2 - (mR - 1.0) ** 2)
    F = [sg * (pos(M) * aL * L[v] + neg(M) * aR * R[v]) for v in range(3)]
    pL, pR = 0.5 * g * L[0] * L[0], 0.5 * g * R[0] * R[0]
    t = 3 - normal
    P = 0.5 * ((1.0 + mL) * pL + (1.0 - mR) * pR)
    F[normal] = F[normal] + sg * Hn * P
    F[t] = F[t] + sg * Ht * P
    return F


def spec(inp, cl, ne, n, ops, m, tp, g, Q, ex, only=None):
    """the flux-form balance, element by element; returns {(var, j, i, p): value}"""
    ew, ee = np.asarray(ops.extrap_west, dtype=float), np.asarray(ops.extrap_east, dtype=float)
    D, C = np.asarray(ops.diff_solpt, dtype=float), np.asarray(ops.correction, dtype=float)
    hs = tp.hsurf if tp else None

    def val(v, j, i, y, x):
        r = Q[v, j, i, y * n + x]
        return r + hs[j, i, y * n + x] if v == 0 and tp else r

    def ext(v, j, i, side, p):
        """value of the element's polynomial at one of its sides (before removing the topography)"""
        e = ew if side in "WS" else ee
        s = 0.0
        for k in range(n):
            s = s + float(e[k]) * (val(v, j, i, p, k) if side in "WE" else val(v, j, i, k, p))
        return s

    def state_i(j, t, p, side):
        """state on the west ('L') or east ('R') of interface t (1..ne+1) of row j"""
        el = t - 1 if side == "L" else t
        out = []
        for v, nm in enumerate(("h", "hu1", "hu2")):
            if el == 0:
                out.append(ex.halo[nm, "W"][j, p])
            elif el == ne + 1:
                out.append(ex.halo[nm, "E"][j, p])
            else:
                out.append(ext(v, j, el - 1, "E" if side == "L" else "W", p))
        if tp:
            out[0] = out[0] - tp.hsurf_itf_i[j, el, (n if side == "L" else 0) + p]
        return out

    def state_j(i, t, p, side):
        el = t - 1 if side == "L" else t
        out = []
        for v, nm in enumerate(("h", "hu1", "hu2")):
            if el == 0:
                out.append(ex.halo[nm, "S"][i, p])
            elif el == ne + 1:
                out.append(ex.halo[nm, "N"][i, p])
            else:
                out.append(ext(v, el - 1, i, "N" if side == "L" else "S", p))
        if tp:
            out[0] = out[0] - tp.hsurf_itf_j[el, i, (n if side == "L" else 0) + p]
        return out

    Fi, Fj = {}, {}
    depth = []
    for r in range(ne):
        for t in range(1, ne + 2):
            for p in range(n):
                L, R = state_i(r, t, p, "L"), state_i(r, t, p, "R")
                depth += [L[0], R[0]]
                Fi[r, t, p] = ausm(g, m.sqrtG_itf_i[r, t, p], m.H_contra_11_itf_i[r, t, p], m.H_contra_21_itf_i[r, t, p], L, R, 1)
                L, R = state_j(r, t, p, "L"), state_j(r, t, p, "R")
                depth += [L[0], R[0]]
                Fj[t, r, p] = ausm(g, m.sqrtG_itf_j[t, r, p], m.H_contra_22_itf_j[t, r, p], m.H_contra_12_itf_j[t, r, p], L, R, 2)
    out = {}
    for j in range(ne):
        for i in range(ne):
            f1, f2 = {}, {}
            for p in range(n * n):
                h, a, b = (Q[v, j, i, p] for v in range(3))
                sg, H11, H12, H22 = m.sqrtG[j, i, p], m.H_contra_11[j, i, p], m.H_contra_12[j, i, p], m.H_contra_22[j, i, p]
                pr = 0.5 * g * h * h
                f1[p] = [sg * a, sg * (a * a / h + H11 * pr), sg * (a * b / h + H12 * pr)]
                f2[p] = [sg * b, sg * (a * b / h + H12 * pr), sg * (b * b / h + H22 * pr)]
            for p in range(n * n):
                y, x = divmod(p, n)
                h, a, b = (Q[v, j, i, p] for v in range(3))
                c = {k: getattr(m, "christoffel_" + k)[j, i, p] for k in ("1_01", "1_02", "1_11", "1_12", "2_01", "2_02", "2_12", "2_22")}
                z1, z2 = (tp.dzdx1[j, i, p], tp.dzdx2[j, i, p]) if tp else (0.0, 0.0)
                H11, H12, H22 = m.H_contra_11[j, i, p], m.H_contra_12[j, i, p], m.H_contra_22[j, i, p]
                force = [
                    0.0,
                    2.0 * (c["1_01"] * a + c["1_02"] * b) + c["1_11"] * a * a / h + 2.0 * c["1_12"] * a * b / h + g * h * (H11 * z1 + H12 * z2),
                    2.0 * (c["2_01"] * a + c["2_02"] * b) + 2.0 * c["2_12"] * a * b / h + c["2_22"] * b * b / h + g * h * (H12 * z1 + H22 * z2),
                ]
                for v in range(3):
                    s = 0.0
                    for k in range(n):
                        s = s + float(D[x, k]) * f1[y * n + k][v] + float(D[y, k]) * f2[k * n + x][v]
                    s = s + float(C[x, 0]) * Fi[j, i + 1, y][v] + float(C[x, 1]) * Fi[j, i + 2, y][v]
                    s = s + float(C[y, 0]) * Fj[j + 1, i, x][v] + float(C[y, 1]) * Fj[j + 2, i, x][v]
                    out[v, j, i, p] = -s / m.sqrtG[j, i, p] - force[v]
    return out, depth, Fi, Fj


def balance(ne, n, topo):
    def run(inp, cl):
        from rhs.rhs_sw import RhsShallowWater

        geom, ops, m, tp, g = setup(inp, ne, n, topo)
        Q = inp.array("q", (3, ne, ne, n * n), -1, 1)
        for idx in np.ndindex(ne, ne, n * n):
            h = inp.real("d" + "_".join(map(str, idx)), 1.0, 2.0)
            inp.assume(h > 0)
            Q[(0,) + idx] = h
        ex = Exchange(inp, ne, n)
        rhs = RhsShallowWater(Q.shape, geom, ops, m, tp, ex, n, ne)
        Q0 = Q.copy()
        got = rhs(Q.reshape(-1)).reshape(Q.shape)
        cl.eq("state untouched", Q, Q0)
        cl.holds("coordinates along the edges", ex.bounds == ("SN", "WE"))
        want, depth, Fi, Fj = spec(inp, cl, ne, n, ops, m, tp, g, Q0, ex)
        for d in depth:
            inp.assume(d > 0)
        ew, ee = np.asarray(ops.extrap_west, dtype=float), np.asarray(ops.extrap_east, dtype=float)
        for v, nm in enumerate(("h", "hu1", "hu2")):
            for e in range(ne):
                for p in range(n):
                    for side in "SNWE":
                        j, i = {"S": (0, e), "N": (ne - 1, e), "W": (e, 0), "E": (e, ne - 1)}[side]
                        c = ew if side in "WS" else ee
                        s = 0.0
                        for k in range(n):
                            q = p * n + k if side in "WE" else k * n + p
                            s = s + float(c[k]) * (Q0[v, j, i, q] + (tp.hsurf[j, i, q] if tp and v == 0 else 0.0))
                        cl.eq(f"{nm} sent {side}, element {e}, point {p}", ex.sent[nm][side][e, p], s)
        for k, w in want.items():
            cl.eq(f"tendency {k}", got[k], w)
        # the mass of a tile changes only by what flows through its edges
        with symnp.symbolic(False):
            wt = np.polynomial.legendre.leggauss(n)[1]
        total, flow = 0.0, 0.0
        for j in range(ne):
            for i in range(ne):
                for p in range(n * n):
                    total = total + float(wt[p // n] * wt[p % n]) * m.sqrtG[j, i, p] * got[0, j, i, p]
            for p in range(n):
                c = float(wt[p])
                flow = flow + c * (Fi[j, 1, p][0] - Fi[j, ne + 1, p][0] + Fj[1, j, p][0] - Fj[ne + 1, j, p][0])
        cl.eq("mass of the tile", total, flow)

    return run


def flux_facts(inp, cl):
    """facts about the interface flux itself (the one the code is shown to use)"""
    from common.definitions import gravity as g

    sg, Hn, Ht = inp.real("sg", 0.5, 2), inp.real("Hn", 0.5, 2), inp.real("Ht", -0.4, 0.4)
    L = [inp.real("hL", 1, 2), inp.real("aL", -1, 1), inp.real("bL", -1, 1)]
    for x in (sg, Hn, L[0]):
        inp.assume(x > 0)
    # consistency: equal states on both sides give the physical flux
    F = ausm(g, sg, Hn, Ht, L, L, 1)
    p = 0.5 * g * L[0] * L[0]
    u = L[1] / L[0]
    cl.eq("consistency: mass", F[0], sg * L[1])
    cl.eq("consistency: normal momentum", F[1], sg * (L[1] * u + Hn * p))
    cl.eq("consistency: tangential momentum", F[2], sg * (L[2] * u + Ht * p))


def mirror(inp, cl):
    """seen from the other side of the interface (normal reversed, metric rescaled) it is the same mass flux"""
    from common.definitions import gravity as g

    c = [inp.real("cL", 1, 2), inp.real("cR", 1, 2)]  # sqrt of the depth times sqrt(Hn)
    sg, k, s = inp.real("sg", 0.5, 2), inp.real("k", 0.5, 2), inp.real("s", 0.5, 2)
    for x in c + [sg, k, s]:
        inp.assume(x > 0)
    Hn = s * s
    L = [c[0] * c[0], inp.real("aL", -1, 1), inp.real("bL", -1, 1)]
    R = [c[1] * c[1], inp.real("aR", -1, 1), inp.real("bR", -1, 1)]
    F = ausm(g, sg, Hn, 0.0, L, R, 1)
    flip = lambda q: [q[0], -k * q[1], q[2]]
    B = ausm(g, sg / k, Hn * k * k, 0.0, flip(R), flip(L), 1)
    cl.eq("mass flux seen from the neighbour", B[0], -F[0])


SUBS = []
for ne, n, t, tier in ((2, 2, False, "quick"), (2, 2, True, "quick"), (2, 3, False, "thorough"), (3, 2, True, "thorough"), (1, 3, True, "quick")):
    SUBS.append(Sub(f"{ne}x{ne} elements of {n}x{n} points" + (", topography" if t else ""), balance(ne, n, t), tier=tier, tol=1e-7, sweep=True, undef=True,
                    bounds=f"{ne}x{ne} elements, {n} points per direction"))
SUBS.append(Sub("interface flux: consistency", flux_facts))
SUBS.append(Sub("interface flux: seen from both sides", mirror))

if __name__ == "__main__":
    main(
        "P12",
        SUBS,
        [
            "positive depth at the points and on the interfaces",
            "the metric is single-valued on interfaces; the halo exchange delivers arbitrary values (P01, P02 say which)",
            "real arithmetic",
        ],
        "The real right-hand side is executed on a tile with free state, metric, topography and halo values; z3 decides that "
        "every tendency equals the flux-form balance of its element with one flux per interface.",
        {"elements": "2x2 (3x3 in depth)", "points per direction": "2, 3"},
    )
