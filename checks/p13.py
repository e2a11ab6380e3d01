"""P13: the 2-D cubed-sphere grid, wind conversions and metric describe one and the same rotated sphere."""

import math
from fractions import Fraction

from wxv.check import Sub, main, np, sym
from wxv import geo, symnp

R, OMEGA = 6371220.0, 7.29212e-5


def tile(inp, panel, ne, ns, n, row, col, rot):
    """the real geometry of one tile; rot: 'free' | 'axis' (only lambda0) | 'none' """
    from geometry.cubed_sphere_2d import CubedSphere2D

    if rot == "none":
        ang = (0.0, 0.0, 0.0)
    elif rot == "axis":
        ang = (inp.real("lambda0", -1.5, -0.05, bounded=True), 0.0, 0.0)
    elif rot == "rational":  # angles whose cosines and sines are rational numbers (and so are the panel centres')
        F = Fraction
        c, d = (F(140, 221), F(171, 221)) if panel < 4 else (F(171, 221), F(140, 221))
        ang = (
            inp.angle("lambda0", F(3, 5), F(-4, 5)),
            inp.angle("phi0", F(55, 73), F(48, 73)),
            inp.angle("alpha0", c, -d),
        )
    else:
        ang = (
            inp.real("lambda0", -1.5, -0.05, bounded=True),
            inp.real("phi0", 0.02, 0.75, bounded=True),
            inp.real("alpha0", -1.5, -0.05, bounded=True),
        )
    with symnp.opaque_trig(inp.symbolic):
        g = CubedSphere2D(ne, ns, *ang, geo.Topo(panel, n, row, col), None, geo.Device())
        frame = geo.panel_frame(panel, *ang)
    return g, frame


def coords(g, cl, ne, ns, n, row, col):
    """positions of the solution points and element edges inside the tile (concrete numbers)"""
    h = math.pi / 2 / n / ne
    with symnp.symbolic(False):
        gl = np.polynomial.legendre.leggauss(ns)[0]
    for name, got, start in (("x1", g.x1, col), ("x2", g.x2, row)):
        want = [-math.pi / 4 + start * ne * h + (e + (x + 1) / 2) * h for e in range(ne) for x in gl]
        for k, (a, b) in enumerate(zip(list(np.asarray(got)), want)):
            cl.holds(f"{name}[{k}]", abs(float(a) - b) < 1e-13)
    for name, got, start in (("x1 edges", g.x1_itf_i, col), ("x2 edges", g.x2_itf_j, row)):
        for e in range(ne + 1):
            cl.holds(f"{name}[{e}]", abs(float(got[e]) - (-math.pi / 4 + (start * ne + e) * h)) < 1e-13)
    cl.holds("delta_x1", abs(float(g.delta_x1) - h) < 1e-14)
    cl.holds("delta_x2", abs(float(g.delta_x2) - h) < 1e-14)


def tan_nodes(inp, x):
    with symnp.opaque_trig(inp.symbolic):
        return [np.tan(v) if inp.symbolic else math.tan(float(v)) for v in list(np.asarray(x))]


def placement(panel, rot, ne=2, ns=2, n=1, row=0, col=0, polar=True):
    """every point (and element edge point) lies where the rotated gnomonic projection puts it"""

    def fn(inp, cl):
        g, frame = tile(inp, panel, ne, ns, n, row, col, rot)
        coords(g, cl, ne, ns, n, row, col)
        X1, X2 = tan_nodes(inp, g.x1), tan_nodes(inp, g.x2)
        E1, E2 = tan_nodes(inp, g.x1_itf_i), tan_nodes(inp, g.x2_itf_j)

        def at(name, arrs, X, Y, idx):
            r, _, _ = geo.embedding(frame, X, Y)
            cart, lon, lat = arrs
            for i in range(3):
                cl.eq(f"{name} cartesian[{i}]", cart[(i,) + idx] / R, r[i])
            if not polar:
                return
            co, so = geo.cos_sin(lon[idx])
            ca, sa = geo.cos_sin(lat[idx])
            cl.eq(f"{name} longitude (cos)", ca * co, r[0])
            cl.eq(f"{name} longitude (sin)", ca * so, r[1])
            cl.eq(f"{name} latitude", sa, r[2])
            if not inp.symbolic:
                cl.holds(f"{name} longitude range", 0.0 <= lon[idx] < 2 * math.pi + 1e-12)

        for ej in range(ne):
            for ei in range(ne):
                for j in range(ns):
                    for i in range(ns):
                        idx = (ej, ei, j * ns + i)
                        X, Y = X1[ei * ns + i], X2[ej * ns + j]
                        nm = f"point {idx}"
                        cl.eq(f"{nm} X", g.X[idx], X)
                        cl.eq(f"{nm} Y", g.Y[idx], Y)
                        at(nm, (g.cart, g.lon, g.lat), X, Y, idx)
                        cl.eq(f"{nm} cos lat", g.coslat[idx], geo.cos_sin(g.lat[idx])[0])
                        cl.eq(f"{nm} sin lat", g.sinlat[idx], geo.cos_sin(g.lat[idx])[1])
                        cl.eq(f"{nm} cos lon", g.coslon[idx], geo.cos_sin(g.lon[idx])[0])
                        cl.eq(f"{nm} sin lon", g.sinlon[idx], geo.cos_sin(g.lon[idx])[1])
                        cl.eq(f"{nm} block layout", g.block_lat[ej * ns + j, ei * ns + i], g.lat[idx])
                for side in range(2):  # west, east edge of the element
                    for j in range(ns):
                        idx = (ej, ei + 1, side * ns + j)
                        at(f"i-edge {idx}", (g.cart_itf_i, g.lon_itf_i, g.lat_itf_i), E1[ei + side], X2[ej * ns + j], idx)
                    for i in range(ns):
                        idx = (ej + 1, ei, side * ns + i)
                        at(f"j-edge {idx}", (g.cart_itf_j, g.lon_itf_j, g.lat_itf_j), X1[ei * ns + i], E2[ej + side], idx)

    return fn


def winds(panel, rot, ns=2):
    """zonal/meridional wind <-> contravariant components: both describe the same tangent vector"""

    def fn(inp, cl):
        g, frame = tile(inp, panel, 2, ns, 1, 0, 0, rot)
        u, v = inp.array("u", g.grid_shape, -50, 50), inp.array("v", g.grid_shape, -50, 50)
        a, b = inp.array("a", g.grid_shape, -1e-4, 1e-4), inp.array("b", g.grid_shape, -1e-4, 1e-4)
        with symnp.opaque_trig(inp.symbolic):
            u1, u2 = g.wind2contra(u, v)
            w1, w2 = g.contra2wind(a, b)
        for idx in np.ndindex(*g.grid_shape):
            X, Y = g.X[idx], g.Y[idx]
            r, (r1, r2), _ = geo.embedding(frame, X, Y)
            co, so = g.coslon[idx], g.sinlon[idx]
            ca, sa = g.coslat[idx], g.sinlat[idx]
            east = [-so, co, 0.0 * co]
            north = [-sa * co, -sa * so, ca]
            hx, hy = g.delta_x1 / 2.0, g.delta_x2 / 2.0
            for i in range(3):
                cl.eq(f"to contravariant {idx}[{i}]", R * (hx * u1[idx] * r1[i] + hy * u2[idx] * r2[i]),
                      u[idx] * east[i] + v[idx] * north[i])
                cl.eq(f"from contravariant {idx}[{i}]", w1[idx] * east[i] + w2[idx] * north[i],
                      R * (hx * a[idx] * r1[i] + hy * b[idx] * r2[i]))

    return fn


def round_trip(panel, rot, ns=2):
    def fn(inp, cl):
        g, _ = tile(inp, panel, 2, ns, 1, 0, 0, rot)
        u, v = inp.array("u", g.grid_shape, -50, 50), inp.array("v", g.grid_shape, -50, 50)
        with symnp.opaque_trig(inp.symbolic):
            a, b = g.contra2wind(*g.wind2contra(u, v))
        cl.eq("zonal wind back", a, u)
        cl.eq("meridional wind back", b, v)

    return fn


def metric(panel, rot, ne=2, ns=2, n=1, row=0, col=0):
    def fn(inp, cl):
        from geometry.metric2d import Metric2D

        g, frame = tile(inp, panel, ne, ns, n, row, col, rot)
        with symnp.opaque_trig(inp.symbolic):
            m = Metric2D(g)
        h = g.delta_x1 / 2.0
        frame0 = geo.panel_frame(panel, 0.0, 0.0, 0.0)  # the metric does not depend on the rotation
        get = lambda a, idx: a[idx] if isinstance(a, np.ndarray) else a
        for idx in np.ndindex(*g.grid_shape):
            X, Y = g.X[idx], g.Y[idx]
            r, (r1, r2), dd = geo.embedding(frame0, X, Y)
            d = (r1, r2)
            G = [[R * R * h * h * geo.dot(d[i], d[j]) for j in range(2)] for i in range(2)]
            det = G[0][0] * G[1][1] - G[0][1] * G[1][0]
            cov = [[m.H_cov_11[idx], m.H_cov_12[idx]], [m.H_cov_21[idx], m.H_cov_22[idx]]]
            con = [[m.H_contra_11[idx], m.H_contra_12[idx]], [m.H_contra_21[idx], m.H_contra_22[idx]]]
            inv = [[G[1][1] / det, -G[0][1] / det], [-G[1][0] / det, G[0][0] / det]]
            for i in range(2):
                for j in range(2):
                    cl.eq(f"{idx} covariant metric {i}{j}", cov[i][j] / (R * R), G[i][j] / (R * R))
                    cl.eq(f"{idx} contravariant metric {i}{j}", con[i][j] * (R * R), inv[i][j] * (R * R))
                    cl.eq(f"{idx} metric in one array {i}{j}", m.h_contra[(i, j) + idx], con[i][j])
            cl.eq(f"{idx} area element", m.sqrtG[idx] / (R * R), h * h * geo.triple(r, r1, r2))
            cl.eq(f"{idx} inverse area element", m.sqrtG[idx] * m.inv_sqrtG[idx], 1.0)
            names = {
                (0, 0, 0): m.christoffel_1_11, (0, 0, 1): m.christoffel_1_12, (0, 1, 0): m.christoffel_1_21,
                (0, 1, 1): m.christoffel_1_22, (1, 0, 0): m.christoffel_2_11, (1, 0, 1): m.christoffel_2_12,
                (1, 1, 0): m.christoffel_2_21, (1, 1, 1): m.christoffel_2_22,
            }
            for (i, j, k), val in names.items():
                want = sum(inv[i][l] * R * R * h * h * h * geo.dot(d[l], dd[j][k]) for l in range(2))
                cl.eq(f"{idx} Christoffel {i + 1}_{j + 1}{k + 1}", get(val, idx), want)
            # rotation: f = 2 Omega sin(latitude) from the placement of the point on the rotated sphere
            pos, _, _ = geo.embedding(frame, X, Y)
            f = 2.0 * OMEGA * pos[2]
            cl.eq(f"{idx} Coriolis parameter", m.coriolis_f[idx] / OMEGA, f / OMEGA)
            root = R * R * h * h * geo.triple(r, r1, r2)  # = sqrt(det), as r is the unit normal
            rot_terms = {
                "1_01": (m.christoffel_1_01, m.christoffel_1_10, -f * G[0][1] / root),
                "1_02": (m.christoffel_1_02, m.christoffel_1_20, -f * G[1][1] / root),
                "2_01": (m.christoffel_2_01, m.christoffel_2_10, f * G[0][0] / root),
                "2_02": (m.christoffel_2_02, m.christoffel_2_20, f * G[0][1] / root),
            }
            for nm, (v1, v2, want) in rot_terms.items():
                cl.eq(f"{idx} Coriolis Christoffel {nm}", 2.0 * v1[idx] / OMEGA, want / OMEGA)
                cl.eq(f"{idx} Coriolis Christoffel {nm} (symmetric)", v2[idx], v1[idx])

        # element edges
        for nm, gX, gY, sq, con, sl in (
            ("i-edge", g.X_itf_i, g.Y_itf_i, m.sqrtG_itf_i,
             (m.H_contra_11_itf_i, m.H_contra_12_itf_i, m.H_contra_21_itf_i, m.H_contra_22_itf_i), "i"),
            ("j-edge", g.X_itf_j, g.Y_itf_j, m.sqrtG_itf_j,
             (m.H_contra_11_itf_j, m.H_contra_12_itf_j, m.H_contra_21_itf_j, m.H_contra_22_itf_j), "j"),
        ):
            for ej in range(ne):
                for ei in range(ne):
                    for k in range(2 * ns):
                        idx = (ej, ei + 1, k) if sl == "i" else (ej + 1, ei, k)
                        X, Y = gX[idx], gY[idx]
                        r, (r1, r2), _ = geo.embedding(frame0, X, Y)
                        d = (r1, r2)
                        G = [[h * h * geo.dot(d[i], d[j]) for j in range(2)] for i in range(2)]
                        det = G[0][0] * G[1][1] - G[0][1] * G[1][0]
                        cl.eq(f"{nm} {idx} area element", sq[idx] / (R * R), h * h * geo.triple(r, r1, r2))
                        for q, want in zip(con, (G[1][1] / det, -G[0][1] / det, -G[0][1] / det, G[0][0] / det)):
                            cl.eq(f"{nm} {idx} contravariant metric", q[idx] * R * R, want)

    return fn


SUBS = []
for p in range(6):
    for rot in ("none", "axis", "free"):
        SUBS.append(Sub(f"placement, panel {p}, rotation {rot}", placement(p, rot, polar=rot != "free" or p == 0), paths=4,
                        bounds="2x2 elements of 2x2 points, all coordinates and rotation angles"))
        if rot == "free" and p > 0:
            rot = "rational"
            SUBS.append(Sub(f"placement, panel {p}, rotation {rot}", placement(p, rot), paths=4))
        SUBS.append(Sub(f"winds, panel {p}, rotation {rot}", winds(p, rot), paths=4))
        if rot == ("none", "axis", "rational")[p % 3] or rot == "free" or (rot, p) == ("axis", 5):
            SUBS.append(Sub(f"metric, panel {p}, rotation {rot}", metric(p, rot), paths=4))
    SUBS.append(Sub(f"wind round trip, panel {p}", round_trip(p, "rational"), paths=4))
SUBS.append(Sub("placement, 2x2 elements of 3x3 points, tile (1,0) of 2x2", placement(0, "none", 2, 3, 2, 1, 0)))
SUBS.append(Sub("placement, 3x3 elements, tile (1,2) of 3x3, panel 4", placement(4, "axis", 3, 2, 3, 1, 2)))
SUBS.append(Sub("metric, 2x2 elements, tile (0,1) of 2x2, panel 3", metric(3, "axis", 2, 2, 2, 0, 1)))

if __name__ == "__main__":
    main(
        "P13",
        SUBS,
        assumptions=[
            "real arithmetic: the tangents, sines and cosines of the grid are arbitrary reals (with sin^2+cos^2=1), "
            "rounding is not modelled",
            "grid rotation angles within the documented ranges (phi0 >= 0.02 in the general case; phi0=alpha0=0 apart)",
        ],
        technique_note="The real geometry and metric constructors run with the tangents of the grid coordinates and the "
        "rotation angles symbolic; z3 decides polynomial identities against an embedding of the sphere written "
        "down independently.",
        bounds="4 or 9 elements of 2x2 or 3x3 points; all six panels; tiles of 1, 2x2, 3x3 per panel",
    )
