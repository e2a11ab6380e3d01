"""P14: the element operators interpolate, differentiate, integrate and filter polynomials exactly."""

import itertools
import math
import types

from wxv import geo, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.simu import quiet

TOL = 1e-9


def config(**kw):
    p = dict(filter_apply=False, filter_order=8, filter_cutoff=0.5, expfilter_apply=False, expfilter_strength=2.0, expfilter_order=4,
             expfilter_cutoff=0.25, apply_sponge=False, sponge_tscale=7.0, sponge_zscale=0.4, z0=0.0, z1=1.0)
    p.update(kw)
    return types.SimpleNamespace(**p)


def dev():
    d = simu.device()
    d.comm = types.SimpleNamespace(rank=0, size=1)
    return d


def geometry(kind, n, ne=2):
    d = dev()
    if kind == "cartesian":
        from geometry import Cartesian2D

        return Cartesian2D((0.0, 2.0), (0.0, 1.0), ne, ne + 1, n, d)
    if kind == "sphere2d":
        from geometry import CubedSphere2D

        return CubedSphere2D(ne, n, 0.0, 0.0, 0.0, geo.Topo(0), None, d)
    from geometry import CubedSphere3D

    return CubedSphere3D(ne, ne, n, 0.0, 0.0, 0.0, 10000.0, geo.Topo(0), types.SimpleNamespace(depth_approx="deep", case_number=31), d)


def operators(kind, n, **kw):
    from geometry import DFROperators

    with symnp.symbolic(False), quiet():
        g = geometry(kind, n)
        return g, DFROperators(g, config(**kw), g.device)


def nodes(n):
    with symnp.symbolic(False):
        return [float(x) for x in np.polynomial.legendre.leggauss(n)[0]], [float(x) for x in np.polynomial.legendre.leggauss(n)[1]]


class Poly:
    """A tensor-product polynomial with free coefficients in [-1, 1]; axes in storage order (last = x, fastest)"""

    def __init__(self, inp, name, degs):
        self.degs = degs
        self.c = {al: inp.real(name + "".join(f"_{a}" for a in al), -1, 1) for al in itertools.product(*[range(d + 1) for d in degs])}

    def at(self, pt):
        r = 0.0
        for al, c in self.c.items():
            r = r + c * math.prod(x**a for x, a in zip(pt, al))
        return r

    def d(self, axis, pt):
        r = 0.0
        for al, c in self.c.items():
            if al[axis]:
                r = r + c * (al[axis] * math.prod((x**a if k != axis else x ** (a - 1)) for k, (x, a) in enumerate(zip(pt, al))))
        return r

    def grid(self, inp, xs, lead=()):
        pts = list(itertools.product(*([xs] * len(self.degs))))
        return vec(inp, [self.at(p) for p in pts]), pts


def vec(inp, vals):
    a = symnp.np_empty(len(vals), dtype=object if inp.symbolic else float)
    for i, v in enumerate(vals):
        a[i] = v
    return symnp.wrap(a)


def c_close(cl, name, a, b, tol=TOL):
    cl.eq(name, a, b, tol=tol)


def one_d(n):
    """quadrature, extrapolation, plain and extended differentiation in one direction"""

    def run(inp, cl):
        g, m = operators("cartesian", n)
        xs, ws = nodes(n)
        for i in range(n):
            cl.holds(f"solution point {i}", abs(float(g.solutionPoints[i]) - xs[i]) < 1e-13)
        P = Poly(inp, "p", (n - 1,))
        v, pts = P.grid(inp, xs)
        c_close(cl, "extrapolation to -1", m.extrap_west @ v, P.at((-1.0,)))
        c_close(cl, "extrapolation to +1", m.extrap_east @ v, P.at((1.0,)))
        for nm in ("south", "down"):
            c_close(cl, f"extrapolation {nm}", getattr(m, "extrap_" + nm) @ v, P.at((-1.0,)))
        for nm in ("north", "up"):
            c_close(cl, f"extrapolation {nm}", getattr(m, "extrap_" + nm) @ v, P.at((1.0,)))
        c_close(cl, "derivative (no boundary values)", m.diff @ v, vec(inp, [P.d(0, p) for p in pts]))
        c_close(cl, "derivative, transposed operator", v @ m.diff_tr, vec(inp, [P.d(0, p) for p in pts]))
        R = Poly(inp, "r", (2 * n - 1,))
        w, _ = R.grid(inp, xs)
        integral = 0.0
        for (k,), c in R.c.items():
            if k % 2 == 0:
                integral = integral + c * (2.0 / (k + 1))
        gw = np.asarray(g.glweights, dtype=float)
        c_close(cl, "quadrature", sum(w[i] * float(gw[i]) for i in range(n)), integral)
        # extended element: values at the points and at both ends
        E = Poly(inp, "e", (n + 1,))
        u, _ = E.grid(inp, xs)
        ends = vec(inp, [E.at((-1.0,)), E.at((1.0,))])
        want = vec(inp, [E.d(0, p) for p in pts])
        c_close(cl, "derivative with boundary values", m.diff_solpt @ u + m.correction @ ends, want)
        c_close(cl, "same, transposed operators", u @ m.diff_solpt_tr + ends @ m.correction_tr, want)
        # arbitrary point and boundary values: the derivative integrates to the difference of the boundary values
        q = inp.array("q", n, -1, 1)
        b = inp.array("b", 2, -1, 1)
        dq = m.diff_solpt @ q + m.correction @ b
        c_close(cl, "integral of the derivative is the difference of the boundary values", sum(dq[i] * float(gw[i]) for i in range(n)), b[1] - b[0])
        # filter of the highest mode
        low = Poly(inp, "l", (n - 2,)) if n > 1 else None
        if low is not None:
            lv, _ = low.grid(inp, xs)
            c_close(cl, "high filter keeps lower modes", m.highfilter @ lv, lv)
        with symnp.symbolic(False):
            top = np.polynomial.legendre.Legendre.basis(n - 1)(np.array(xs))
        t = inp.real("t", -1, 1)
        c_close(cl, "high filter removes the highest mode", m.highfilter @ vec(inp, [t * float(x) for x in top]), vec(inp, [0.0 * t] * n))

    return run


def tensor(kind, n):
    """the operators for whole elements, in the storage order of the fields"""

    def run(inp, cl):
        g, m = operators(kind, n)
        xs, ws = nodes(n)
        dim = 3 if kind == "sphere3d" else 2
        P = Poly(inp, "p", (min(n - 1, 2),) * dim if dim == 3 else (n - 1,) * dim)
        if dim == 3:  # one direction at full degree at a time would be enough; keep the number of coefficients small
            P.c.update({tuple(n - 1 if k == a else 0 for k in range(3)): inp.real(f"px{a}", -1, 1) for a in range(3)})
        v, pts = P.grid(inp, xs)
        faces = list(itertools.product(*([xs] * (dim - 1))))
        axes = {"x": dim - 1, "y": dim - 2 if dim == 3 else 0, "z": 0}
        # several elements at once: the operators act on the last index
        Q = symnp.wrap(np.stack([np.asarray(v, dtype=object if inp.symbolic else float), 2.0 * np.asarray(v)]))
        for nm, ax in axes.items():
            ex = getattr(m, "extrap_" + nm)
            got = Q @ ex
            cl.eq(f"extrapolation in {nm}: shape", np.array(got.shape), np.array((2, 2 * n ** (dim - 1))))
            for side, x in ((0, -1.0), (1, 1.0)):
                for i, f in enumerate(faces):
                    pt = f[:ax] + (x,) + f[ax:]
                    c_close(cl, f"extrapolation in {nm}, side {side}, point {i}", got[0, side * len(faces) + i], P.at(pt))
                    c_close(cl, f"extrapolation in {nm}, side {side}, point {i}, other element", got[1, side * len(faces) + i], 2.0 * P.at(pt))
            co = {"x": "WE", "y": "SN", "z": "DU"}[nm]
            bound = vec(inp, [P.at(f[:ax] + (x,) + f[ax:]) for x in (-1.0, 1.0) for f in faces])
            der = v @ getattr(m, "derivative_" + nm) + bound @ getattr(m, "correction_" + co)
            for i, p in enumerate(pts):
                c_close(cl, f"derivative in {nm}, point {i}", der[i], P.d(ax, p))
            # conservation, for arbitrary point and boundary values
            q = inp.array(f"q{nm}", n**dim, -1, 1)
            b = inp.array(f"b{nm}", 2 * n ** (dim - 1), -1, 1)
            dq = q @ getattr(m, "derivative_" + nm) + b @ getattr(m, "correction_" + co)
            idx = {p: i for i, p in enumerate(itertools.product(*([range(n)] * dim)))}
            for i, f in enumerate(itertools.product(*([range(n)] * (dim - 1)))):
                s = 0.0
                for k in range(n):
                    s = s + dq[idx[f[:ax] + (k,) + f[ax:]]] * ws[k]
                c_close(cl, f"integral of the derivative along {nm}, line {i}", s, b[n ** (dim - 1) + i] - b[i])
        if dim == 2:
            w2 = np.asarray(m.quad_weights, dtype=float).reshape(-1)
            for i, (a, b) in enumerate(itertools.product(range(n), range(n))):
                cl.holds(f"2-D quadrature weight {i}", abs(float(w2[i]) - ws[a] * ws[b]) < 1e-13)
        else:
            # vertical high-mode filter: acts along z only
            with symnp.symbolic(False):
                top = np.polynomial.legendre.Legendre.basis(n - 1)(np.array(xs))
            f = inp.array("f", (n, n), -1, 1)
            lowc = inp.array("g", (n, n), -1, 1)
            field = vec(inp, [f[j, i] * float(top[k]) + lowc[j, i] * (1.0 if n > 1 else 0.0) for k in range(n) for j in range(n) for i in range(n)])
            got = field @ m.highfilter_k
            for t, (k, j, i) in enumerate(itertools.product(range(n), repeat=3)):
                c_close(cl, f"vertical high filter, point {t}", got[t], lowc[j, i] if n > 1 else 0.0 * lowc[j, i])

    return run


def lines(n):
    """comma_i/j/k, extrapolate_i/j/k, grad: the same operations on the (z, y, x) point layout"""

    def run(inp, cl):
        g, m = operators("sphere3d", n)
        xs, ws = nodes(n)
        ne = [g.num_elements_x3, g.num_elements_x2, g.num_elements_x1]
        shape = (ne[0] * n, ne[1] * n, ne[2] * n)
        # one free polynomial (degree n + 1) per direction and element, times a free amplitude pattern
        amp = inp.array("a", shape, -1, 1)
        for ax, (nm, name) in enumerate((("k", "z"), ("j", "y"), ("i", "x"))):
            polys = [Poly(inp, f"p{nm}{e}", (n + 1,)) for e in range(ne[ax])]
            low = [Poly(inp, f"l{nm}{e}", (n - 1,)) for e in range(ne[ax])]
            F = symnp.np_empty(shape, dtype=object if inp.symbolic else float)
            G = symnp.np_empty(shape, dtype=object if inp.symbolic else float)
            D = {}
            other = [a for a in range(3) if a != ax]
            s = {}
            for idx in np.ndindex(*shape):
                e, p = divmod(idx[ax], n)
                key = (idx[other[0]], idx[other[1]])
                f = 1.0 + key[0] * 0.25 - key[1] * 0.125
                F[idx] = f * polys[e].at((xs[p],))
                G[idx] = f * low[e].at((xs[p],))
                D[idx] = f * polys[e].d(0, (xs[p],))
            bshape = list(shape)
            bshape[ax] = ne[ax]
            bshape.insert(ax + 1, 2)
            B = symnp.np_empty(tuple(bshape), dtype=object if inp.symbolic else float)
            L = {}
            for idx in np.ndindex(*bshape):
                e, side = idx[ax], idx[ax + 1]
                rest = [v for t, v in enumerate(idx) if t not in (ax, ax + 1)]
                f = 1.0 + rest[0] * 0.25 - rest[1] * 0.125
                x = -1.0 if side == 0 else 1.0
                B[idx] = f * polys[e].at((x,))
                L[idx] = f * low[e].at((x,))
            F, G, B = symnp.wrap(F), symnp.wrap(G), symnp.wrap(B)
            got = getattr(m, "comma_" + nm)(F, B, g)
            cl.eq(f"comma_{nm}: shape", np.array(got.shape), np.array(shape))
            for idx in np.ndindex(*shape):
                c_close(cl, f"comma_{nm} {idx}", got[idx], D[idx])
            got = getattr(m, "extrapolate_" + nm)(G, g)
            cl.eq(f"extrapolate_{nm}: shape", np.array(got.shape), np.array(bshape))
            for idx in np.ndindex(*bshape):
                c_close(cl, f"extrapolate_{nm} {idx}", got[idx], L[idx])

    return run


def expfilter(n, cutoff, order, strength):
    """exponential filter: the sqrt(G)-weighted integral of each element is kept; each mode damped as configured"""

    def run(inp, cl):
        g, m = operators("sphere3d", n, expfilter_apply=True, expfilter_strength=strength, expfilter_order=order, expfilter_cutoff=cutoff)
        xs, ws = nodes(n)
        sq = np.array([1.0 + 0.25 * math.sin(3.0 + 2 * i) for i in range(n**3)])
        metric = types.SimpleNamespace(sqrtG_new=sq, inv_sqrtG_new=1.0 / sq)
        Q = inp.array("q", (2, n**3), -1, 1)
        Q0 = Q.copy()
        new = m.apply_filters(Q, g, metric, 1.0)
        cl.eq("shape", np.array(new.shape), np.array(Q0.shape))
        w3 = [a * b * c for a in ws for b in ws for c in ws]
        for v in range(2):
            a = sum(new[v, i] * float(sq[i] * w3[i]) for i in range(n**3))
            b = sum(Q0[v, i] * float(sq[i] * w3[i]) for i in range(n**3))
            c_close(cl, f"element integral of field {v}", a, b)
        with symnp.symbolic(False):
            leg = [np.polynomial.legendre.Legendre.basis(k)(np.array(xs)) for k in range(n)]
        one = types.SimpleNamespace(sqrtG_new=np.ones(n**3), inv_sqrtG_new=np.ones(n**3))

        def sigma(k):
            t = k / (n - 1)
            return 1.0 if t <= cutoff else math.exp(-strength * ((t - cutoff) / (1 - cutoff)) ** order)

        amp = inp.array("a", (n, n, n), -1, 1)
        F = symnp.np_empty((1, n**3), dtype=object if inp.symbolic else float)
        W = []
        for t, (k, j, i) in enumerate(itertools.product(range(n), repeat=3)):
            s, r = 0.0, 0.0
            for a, b, c in itertools.product(range(n), repeat=3):
                co = float(leg[a][k] * leg[b][j] * leg[c][i])
                s = s + amp[a, b, c] * co
                r = r + amp[a, b, c] * (co * sigma(a) * sigma(b) * sigma(c))
            F[0, t] = s
            W.append(r)
        got = m.apply_filters(symnp.wrap(F), g, one, 1.0)
        for t in range(n**3):
            c_close(cl, f"damping of all modes, point {t}", got[0, t], W[t])

    return run


def sponge(n):
    def run(inp, cl):
        with symnp.symbolic(False), quiet():
            from geometry import DFROperators

            g = geometry("cartesian", n)
            p = config(apply_sponge=True)
            m = DFROperators(g, p, g.device)
        shape = np.shape(g.X3)
        Q = inp.array("q", (4,) + shape, -1, 1)
        Q0 = Q.copy()
        dt = inp.real("dt", 0.5, 4)
        inp.assume(dt > 0)
        new = m.apply_filters(Q, g, None, dt)
        zs = p.z1 - p.sponge_zscale
        for idx in np.ndindex(*shape):
            z = float(g.X3[idx])
            b = math.sin(0.5 * math.pi * (z - zs) / (p.z1 - zs)) ** 2 / p.sponge_tscale if z >= zs else 0.0
            for v in range(4):
                if v == 2:
                    r = new[(v,) + idx] * (1.0 + b * dt)
                    # the damping profile is a floating-point number: the claim is for |q|, dt <= 4
                    cl.holds(f"vertical momentum at {idx}", abs(r - Q0[(v,) + idx]) <= 1e-12 * (abs(Q0[(v,) + idx]) * (1.0 + dt)))
                else:
                    cl.eq(f"field {v} at {idx} untouched", new[(v,) + idx], Q0[(v,) + idx])

    return run


def no_filter(kind, n):
    def run(inp, cl):
        g, m = operators(kind, n)
        Q = inp.array("q", (3, 2, 2, n * n), -1, 1)
        Q0 = Q.copy()
        new = m.apply_filters(Q, g, None, inp.real("dt", 0.5, 4))
        cl.eq("state without filters", new, Q0)

    return run


SUBS = []
for n in range(2, 9):
    SUBS.append(Sub(f"one direction, {n} points", one_d(n), box=1.0, tol=1e-8, tier="quick" if n <= 7 else "thorough"))
for n in range(2, 6):
    SUBS.append(Sub(f"Cartesian elements, {n} points", tensor("cartesian", n), box=1.0, tier="quick" if n <= 4 else "thorough"))
for n in range(2, 6):
    SUBS.append(Sub(f"2-D cubed-sphere elements, {n} points", tensor("sphere2d", n), box=1.0, tier="quick" if n <= 4 else "thorough"))
for n in range(2, 5):
    SUBS.append(Sub(f"3-D elements, {n} points", tensor("sphere3d", n), box=1.0, tier="quick" if n <= 3 else "thorough"))
for n in (2, 3):
    SUBS.append(Sub(f"line operators, {n} points", lines(n), box=1.0))
for n, c, o, s in ((2, 0.25, 4, 2.0), (3, 0.25, 4, 2.0), (3, 0.6, 2, 36.0)):
    SUBS.append(Sub(f"exponential filter, {n} points, cutoff {c}, order {o}, strength {s}", expfilter(n, c, o, s), box=1.0))
SUBS.append(Sub("exponential filter, 4 points", expfilter(4, 0.4, 3, 5.0), box=1.0, tier="thorough"))
for n in (2, 3):
    SUBS.append(Sub(f"sponge, {n} points", sponge(n)))
SUBS.append(Sub("no filter", no_filter("sphere2d", 2)))

if __name__ == "__main__":
    main(
        "P14",
        SUBS,
        [
            "operator matrices are built by the real code in floating point; identities hold to 1e-9 for polynomial "
            "coefficients in [-1, 1]",
        ],
        "The real operator matrices (built by the code for each number of points) are applied by the real code to fields "
        "with free polynomial coefficients; z3 decides in linear arithmetic that the result equals the exact value, for all "
        "coefficients in [-1, 1].",
        {"points per direction": "2 to 7 in 1-D (8 in depth), 2-4 in 2-D (5), 2-3 in 3-D (4)", "tolerance": TOL},
    )
