"""P02: a vector halo exchange preserves the physical vector (contravariant and covariant components)."""

from wxv.check import Sub, main, np
from wxv import fakempi, cube
from checks.p01 import build, point_view, EDGES


def edge_coords(inp, T):
    """Gnomonic coordinate along a panel edge of each of its N points: antisymmetric, otherwise arbitrary."""
    N = T.N
    x = [0.0] * N
    for g in range(N // 2):
        v = inp.real(f"x{g}", -1.0 + g / N, -0.9 + g / N)
        inp.assume((v > -1) & (v < 0) if inp.symbolic else (v > -1 and v < 0))
        x[g] = v
        x[N - 1 - g] = -v
    return x


def harness(n, layout, ncomp, covariant):
    def fn(inp, cl):
        from process_topology import ProcessTopology

        shape, bshape, flip, m = build(inp, n, layout)
        T = cube.Tiles(n, m)
        x = edge_coords(inp, T)
        contra, comp, bcoord = {}, {}, {}
        for r in range(T.size):
            p, row, col = T.loc(r)
            for d, t in (("sn", col), ("we", row)):
                line = np.array([x[t * m + k] for k in range(m)], dtype=object if inp.symbolic else float)
                if len(bshape) == 1:
                    b = line
                else:
                    ne, ns = layout[2], layout[3]
                    b = np.repeat(line.reshape(ne, 1, ns), ns, axis=1)
                bcoord[r, d] = b
            for e in range(4):
                a1 = inp.array(f"a{r}{EDGES[e]}", shape)
                a2 = inp.array(f"b{r}{EDGES[e]}", shape)
                a3 = inp.array(f"c{r}{EDGES[e]}", shape)
                contra[r, e] = (a1, a2, a3)
                if not covariant:
                    comp[r, e] = contra[r, e]
                else:
                    v1, v2 = a1.copy(), a2.copy()
                    w1, w2 = point_view(v1, layout), point_view(v2, layout)
                    u1, u2 = point_view(a1, layout), point_view(a2, layout)
                    assert np.shares_memory(v1, w1) or layout[0] == "block"
                    o1, o2 = u1 * 0, u2 * 0
                    for k in range(m):
                        X, Y = position(T, x, r, e, k)
                        e1, e2 = cube.basis(p, X, Y)
                        v = [u1[:, k] * i + u2[:, k] * j for i, j in zip(e1, e2)]
                        o1[:, k] = sum(a * b for a, b in zip(v, e1))
                        o2[:, k] = sum(a * b for a, b in zip(v, e2))
                    comp[r, e] = (unview(o1, shape, layout), unview(o2, shape, layout), a3)

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            args = [tuple(c.copy() for c in comp[r, e][:ncomp]) for e in range(4)]
            req = topo.start_exchange_vectors(
                *args, bcoord[r, "sn"], bcoord[r, "we"], flip_dim=flip, covariant=covariant
            )
            return req.wait()

        res = fakempi.World(T.size).run(rank)
        for r in range(T.size):
            st, val = res.get(r, ("missing", None))
            if st == "raise":
                raise val
            if st != "ok":
                cl.fail(f"rank {r}", f"exchange ends with {st}")
                continue
            p = T.loc(r)[0]
            for e in range(4):
                if len(val[e]) != ncomp or any(np.shape(v) != shape for v in val[e]):
                    cl.fail(f"rank {r} {EDGES[e]}", "wrong number or shape of components")
                    continue
                got = [point_view(np.asarray(v), layout) for v in val[e]]
                for k in range(m):
                    r2, e2, k2 = T.across(r, e, k)
                    q = T.loc(r2)[0]
                    s1, s2, s3 = [point_view(c, layout)[:, k2] for c in contra[r2, e2]]
                    X, Y = position(T, x, r, e, k)
                    X2, Y2 = position(T, x, r2, e2, k2)
                    f1, f2 = cube.basis(q, X2, Y2)
                    sent = [s1 * i + s2 * j for i, j in zip(f1, f2)]
                    g1, g2 = cube.basis(p, X, Y)
                    nm = f"rank {r} (panel {p}) {EDGES[e]} point {k}"
                    if not covariant:
                        for c in range(3):
                            cl.eq(f"{nm} physical component {c}", got[0][:, k] * g1[c] + got[1][:, k] * g2[c], sent[c])
                    else:
                        for c, gb in ((0, g1), (1, g2)):
                            cl.eq(f"{nm} covariant component {c + 1}", got[c][:, k], sum(a * b for a, b in zip(sent, gb)))
                    if ncomp == 3:
                        cl.eq(f"{nm} vertical component", got[2][:, k], s3)

    return fn


def unview(o, shape, layout):
    if layout[0] != "block":
        return o.reshape(shape)
    _, lead, ne, ns = layout
    b = o.reshape(tuple(lead) + (ns, ne, ns))
    return np.ascontiguousarray(np.moveaxis(b, -3, -2)).reshape(shape)


def position(T, x, r, e, k):
    """Gnomonic coordinates of an edge point; across interior tile edges the fixed coordinate is that of the tile line"""
    p, row, col = T.loc(r)
    t = x[T.along(r, e, k)]
    if T.on_panel_edge(r, e):
        return cube.edge_xy(e, t)
    # interior tile edge: any fixed coordinate common to both sides will do
    line = {0: row, 1: row + 1, 2: col, 3: col + 1}[e]
    from fractions import Fraction

    c = float(Fraction(2 * line, T.n) - 1)
    return (t, c) if e in (0, 1) else (c, t)


SUBS = []
for cov in (False, True):
    w = "covariant" if cov else "contravariant"
    SUBS += [
        Sub(f"{w} 6 ranks, 2 components, line of 3", harness(1, ("line", (), 3), 2, cov)),
        Sub(f"{w} 6 ranks, 3 components, (2,2) lines", harness(1, ("line", (2,), 2), 3, cov)),
        Sub(f"{w} 6 ranks, 3 components, fused", harness(1, ("fused", (), 2, 2), 3, cov)),
        Sub(f"{w} 6 ranks, 3 components, element blocks", harness(1, ("block", (), 2, 2), 3, cov)),
        Sub(f"{w} 6 ranks, 3 components, several fields of blocks", harness(1, ("block", (2, 1), 2, 2), 3, cov)),
        Sub(f"{w} 24 ranks, 2 components, line of 2", harness(2, ("line", (), 2), 2, cov)),
        Sub(f"{w} 54 ranks, 3 components, line of 1", harness(3, ("line", (), 1), 3, cov)),
        Sub(f"{w} 54 ranks, 2 components, line of 2", harness(3, ("line", (), 2), 2, cov)),
        Sub(f"{w} 24 ranks, 3 components, element blocks", harness(2, ("block", (2,), 2, 2), 3, cov)),
        Sub(f"{w} 96 ranks, 3 components, line of 2", harness(4, ("line", (), 2), 3, cov)),
    ]

if __name__ == "__main__":
    main(
        "P02",
        SUBS,
        assumptions=[
            "MPI is replaced by a simulation of ranks as cooperatively scheduled threads",
            "component values are arbitrary reals; edge coordinates are arbitrary in (-1,1), symmetric about the panel "
            "centre (as Gauss-Legendre points on an equiangular grid are); floating point is read as real arithmetic",
            "the physical basis of each panel comes from an independent description of the cube (wxv/cube.py)",
        ],
        technique_note="The real vector exchange runs on symbolic components and symbolic edge coordinates on every "
        "rank of a simulated MPI world; z3 decides that the received components denote, in the receiver's basis, the "
        "physical vector that was sent (rational identities with denominators cleared).",
        bounds="6, 24, 54 ranks and 96, 1-4 points per tile edge, 2 and 3 components, 1-D, fused and block layouts",
    )
