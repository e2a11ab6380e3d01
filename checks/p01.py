"""P01: a scalar halo exchange delivers to every boundary point the neighbour's value at the same physical point."""

from wxv.check import Sub, main, np
from wxv import fakempi, cube, symnp

EDGES = ("south", "north", "west", "east")


def build(inp, n, layout):
    """shape of the exchanged arrays, boundary shape, flip_dim, and how point k of the edge is indexed"""
    kind = layout[0]
    if kind == "line":  # (lead..., m)
        _, lead, m = layout
        return tuple(lead) + (m,), (m,), -1, m
    if kind == "fused":  # (lead..., ne, ns), the boundary is a line of ne*ns points
        _, lead, ne, ns = layout
        return tuple(lead) + (ne, ns), (ne * ns,), -1, ne * ns
    if kind == "block":  # (lead..., ne, ns*nv): element, (vertical point, horizontal point)
        _, lead, ne, ns = layout
        return tuple(lead) + (ne, ns * ns), (ne, ns, ns), (-3, -1), ne * ns
    raise ValueError(kind)


def point_view(a, layout):
    """View of an exchanged array as (others, edge point)"""
    kind = layout[0]
    if kind == "line":
        return a.reshape(-1, layout[2])
    if kind == "fused":
        return a.reshape(-1, layout[2] * layout[3])
    _, lead, ne, ns = layout
    b = a.reshape(tuple(lead) + (ne, ns, ns))
    b = np.moveaxis(b, -2, -3)  # vertical first
    return b.reshape(-1, ne * ns)


def harness(n, layout):
    def fn(inp, cl):
        from process_topology import ProcessTopology

        shape, bshape, flip, m = build(inp, n, layout)
        T = cube.Tiles(n, m)
        data = {}
        for r in range(T.size):
            for e in range(4):
                data[r, e] = inp.array(f"q{r}{EDGES[e]}", shape)

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            req = topo.start_exchange_scalars(
                data[r, 0].copy(), data[r, 1].copy(), data[r, 2].copy(), data[r, 3].copy(), bshape, flip_dim=flip
            )
            return req.wait()

        res = fakempi.World(T.size).run(rank)
        for r in range(T.size):
            st, val = res.get(r, ("missing", None))
            if st == "raise":
                raise val
            if st != "ok":
                cl.fail(f"rank {r}", f"exchange ends with {st}")
                continue
            for e in range(4):
                got = np.asarray(val[e])
                if got.shape != shape:
                    cl.fail(f"rank {r} {EDGES[e]}", f"shape {got.shape}, not {shape}")
                    continue
                got = point_view(got, layout)
                for k in range(m):
                    r2, e2, k2 = T.across(r, e, k)
                    cl.eq(f"rank {r} {EDGES[e]} point {k}", got[:, k], point_view(data[r2, e2], layout)[:, k2])

    return fn


SUBS = [
    Sub("6 ranks, line of 3", harness(1, ("line", (), 3))),
    Sub("6 ranks, (2,4) lines", harness(1, ("line", (2,), 4))),
    Sub("6 ranks, fused elements", harness(1, ("fused", (2,), 2, 3))),
    Sub("6 ranks, element blocks", harness(1, ("block", (2,), 3, 2))),
    Sub("6 ranks, several fields of element blocks", harness(1, ("block", (2, 2), 3, 2))),
    Sub("6 ranks, several fields of lines", harness(1, ("line", (2, 2), 3))),
    Sub("6 ranks, single element blocks", harness(1, ("block", (1,), 1, 3))),
    Sub("24 ranks, line of 3", harness(2, ("line", (), 3))),
    Sub("24 ranks, element blocks", harness(2, ("block", (), 2, 2))),
    Sub("54 ranks, line of 2", harness(3, ("line", (), 2))),
    Sub("54 ranks, element blocks", harness(3, ("block", (), 2, 2))),
    Sub("96 ranks, line of 2", harness(4, ("line", (), 2))),
    Sub("96 ranks, element blocks", harness(4, ("block", (2,), 3, 3))),
    Sub("150 ranks, element blocks", harness(5, ("block", (), 2, 3))),
]

if __name__ == "__main__":
    main(
        "P01",
        SUBS,
        assumptions=[
            "MPI is replaced by a simulation of ranks as cooperatively scheduled threads: neighbour collectives deliver "
            "slot i of a sender to the matching source slot of the receiver, collectives complete when all ranks arrive",
            "field values are arbitrary reals (the exchange does no arithmetic on them)",
            "the physical position of a boundary point comes from an independent description of the cube (wxv/cube.py)",
        ],
        technique_note="The real ProcessTopology is constructed and its scalar exchange executed on symbolic edge "
        "values, on every rank of a simulated MPI world; for each received point z3 decides that the received term "
        "equals, for all field values, the neighbour's value at the same physical point of the cube.",
        bounds="6, 24, 54, 96 and 150 ranks, 2-9 points per tile edge, 1-D, fused and element-block layouts",
    )
