"""P03: gathering tiles into a cube and distributing a cube over tiles are exact inverses, with the documented layout."""

import itertools

from wxv.check import Sub, main, np
from wxv import fakempi, cube


def _ranks(n):
    return 6 * n * n


def run_world(size, fn, cl, order=None):
    res = fakempi.World(size, order).run(fn)
    out = []
    for r in range(size):
        st, val = res.get(r, ("missing", None))
        if st == "raise":
            raise val
        if st != "ok":
            cl.fail(f"rank {r}", f"collective operation ends with {st}")
            return None
        out.append(val)
    return out


def tile_slices(n, ts, row, col, num_dim):
    """index of the tile inside a panel array whose 2 horizontal dimensions are num_dim-2 and num_dim-1"""
    lead = (slice(None),) * (num_dim - 2)
    return lead + (slice(row * ts, (row + 1) * ts), slice(col * ts, (col + 1) * ts))


def gather(n, tile_shape, num_dim, back):
    def fn(inp, cl):
        from process_topology import ProcessTopology

        size = _ranks(n)
        data = [inp.array(f"t{r}", tile_shape) for r in range(size)]
        ts = tile_shape[num_dim - 2]

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            whole = topo.gather_cube(data[r].copy(), num_dim)
            tile = topo.distribute_cube(None if whole is None else np.ascontiguousarray(whole), num_dim) if back else None
            return (None if whole is None else whole.copy()), tile

        res = run_world(size, rank, cl)
        if res is None:
            return
        T = cube.Tiles(n, 1)
        whole = res[0][0]
        shape = list(tile_shape)
        shape[num_dim - 2] *= n
        shape[num_dim - 1] *= n
        if whole is None or whole.shape != (6,) + tuple(shape):
            cl.fail("gathered cube", f"root has {None if whole is None else whole.shape}")
            return
        for r in range(size):
            p, row, col = T.loc(r)
            part = whole[p][tile_slices(n, ts, row, col, num_dim)]
            cl.eq(f"cube, tile of rank {r}", part, data[r])
            if r and res[r][0] is not None:
                cl.fail(f"rank {r}", "non-root rank got a cube")
            if back:
                if res[r][1] is None or res[r][1].shape != tuple(tile_shape):
                    cl.fail(f"rank {r}", "distributed tile has the wrong shape")
                else:
                    cl.eq(f"tile back on rank {r}", res[r][1], data[r])

    return fn


def scatter_first(n, panel_shape, num_dim):
    """distribute an arbitrary cube; then gather it again"""

    def fn(inp, cl):
        from process_topology import ProcessTopology

        size = _ranks(n)
        field = inp.array("f", (6,) + tuple(panel_shape))
        ts = panel_shape[num_dim - 2] // n

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            tile = topo.distribute_cube(field.copy() if r == 0 else None, num_dim)
            return tile.copy(), topo.gather_cube(tile.copy(), num_dim)

        res = run_world(size, rank, cl)
        if res is None:
            return
        T = cube.Tiles(n, 1)
        for r in range(size):
            p, row, col = T.loc(r)
            want = field[p][tile_slices(n, ts, row, col, num_dim)]
            if res[r][0].shape != want.shape:
                cl.fail(f"tile of rank {r}", f"shape {res[r][0].shape}, not {want.shape}")
            else:
                cl.eq(f"tile of rank {r}", res[r][0], want)
        if res[0][1] is None or res[0][1].shape != field.shape:
            cl.fail("regathered cube", "wrong shape")
        else:
            cl.eq("regathered cube", res[0][1], field)

    return fn


def panel_line(n, m):
    """1-D arrays are joined end to end along the panel's first row of tiles"""

    def fn(inp, cl):
        from process_topology import ProcessTopology

        size = _ranks(n)
        data = [inp.array(f"t{r}", (m,)) for r in range(size)]

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            g = topo.gather_tiles_to_panel(data[r].copy(), 1)
            return None if g is None else g.copy()

        res = run_world(size, rank, cl)
        if res is None:
            return
        T = cube.Tiles(n, 1)
        for r in range(size):
            p, row, col = T.loc(r)
            root = row == 0 and col == 0
            if root != (res[r] is not None):
                cl.fail(f"rank {r}", "only the panel root may hold the assembled line")
            elif root:
                want = np.concatenate([data[T.rank(p, 0, c)] for c in range(n)])
                if res[r].shape != want.shape:
                    cl.fail(f"panel {p}", f"shape {res[r].shape}")
                else:
                    cl.eq(f"panel {p}", res[r], want)

    return fn


def bad_shape(n, shape, num_dim):
    """a cube that does not fit is refused by every rank: no rank hangs and none goes on with data"""

    def fn(inp, cl):
        from process_topology import ProcessTopology

        size = _ranks(n)
        field = inp.array("f", shape)

        def rank(r, comm):
            topo = ProcessTopology(fakempi.fake_device(comm), comm=comm)
            return topo.distribute_cube(field.copy() if r == 0 else None, num_dim)

        import contextlib, io

        with contextlib.redirect_stdout(io.StringIO()):
            res = fakempi.World(size).run(rank)
        for r in range(size):
            st, val = res.get(r, ("missing", None))
            if st not in ("raise", "exit"):
                cl.fail(f"rank {r}", f"ill-shaped cube: {st}")
        cl.eq("refused", 1, 1)

    return fn


SUBS = [
    Sub("6 ranks 2-D", gather(1, (3, 3), 2, True)),
    Sub("24 ranks 2-D", gather(2, (2, 2), 2, True)),
    Sub("24 ranks 2-D, elements of 4 points", gather(2, (2, 2, 4), 2, True)),
    Sub("24 ranks 3 variables", gather(2, (3, 2, 2, 2), 3, True)),
    Sub("24 ranks 2 variables, 2 levels", gather(2, (2, 2, 2, 2), 4, True)),
    Sub("24 ranks 2 variables, 2 levels, elements", gather(2, (2, 2, 2, 2, 2), 4, True)),
    Sub("54 ranks 2-D", gather(3, (2, 2), 2, True)),
    Sub("54 ranks 3 variables", gather(3, (2, 1, 1), 3, True)),
    Sub("6 ranks distribute first", scatter_first(1, (2, 4, 4), 3)),
    Sub("24 ranks distribute first", scatter_first(2, (2, 4, 4, 2), 3)),
    Sub("24 ranks distribute first 2-D", scatter_first(2, (4, 4), 2)),
    Sub("54 ranks distribute first", scatter_first(3, (1, 6, 6), 3)),
    Sub("24 ranks distribute first 4-D", scatter_first(2, (2, 3, 4, 4, 2), 4)),
    Sub("24 ranks lines", panel_line(2, 3)),
    Sub("54 ranks lines", panel_line(3, 2)),
    Sub("24 ranks refuse a side of 3", bad_shape(2, (6, 2, 3, 3), 3)),
    Sub("24 ranks refuse non-square panels", bad_shape(2, (6, 2, 4, 6), 3)),
    Sub("6 ranks refuse 5 panels", bad_shape(1, (5, 2, 2), 2)),
    Sub("96 ranks 3 variables", gather(4, (3, 2, 2, 2), 3, True)),
    Sub("150 ranks 4-D", gather(5, (2, 2, 1, 1), 4, True)),
    Sub("96 ranks distribute first", scatter_first(4, (2, 8, 8, 2), 3)),
]

if __name__ == "__main__":
    main(
        "P03",
        SUBS,
        assumptions=[
            "MPI gather/scatter/bcast are simulated (ranks are cooperatively scheduled threads); messages are copies",
            "array values are arbitrary reals",
        ],
        technique_note="The real gather and distribute operations run on symbolic tile data on every rank of a "
        "simulated MPI world; z3 decides that every element of the cube is the element of the right tile, and that "
        "distributing gives every rank its own tile back.",
        bounds="6, 24, 54, 96 and 150 ranks; tiles of up to 3x3 points, 1-3 variables, up to 2 levels",
    )
