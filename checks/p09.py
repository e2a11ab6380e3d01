"""P09: a saved state restores exactly, on any number of processes, and a resumed run continues as if never stopped."""

import os

from wxv import simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World
from wxv.simu import Havoc, RecOut, bubble, on_one, quiet, scratch, simulation, sphere, values

from checks.p07 import check_log


def roundtrip_file(shape):
    """save_state / load_state: every value, the shape, and the configuration come back"""

    def run(inp, cl):
        from output.state import load_state, save_state

        with scratch() as d, quiet(), simu.no_compile():
            cfg = bubble(d)
            dev = simu.device()
            Q = inp.array("q", shape)
            name = os.path.join(d, "state.npy")
            save_state(Q, cfg, name, device=dev)
            S, c2 = load_state(name, schema=cfg.schema, device=dev)
            cl.eq("shape", np.array(S.shape), np.array(shape))
            cl.eq("values", S, Q)
            for f in cfg.schema.fields:
                if hasattr(cfg, f.name):
                    a, b = getattr(cfg, f.name), getattr(c2, f.name, "missing")
                    cl.holds(f"option {f.name}", a == b)
            # written again over a longer, older file
            Q2 = inp.array("p", shape[:-1] + (max(1, shape[-1] - 1),))
            save_state(Q2, cfg, name, device=dev)
            S, c2 = load_state(name, schema=cfg.schema, device=dev)
            cl.eq("values after overwriting", S, Q2)

    return run


def tiles(eq, n_write, n_read, ne, nv, ns):
    """Saved by n_write processes, read by n_read processes: every point gets its value back"""

    def run(inp, cl):
        with scratch() as d, quiet(), simu.no_compile():
            side_w, side_r = int((n_write // 6) ** 0.5), int((n_read // 6) ** 0.5)
            npt = ns**2 if eq == "shallow_water" else ns**3
            nvar = 3 if eq == "shallow_water" else 5
            lev = () if eq == "shallow_water" else (nv,)
            G = inp.array("g", (6, nvar) + lev + (ne, ne, npt))

            def tile(rank, side):
                p, k = divmod(rank, side * side)
                r, c = divmod(k, side)
                m = ne // side
                return G[p][..., r * m : (r + 1) * m, c * m : (c + 1) * m, :]

            def cfg():
                return sphere(d, eq=eq, case=6 if eq == "shallow_water" else 31, ne=ne, nv=nv, ns=ns)

            def write(rank, comm):
                c = cfg()
                sim = simulation(c, comm)
                c.save_state_freq = 3
                Q = tile(rank, side_w).copy()
                sim.output.step(Q, 2)
                sim.output.step(Q, 3)
                return Q

            def read(rank, comm):
                c = cfg()
                c.starting_step = 3
                sim = simulation(c, comm)
                return sim

            for r, Q in enumerate(values(World(n_write).run(write))):
                cl.eq(f"rank {r}: state unchanged by saving", Q, tile(r, side_w))
            for r, sim in enumerate(values(World(n_read).run(read))):
                cl.eq(f"rank {r}: starting step", sim.starting_step, 3)
                cl.eq(f"rank {r}: step counter", sim.step_id, 3)
                cl.eq(f"rank {r}: time", sim.t, 3 * sim.config.dt)
                cl.eq(f"rank {r}: initial state", sim.initial_Q, tile(r, side_r))
                cl.eq(f"rank {r}: current state", sim.Q, tile(r, side_r))

    return run


def resumed(n, stop, partial):
    """Run of n steps, stopped after `stop` and resumed = uninterrupted run, for an arbitrary integrator"""

    def run(inp, cl):
        def body(comm):
            with scratch() as d, quiet():
                dt = inp.real("dt", 0.25, 4.0)
                inp.assume(dt > 0)
                if partial:
                    t_end = inp.real("t_end", 0.25, 4.0 * n)
                    inp.assume(t_end > dt * (n - 1 + 1e-6))
                    inp.assume(t_end <= dt * n)
                else:
                    t_end = dt * n

                def make(**kw):
                    cfg = bubble(d)
                    cfg.dt, cfg.t_end = dt, t_end
                    for k, v in kw.items():
                        setattr(cfg, k, v)
                    return cfg

                sim = simulation(make(save_state_freq=stop), comm)
                log = []
                shape = sim.Q.shape
                Q0 = inp.array("Q0", shape, 1.0, 2.0)
                sim.initial_Q = sim.Q = Q0
                sim.integrator = Havoc(inp, "s", log, shape)
                sim.operators = Havoc(inp, "f", log, shape)
                with symnp.symbolic(inp.symbolic):
                    sim.run()
                full = [x for x in log if x[0] in ("step", "filter")]
                cl.eq("uninterrupted: number of steps", len(full), 2 * n)
                at_stop = full[2 * stop - 1][3]

                with symnp.symbolic(inp.symbolic):
                    s2 = simulation(make(starting_step=stop), comm)
                cl.eq("resumed: starting step", s2.starting_step, stop)
                cl.eq("resumed: state", s2.Q, at_stop)
                cl.eq("resumed: time", s2.t, dt * stop)
                cl.eq("resumed: steps announced", s2.num_steps, n - stop)
                log2 = []
                s2.integrator = Havoc(inp, "s", log2, shape)
                s2.integrator.n = stop
                s2.operators = Havoc(inp, "f", log2, shape)
                s2.operators.n = stop
                s2.output = RecOut(log2)
                s2.run()
                rest = [x for x in log2 if x[0] in ("step", "filter")]
                cl.eq("resumed: number of steps", len(rest), 2 * (n - stop))
                for k, (a, b) in enumerate(zip(full[2 * stop :], rest)):
                    cl.holds(f"resumed: operation {k}", a[0] == b[0])
                    cl.eq(f"resumed: input of operation {k}", b[1], a[1])
                    cl.eq(f"resumed: dt of operation {k}", b[2], a[2])
                ids = [x[2] for x in log2 if x[0] == "output"]
                cl.holds("resumed: step numbers", ids == list(range(stop + 1, n + 1)))
                cl.eq("resumed: final state", s2.Q, sim.Q)
                cl.eq("resumed: final time", s2.t, sim.t)

        on_one(body)

    return run


def fallback(kind, nranks):
    """No usable file for the requested step: every process starts from the initial condition at step 0"""

    def run(inp, cl):
        with scratch() as d, quiet(), simu.no_compile():
            big = nranks > 1

            def cfg():
                return sphere(d) if big else bubble(d)

            def prepare(rank, comm):
                sim = simulation(cfg(), comm)
                if kind == "wrong shape":
                    # a file of the right name, from another resolution
                    other = np.zeros((3, 6, 2, 2, 4)) if big else np.zeros((4, 1, 1, 4))
                    if rank == 0:
                        from output.state import save_state

                        save_state(other, sim.config, sim.output.state_file_name(2), device=sim.device)
                elif kind == "other step":
                    sim.config.save_state_freq = 3
                    sim.output.step(sim.Q, 3)
                elif kind == "truncated":
                    sim.config.save_state_freq = 2
                    sim.output.step(sim.Q, 2)
                    if rank == 0:
                        f = sim.output.state_file_name(2)
                        with open(f, "r+b") as h:
                            h.truncate(150)
                return sim.initial_Q

            def start(rank, comm):
                c = cfg()
                c.starting_step = 2
                return simulation(c, comm)

            with symnp.symbolic(False):
                ref = values(World(nranks).run(prepare))
                sims = values(World(nranks).run(start))
            for r, (q, sim) in enumerate(zip(ref, sims)):
                cl.eq(f"rank {r}: starting step", sim.starting_step, 0)
                cl.eq(f"rank {r}: step counter", sim.step_id, 0)
                cl.eq(f"rank {r}: time", sim.t, 0)
                cl.eq(f"rank {r}: state", sim.Q, q)
                cl.eq(f"rank {r}: initial state", sim.initial_Q, q)

    return run


SUBS = []
for sh in ((4, 1, 2), (3, 2, 2, 4), (5, 1, 2, 2, 8), (1, 1, 1)):
    SUBS.append(Sub(f"file round trip, shape {sh}", roundtrip_file(sh)))
for eq, w, r, ne, nv, ns, tier in (
    ("shallow_water", 6, 6, 4, 1, 2, "quick"),
    ("shallow_water", 6, 24, 4, 1, 2, "quick"),
    ("shallow_water", 24, 6, 4, 1, 2, "quick"),
    ("shallow_water", 24, 24, 4, 1, 2, "quick"),
    ("shallow_water", 54, 6, 6, 1, 2, "thorough"),
    ("shallow_water", 6, 6, 4, 1, 3, "quick"),
    ("euler", 6, 6, 4, 2, 2, "quick"),
    ("euler", 24, 6, 4, 2, 2, "quick"),
    ("euler", 6, 24, 4, 1, 2, "quick"),
):
    SUBS.append(Sub(f"{eq}: saved by {w}, read by {r} processes, {ne}x{ne}x{nv} elements of order {ns}", tiles(eq, w, r, ne, nv, ns), tier=tier,
                    bounds=f"{ne}x{ne}x{nv} elements, {ns} points per direction"))
for n, s, p in ((2, 1, False), (3, 2, True), (4, 2, True), (5, 4, True), (6, 3, False)):
    SUBS.append(Sub(f"resumed after {s} of {n} steps" + (", partial last step" if p else ""), resumed(n, s, p), paths=64))
for k in ("missing", "other step", "wrong shape", "truncated"):
    for nr in (1, 6):
        SUBS.append(Sub(f"fallback: {k}, {nr} processes", fallback(k, nr)))

if __name__ == "__main__":
    main(
        "P09",
        SUBS,
        [
            "files hold 64-bit values faithfully (numpy's save and load are trusted; symbolic values travel as tags)",
            "the integrator and filters are arbitrary functions of state and time step",
        ],
        "The real Simulation, output managers and state files are run on simulated processes with symbolic states and time "
        "steps; z3 decides that what is read equals what was written and that the resumed history equals the uninterrupted one.",
        {"processes": "6, 24 (54 in depth)", "steps": "up to 6"},
    )
