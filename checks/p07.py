"""P07: a run takes exactly the steps needed to end at t_end, in order, each output once."""

import copy

from wxv import simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.simu import BUBBLE, Havoc, RecOut, on_one, quiet, scratch, simulation

SHAPE = (4, 1, 2)


def eq_arr(cl, name, a, b):
    cl.eq(name + " same shape", np.array(np.shape(a)), np.array(np.shape(b)))
    cl.eq(name, a, b)


def build(inp, comm, d, dt, t_end, start, log, fail_at=None, rank_shape=SHAPE):
    from common import Configuration

    cfg = Configuration(BUBBLE.format(out=d), simu.schema())
    cfg.dt, cfg.t_end = dt, t_end
    if start:
        # a state file of that step must exist: have the real output manager write one
        c0 = copy.deepcopy(cfg)
        c0.dt, c0.t_end = dt, t_end
        sim0 = simulation(c0, comm)
        c0.save_state_freq = start
        with symnp.symbolic(False):
            sim0.output.step(sim0.Q, start)
        cfg.starting_step = start
    sim = simulation(cfg, comm)
    Q0 = inp.array("Q0", rank_shape, 1.0, 2.0)
    sim.initial_Q = Q0
    sim.Q = Q0
    sim.integrator = Havoc(inp, "s", log, rank_shape, fail_at=fail_at)
    sim.operators = Havoc(inp, "f", log, rank_shape)
    sim.output = RecOut(log)
    return sim, Q0, cfg


def check_log(cl, log, Q0, n, start, dt, last_dt, what, finalized=True, dts=True):
    """The recorded history is exactly n steps: integrate, filter, output, in that order"""
    ev = [x for x in log if x[0] != "finalize"]
    if finalized and [x[0] for x in log].count("finalize") != 1:
        cl.fail(what + ": output closed exactly once", str([x[0] for x in log]))
    if finalized and log and log[-1][0] != "finalize":
        cl.fail(what + ": output closed last", str([x[0] for x in log]))
    steps = [x for x in ev if x[0] == "step"]
    cl.eq(what + ": number of steps", len(steps), n)
    if [x[0] for x in ev] != ["step", "filter", "output"] * n:
        cl.fail(what + ": order of operations", str([x[0] for x in ev]))
        return
    Q = Q0
    for k in range(n):
        s, f, o = ev[3 * k : 3 * k + 3]
        eq_arr(cl, f"{what}: step {k + 1} starts from the current state", s[1], Q)
        eq_arr(cl, f"{what}: filter of step {k + 1} sees the new state", f[1], s[3])
        eq_arr(cl, f"{what}: state output after step {k + 1}", o[1], f[3])
        cl.eq(f"{what}: step id output after step {k + 1}", o[2], start + k + 1)
        if dts:
            cl.eq(f"{what}: dt of step {k + 1}", s[2], dt if k + 1 < n else last_dt)
            cl.eq(f"{what}: dt given to the filter in step {k + 1}", f[2], s[2])
        Q = f[3]
    return Q


def exact(n, start):
    """Exact arithmetic: any dt, any t_end with n - 1 < t_end/dt - start <= n"""

    def run(inp, cl):
        def body(comm):
            with scratch() as d, quiet():
                dt = inp.real("dt", 0.25, 4.0)
                t_end = inp.real("t_end", 0.25, 4.0 * (n + start))
                inp.assume(dt > 0)
                inp.assume(t_end > dt * (start + n - 1 + 1e-6))
                inp.assume(t_end <= dt * (start + n))
                log = []
                sim, Q0, cfg = build(inp, comm, d, dt, t_end, start, log)
                cl.eq("number of steps announced", sim.num_steps, n)
                cl.eq("step counter at start", sim.step_id, start)
                cl.eq("time at start", sim.t, dt * start)
                sim.run()
                last = t_end - dt * (start + n - 1)
                Q = check_log(cl, log, Q0, n, start, dt, last, "run")
                cl.eq("final time", sim.t, t_end)
                cl.eq("final step counter", sim.step_id, start + n)
                if Q is not None:
                    eq_arr(cl, "final state", sim.Q, Q)
                k = len(log)
                again = sim.step()
                cl.eq("a further step does nothing", len(log), k)
                cl.eq("a further step reports the end", bool(again), False)
                cl.eq("time unchanged after the end", sim.t, t_end)
                cl.eq("step counter unchanged after the end", sim.step_id, start + n)

        on_one(body)

    return run


def rounded(n, start):
    """Floating-point model: t_end is n steps of dt up to rounding, every operation of the code is off by up to 2^-52"""

    def run(inp, cl):
        def one(comm, dt, t_end, tag):
            with scratch() as d, quiet():
                log = []
                sim, Q0, cfg = build(inp, comm, d, dt, t_end, start, log)
                with inp.rounding():
                    sim.run()
                check_log(cl, log, Q0, n, start, dt, None, tag, dts=False)
                cl.eq(tag + ": final time", sim.t, t_end)

        def body(comm):
            if inp.symbolic:
                dt = inp.real("dt", 0.25, 4.0)
                t_end = inp.real("t_end", 0.25, 40.0)
                inp.assume(dt > 0)
                inp.assume(t_end <= dt * (start + n) * (1 + sym.const(sym.Fraction(1, 10**14))))
                inp.assume(t_end >= dt * (start + n) * (1 - sym.const(sym.Fraction(1, 10**14))))
                one(comm, dt, t_end, "rounded run")
            else:
                # witnesses of accumulated rounding are common among decimal time steps
                base = abs(inp.real("dt", 0.25, 4.0))
                for m in range(1, 25):
                    dt = round(base * 0.1 * m, 2) or 0.1
                    t_end = round(dt * (start + n), 2)
                    one(comm, dt, t_end, "rounded run")

        on_one(body)

    return run


def failure(n, k):
    """The solver of step k fails: the run stops after that step"""

    def run(inp, cl):
        def body(comm):
            with scratch() as d, quiet():
                dt = inp.real("dt", 0.25, 4.0)
                inp.assume(dt > 0)
                log = []
                sim, Q0, cfg = build(inp, comm, d, dt, dt * n, 0, log, fail_at=k)
                sim.run()
                last = dt
                check_log(cl, log, Q0, k, 0, dt, last, "failed run")

        on_one(body)

    return run


def winds(case):
    """Prescribed-wind cases: winds are those of the new time, on the new density"""

    def run(inp, cl):
        import simulation.simulation as ss

        def body(comm):
            with scratch() as d, quiet():
                dt = inp.real("dt", 0.25, 4.0)
                t_end = inp.real("t_end", 0.25, 12.0)
                inp.assume(dt > 0)
                inp.assume(t_end > dt * (2 + 1e-6))
                inp.assume(t_end <= dt * 3)
                log, calls = [], []
                sh = (5, 1, 1, 2)
                sim, Q0, cfg = build(inp, comm, d, dt, t_end, 0, log, rank_shape=sh)
                cfg.case_number = case
                w = {}

                def update(geom, metric, ops, param, time=None):
                    calls.append(time)
                    k = len(calls)
                    w[k] = [inp.array(f"w{k}_{c}", sh[1:], -1.0, 1.0) for c in range(3)]
                    return tuple(w[k])

                name = f"dcmip_T{case}_update_winds"
                old = getattr(ss, name)
                setattr(ss, name, update)
                try:
                    sim.run()
                finally:
                    setattr(ss, name, old)
                outs = [x for x in log if x[0] == "output"]
                filt = [x for x in log if x[0] == "filter"]
                cl.eq("number of wind updates", len(calls), 3)
                for k, (t, o, f) in enumerate(zip(calls, outs, filt)):
                    cl.eq(f"time of wind update {k + 1}", t, dt * (k + 1) if k < 2 else t_end)
                    for v in (0, 4):
                        cl.eq(f"density and temperature kept [{k}]", o[1][v], f[3][v])
                    for c in range(3):
                        cl.eq(f"momentum {c} of step {k + 1}", o[1][1 + c], f[3][0] * w[k + 1][c])

        on_one(body)

    return run


SUBS = []
for n in range(1, 9):
    for s in (0, 1, 3):
        SUBS.append(Sub(f"exact {n} steps from step {s}", exact(n, s), paths=64, bounds=f"{n} steps, start {s}",
                        tier="quick" if n in (1, 2, 3, 5, 8) else "thorough"))
for n, s in ((1, 0), (2, 0), (3, 0), (5, 0), (8, 0), (12, 0), (6, 3), (2, 4)):
    SUBS.append(Sub(f"rounded {n} steps from step {s}", rounded(n, s), paths=64, tol=1e-7,
                    bounds=f"{n} steps, start {s}, relative rounding error 2^-52 per operation"))
for n, k in ((1, 1), (3, 2), (4, 1)):
    SUBS.append(Sub(f"failure at step {k} of {n}", failure(n, k), paths=64))
for c in (11, 12):
    SUBS.append(Sub(f"prescribed winds, case {c}", winds(c), paths=64))

if __name__ == "__main__":
    main(
        "P07",
        SUBS,
        [
            "the integrator and the filters are replaced by functions that return arbitrary states; what they compute is "
            "the subject of other properties",
            "time steps are decided up to the 1e-9 dt that the code itself allows for rounding: t_end within 1e-6 dt above "
            "a multiple of dt is outside the exact harnesses",
            "one process, 2-D Cartesian grid (the loop does not depend on the grid)",
        ],
        "The real Simulation is built and run with symbolic dt and t_end; each branch on them is decided by z3.",
        {"steps": "1 to 8 (12 with rounding)", "starting step": "0, 1, 3, 4"},
    )
