"""P20: invalid values (NaN) anywhere stop the run on every process, at that step, before the state is output."""

from wxv import simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World
from wxv.simu import BUBBLE, Havoc, RecOut, quiet, scratch, simulation

SHAPE = (4, 1, 2)
NAN = float("nan")


class Filter(Havoc):
    """Arbitrary states, any entry of which may be invalid"""

    def __init__(self, inp, name, log, shape, where):
        super().__init__(inp, name, log, shape)
        self.where = where
        self.bad = []

    def apply_filters(self, Q, geom, metric, dt):
        out = self.fresh()
        cond = sym.false() if self.inp.symbolic else False
        for i in np.ndindex(*self.shape):
            if i not in self.where:
                continue
            f = self.inp.real(f"nan_{self.name}{self.n}_{''.join(map(str, i))}", -1.0, 1.0) > 0
            if self.inp.symbolic:
                symnp.set_nan_flag(out[i], f)
                cond = sym.sor(cond, sym.liftb(f))
            elif f:
                out[i] = NAN
                cond = True
        self.bad.append(cond)
        self.log.append(("filter", None, None, None))
        return out


ALL = [i for i in np.ndindex(*SHAPE)]


def stop(n, steps, order, where):
    def run(inp, cl):
        from common import Configuration

        logs = {r: [] for r in range(n)}
        filters = {}

        def body(rank, comm):
            cfg = Configuration(BUBBLE.format(out=d), simu.schema())
            cfg.dt, cfg.t_end = 1.0, float(steps)
            sim = simulation(cfg, comm)
            Q0 = inp.array(f"Q0_{rank}", SHAPE, 1.0, 2.0)
            sim.initial_Q = sim.Q = Q0
            sim.integrator = Havoc(inp, f"s{rank}_", logs[rank], SHAPE)
            sim.operators = filters[rank] = Filter(inp, f"f{rank}_", logs[rank], SHAPE, where)
            sim.output = RecOut(logs[rank])
            sim.run()
            return True

        with scratch() as d, quiet():
            res = World(n, order=order).run(body)
        # which step was the first with an invalid value on any process (a formula over the symbolic conditions)
        taken = [len(filters[r].bad) if r in filters else 0 for r in range(n)]
        cl.eq("all processes take the same number of steps", np.array(taken), np.array([taken[0]] * n))
        if len(set(taken)) != 1:
            return
        k = taken[0]
        anybad = []
        for s in range(k):
            c = sym.false() if inp.symbolic else False
            for r in range(n):
                c = sym.sor(c, sym.liftb(filters[r].bad[s])) if inp.symbolic else (c or filters[r].bad[s])
            anybad.append(c)
        neg = (lambda x: sym.snot(x)) if inp.symbolic else (lambda x: not x)
        for s in range(k - 1):
            cl.holds(f"no invalid value in step {s + 1}, after which the run went on", neg(anybad[s]))
        kinds = {r: res[r][0] for r in range(n)}
        ended = {r: [x[0] for x in logs[r]].count("finalize") for r in range(n)}
        outs = {r: [x[0] for x in logs[r]].count("output") for r in range(n)}
        if all(v == "ok" for v in kinds.values()):
            cl.eq("a run that ends normally takes all steps", k, steps)
            cl.holds("a run that ends normally has no invalid value", neg(anybad[-1]))
            for r in range(n):
                cl.eq(f"states output by process {r}", outs[r], steps)
                cl.eq(f"output closed by process {r}", ended[r], 1)
        elif all(v == "raise" for v in kinds.values()):
            cl.holds("the run is stopped only for an invalid value", anybad[-1])
            for r in range(n):
                cl.eq(f"invalid states are not output (process {r})", outs[r], k - 1)
                if not isinstance(res[r][1], (ValueError, ArithmeticError, RuntimeError)):
                    cl.fail(f"process {r} reports an error of the run", repr(res[r]))
        else:
            cl.fail("either all processes stop or none", str({r: (res[r][0], repr(res[r][1])) for r in range(n)}))

    return run


def tag(o):
    return "".join(map(str, o))


SUBS = []
SOME = [(0, 0, 0), (1, 0, 1), (3, 0, 1)]
for n, steps, order, where, tier in (
    (1, 3, (0,), ALL, "quick"),
    (2, 2, (0, 1), ALL, "quick"),
    (2, 2, (1, 0), ALL, "quick"),
    (3, 1, (2, 0, 1), ALL, "quick"),
    (6, 1, (0, 1, 2, 3, 4, 5), SOME, "quick"),
    (2, 3, (1, 0), ALL, "thorough"),
    (3, 2, (1, 2, 0), SOME, "thorough"),
    (6, 1, (5, 3, 1, 0, 2, 4), ALL, "thorough"),
):
    SUBS.append(Sub(f"{n} processes, {steps} steps, order {tag(order)}, {len(where)} values",
                    stop(n, steps, list(order), where), paths=600, tier=tier,
                    bounds=f"{n} processes, {steps} steps, any of {len(where)} values of each state invalid"))

if __name__ == "__main__":
    main(
        "P20",
        SUBS,
        [
            "the integrator and filter are replaced by functions returning arbitrary states, any value of which may be NaN",
            "the simulated processes switch at communication calls only; the listed orders of switching",
            "state of 8 values per process on the 2-D Cartesian grid (the check does not depend on the grid)",
        ],
        "The real Simulation.run is executed on every process of a simulated MPI world; whether each value is NaN is a "
        "free condition, and z3 decides every branch and claim over all of them.",
        {"processes": "1, 2, 3, 6", "steps": "1 to 3"},
    )
