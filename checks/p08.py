"""P08: output, statistics and saved states come exactly at the configured steps and leave the state alone."""

import contextlib
import io
import math
import os
import re

from wxv import fakenc, simu
from wxv.check import Sub, main, np, sym, symnp
from wxv.fakempi import World
from wxv.simu import bubble, on_one, quiet, scratch, simulation, sphere, values

LAST = 12


def divides(inp, f, k):
    """f is a frequency (0: never), k a step number"""
    if not sym.is_sym(f):
        return f > 0 and k % f == 0
    if k == 0:
        return f > 0
    r = sym.false()
    for d in range(1, k + 1):
        if k % d == 0:
            r = sym.sor(r, f == d)
    return r


def same(inp, cl, name, got, want):
    """got is a Python bool on this path, want a condition"""
    if sym.is_sym(want):
        cl.holds(name, want if got else sym.snot(sym.liftb(want)))
    else:
        cl.holds(name, bool(got) == bool(want))


def cadence(which, steps):
    """which: the frequencies left symbolic"""

    def run(inp, cl):
        import output.output_cartesian as oc

        def body(comm):
            with scratch() as d, quiet():
                sim = simulation(bubble(d), comm)
                Q = np.abs(sim.Q) + 1.0
                Q0 = Q.copy()
                fr = {}
                for n in ("output_freq", "save_state_freq", "stat_freq"):
                    fr[n] = inp.integer(n, 0, LAST + 2) if n in which else (2 if n == "output_freq" else 3)
                    setattr(sim.config, n, fr[n])
                seen = {"output_freq": set(), "stat_freq": set(), "save_state_freq": set()}
                cur = [None]
                dup = []

                def rec(kind):
                    def f(*a, **k):
                        if cur[0] in seen[kind]:
                            dup.append((kind, cur[0]))
                        seen[kind].add(cur[0])

                    return f

                old = oc.image_field
                oc.image_field = rec("output_freq")
                stats = type(sim.output).__blockstats__

                def blockstats(self, Q, step_id):
                    rec("stat_freq")()
                    cl.eq("step number given to the statistics", step_id, cur[0])

                type(sim.output).__blockstats__ = blockstats
                try:
                    for k in steps:
                        cur[0] = k
                        before = set(os.listdir(d))
                        sim.output.step(Q, k)
                        new = set(os.listdir(d)) - before
                        if new:
                            seen["save_state_freq"].add(k)
                            name = os.path.basename(sim.output.state_file_name(k))
                            cl.holds(f"one new file, named after step {k}", new == {name})
                            with symnp.symbolic(False):
                                S = np.load(os.path.join(d, name))
                            cl.holds(f"file of step {k} holds the state", bool(np.all(S == Q0)) and S.shape == Q0.shape)
                finally:
                    oc.image_field = old
                    type(sim.output).__blockstats__ = stats
                for n, s in seen.items():
                    for k in steps:
                        same(inp, cl, f"{n}: step {k}", k in s, divides(inp, fr[n], k))
                cl.holds("nothing output twice", not dup)
                cl.holds("the state is left alone", bool(np.all(Q == Q0)))

        on_one(body)

    return run


def initial(start, which):
    """The first state of a run (initial or restarted) is output by the constructor when the step number asks for it"""

    def run(inp, cl):
        import output.output_cartesian as oc

        def body(comm):
            with scratch() as d, quiet():
                if start:
                    c0 = bubble(d)
                    s0 = simulation(c0, comm)
                    c0.save_state_freq = start
                    s0.output.step(s0.Q, start)
                cfg = bubble(d)
                cfg.starting_step = start
                f = inp.integer("f", 0, 8)
                setattr(cfg, which, f)
                calls = []
                old = oc.image_field
                oc.image_field = lambda *a, **k: calls.append(a)
                before = {n: os.stat(os.path.join(d, n)).st_ino for n in os.listdir(d)}
                for n in before:
                    os.utime(os.path.join(d, n), (1, 1))
                try:
                    sim = simulation(cfg, comm)
                finally:
                    oc.image_field = old
                cl.eq("starting step", sim.step_id, start)
                wrote = [n for n in os.listdir(d) if n not in before or os.stat(os.path.join(d, n)).st_mtime > 10]
                if which == "output_freq":
                    same(inp, cl, "first state output", bool(calls), divides(inp, f, start))
                    cl.holds("no state saved", not wrote)
                else:
                    same(inp, cl, "first state saved", bool(wrote), divides(inp, f, start))
                    cl.holds("no output", not calls)

        on_one(body)

    return run


def names(inp, cl):
    """State files of different steps never share a name"""

    def body(comm):
        with scratch() as d, quiet():
            sim = simulation(bubble(d), comm)
            allnames = {}
            for k in list(range(300)) + [99999, 100000, 12345678, 99999999]:
                n = sim.output.state_file_name(k)
                cl.holds(f"name of step {k} is new", n not in allnames)
                cl.holds(f"name of step {k} is reproducible", n == sim.output.state_file_name(k))
                cl.holds(f"file of step {k} is in the output directory", os.path.dirname(os.path.abspath(n)) == os.path.abspath(d))
                allnames[n] = k

    on_one(body)


def report(inp, cl):
    """The closing report gives the elapsed times of any duration"""
    import output.output_manager as om

    class Int:
        def __call__(self, x):
            return sym.trunc(x) if sym.is_sym(x) else int(x)

        def __instancecheck__(self, x):
            return isinstance(x, int)

    total = inp.real("total", 1001.0, 1e7, bounded=True)
    whole = math.floor(total)

    def body(comm):
        with scratch() as d, quiet():
            sim = simulation(bubble(d), comm)
            sim.output.num_writes = 1
            sim.output.total_write_time = total
            om.int = Int()
            old, sym.printed = sym.printed, []
            out = io.StringIO()
            try:
                with contextlib.redirect_stdout(out):
                    sim.output.finalize(1.0)
                terms = sym.printed
            finally:
                sym.printed = old
                del om.int
            return out.getvalue(), terms

    text, terms = on_one(body)
    found = re.search(r"Write solution: (\S+?):(\S+?):(\S+) ", text)
    if not found:
        return cl.fail("hours, minutes and seconds are reported", text)
    val = lambda t: terms[int(re.fullmatch(r"<sym(\d+)>", t).group(1))] if "<sym" in t else int(t)
    h, m, s = (val(t) for t in found.groups())
    cl.eq("the parts add up", 3600 * h + 60 * m + s, whole)
    cl.holds("minutes and seconds below 60", (0 <= m) & (m < 60) & (0 <= s) & (s < 60))


def untouched(eq, case, nranks, what):
    """Writing results, statistics or a state leaves every value of the state as it was"""

    def run(inp, cl):
        with scratch() as d, quiet(), fakenc.module(), simu.no_compile():

            def f(rank, comm):
                cfg = sphere(d, eq=eq, case=case)
                if what == "output":
                    cfg.output_freq = 1
                sim = simulation(cfg, comm)
                Q = inp.array(f"q{rank}", sim.Q.shape, 1.0, 2.0) if rank == (3 if case == 5 else 0) else sim.Q.copy()
                Q0 = Q.copy()
                if what == "stats":
                    cfg.stat_freq = 1
                elif what == "save":
                    cfg.save_state_freq = 1
                with symnp.symbolic(inp.symbolic):
                    sim.output.step(Q, 1)
                    sim.output.step(Q, 2)
                return Q, Q0, sim.initial_Q

            for r, (Q, Q0, _) in enumerate(values(World(nranks).run(f))):
                cl.eq(f"state of rank {r}", Q, Q0)

    return run


SUBS = []
for w in ("output_freq", "save_state_freq", "stat_freq"):
    SUBS.append(Sub(f"cadence: any {w}", cadence([w], range(0, LAST + 1)), paths=400, bounds=f"steps 0..{LAST}, frequency 0..{LAST + 2}"))
SUBS.append(Sub("cadence: all three, together", cadence(["output_freq", "save_state_freq", "stat_freq"], range(0, 4)), paths=2000,
                bounds="steps 0..3, frequencies 0..14"))
for s in (0, 4, 6):
    for w in ("output_freq", "save_state_freq"):
        SUBS.append(Sub(f"first state of a run from step {s}: {w}", initial(s, w), paths=100))
SUBS.append(Sub("state file names", names))
SUBS.append(Sub("closing report", report, paths=20, bounds="durations above 1000 s"))
for eq, case in (("shallow_water", 6), ("shallow_water", 5), ("shallow_water", 2), ("euler", 31)):
    for what in ("output", "save") + (("stats",) if eq == "shallow_water" else ()):
        SUBS.append(Sub(f"state untouched by {what}: {eq} case {case}", untouched(eq, case, 6, what), paths=200,
                        bounds="6 processes, 4x4 elements of 2x2 points per panel, the state of one rank symbolic"))

if __name__ == "__main__":
    main(
        "P08",
        SUBS,
        ["frequencies are integers between 0 and 14, step numbers 0 to 12", "plots and netCDF files are replaced by recorders"],
        "The real output managers are driven with symbolic frequencies (integers) and symbolic states; z3 decides every branch "
        "and that each kind of output happens exactly at the multiples of its frequency.",
        {"steps": "0..12", "frequencies": "0..14"},
    )
