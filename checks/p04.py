"""P04: single-process and multi-process sections: all ranks of the group agree on the outcome, whoever fails."""

import itertools

from wxv.check import Sub, main, np
from wxv import fakempi


class Boom(Exception):
    pass


class Payload:
    """a return value that is neither a number nor a container"""


SPECIAL = {"None": None, "zero": 0, "False": False, "empty list": [], "exception object": ValueError("a value"),
           "payload": Payload()}


class Interrupted(BaseException):
    """stands for KeyboardInterrupt and the like"""


class QuietExit(SystemExit):
    """sys.exit() called inside the section"""


FAILURES = {"exception": Boom, "exit": QuietExit, "base exception": Interrupted, "stop iteration": StopIteration}


def outcome(res, r):
    st, val = res.get(r, ("missing", None))
    return st, val


def single(size, root, order, value="symbolic", kind="exception"):
    """context with root failing or not (symbolic), and a symbolic return value"""

    def fn(inp, cl):
        import wx_mpi

        fail = inp.real("fail", -1, 1) > 0  # symbolic: the branch below forks
        val = inp.real("value") if value == "symbolic" else SPECIAL[value]
        ran, after = [], []

        def rank(r, comm):
            with wx_mpi.SingleProcess(comm, root) as s, wx_mpi.Conditional(s):
                ran.append(r)
                s.return_value = val
                if fail:
                    raise FAILURES[kind]("failure on the active rank")
            after.append(r)
            return s.return_value

        res = fakempi.World(size, order).run(rank)
        check(cl, res, size, root, bool(fail), val, ran, after, FAILURES[kind])

    return fn


def twice(size, roots, order):
    """two sections in a row (the second may use what the first produced) and one inside a loop"""

    def fn(inp, cl):
        import wx_mpi

        a, b = inp.real("a"), inp.real("b")
        f1 = inp.real("fail1", -1, 1) > 0
        f2 = inp.real("fail2", -1, 1) > 0

        def rank(r, comm):
            with wx_mpi.SingleProcess(comm, roots[0]) as s, wx_mpi.Conditional(s):
                s.return_value = a
                if f1:
                    raise Boom()
            with wx_mpi.SingleProcess(comm, roots[1]) as t, wx_mpi.Conditional(t):
                t.return_value = s.return_value + b
                if f2:
                    raise Boom()
            return s.return_value, t.return_value

        res = fakempi.World(size, order).run(rank)
        failed = roots[0] if bool(f1) else (roots[1] if bool(f2) else None)
        for r in range(size):
            st, v = outcome(res, r)
            if failed is None:
                if st != "ok":
                    cl.fail(f"rank {r}", f"does not come out of two successful sections ({st})")
                else:
                    cl.eq(f"first value on rank {r}", v[0], a)
                    cl.eq(f"second value on rank {r}", v[1], a + b)
            elif st not in ("raise", "exit"):
                cl.fail(f"rank {r}", f"goes on although rank {failed} failed ({st})")

    return fn


def check(cl, res, size, root, failed, val, ran, after, kind=Boom):
    cl.eq("ranks that ran the section", len(ran), 1)
    cl.eq("active rank", ran[0] if ran else -1, root)
    for r in range(size):
        st, v = outcome(res, r)
        if failed:
            if r == root:
                if st not in ("raise", "exit") or not isinstance(v, kind):
                    cl.fail(f"rank {r}", f"the active rank's own failure was lost ({st})")
            elif st not in ("raise", "exit"):
                cl.fail(f"rank {r}", f"goes on although the active rank failed ({st})")
            if r in after:
                cl.fail(f"rank {r}", "runs past the failed section")
        else:
            if st != "ok" or r not in after:
                cl.fail(f"rank {r}", f"does not come out of a successful section ({st} {v})")
            else:
                cl.eq(f"value on rank {r}", v, val)


def once(size, order, value="symbolic"):
    def fn(inp, cl):
        import wx_mpi

        fail = inp.real("fail", -1, 1) > 0
        val = inp.real("value") if value == "symbolic" else SPECIAL[value]
        arg = inp.real("arg")
        ran, after = [], []
        got = []

        def rank(r, comm):
            def action(a, b):
                ran.append(r)
                got.append((a, b))
                if fail:
                    raise Boom()
                return val

            v = wx_mpi.do_once(action, arg, 7, comm=comm)
            after.append(r)
            return v

        res = fakempi.World(size, order).run(rank)
        check(cl, res, size, 0, bool(fail), val, ran, after)
        if got:
            cl.eq("first argument", got[0][0], arg)
            cl.eq("second argument", got[0][1], 7)

    return fn


def multiple(size, num, order):
    def fn(inp, cl):
        import wx_mpi

        fails = [inp.real(f"fail{r}", -1, 1) > 0 for r in range(size)]
        ran, after, subsize = [], [], {}

        def rank(r, comm):
            with wx_mpi.MultipleProcesses(comm, num) as s, wx_mpi.Conditional(s):
                ran.append(r)
                subsize[r] = s.sub_comm.size
                if fails[r]:
                    raise Boom()
            after.append(r)

        res = fakempi.World(size, order).run(rank)
        active = range(num if num > 0 else size)
        cl.eq("ranks that ran the section", len(ran), len(active))
        for r in active:
            cl.eq(f"rank {r} took part", 1 if r in ran else 0, 1)
            cl.eq(f"size of the active group on {r}", subsize.get(r, -1), len(active))
        failed = [r for r in active if bool(fails[r])]
        for r in range(size):
            st, v = outcome(res, r)
            if failed:
                # (whether an active rank that did not fail itself goes on is not specified)
                if (r in failed or r not in active) and (st not in ("raise", "exit") or r in after):
                    cl.fail(f"rank {r}", f"goes on although rank {failed[0]} failed ({st})")
                if st == "deadlock":
                    cl.fail(f"rank {r}", "hangs")
                if r in failed and not isinstance(v, Boom):
                    cl.fail(f"rank {r}", "its own failure was lost")
            elif st != "ok" or r not in after:
                cl.fail(f"rank {r}", f"does not come out of a successful section ({st})")

    return fn


SUBS = []
for size in (1, 2, 3, 4):
    orders = [list(range(size)), list(reversed(range(size)))]
    if size == 3:
        orders = [list(p) for p in itertools.permutations(range(3))]
    if size == 4:
        orders += [[2, 0, 3, 1]]
    for oi, order in enumerate(orders):
        for root in range(size):
            SUBS.append(Sub(f"single: {size} ranks, active {root}, schedule {order}", single(size, root, order), paths=8))
        SUBS.append(Sub(f"once: {size} ranks, schedule {order}", once(size, order), paths=8))
for v in SPECIAL:
    SUBS.append(Sub(f"single: 3 ranks, value {v}", single(3, 1, [0, 1, 2], v), paths=8))
    SUBS.append(Sub(f"once: 3 ranks, value {v}", once(3, [2, 1, 0], v), paths=8))
for k in FAILURES:
    for size, root in ((1, 0), (2, 0), (2, 1), (3, 2)):
        SUBS.append(Sub(f"single: {size} ranks, active {root}, failure by {k}",
                        single(size, root, list(range(size)), kind=k), paths=8))
for roots in ((0, 0), (0, 1), (2, 0)):
    SUBS.append(Sub(f"two sections: {roots}", twice(3, roots, [1, 2, 0]), paths=16))
for size, num in ((1, 1), (2, 1), (2, 2), (3, 0), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3)):
    SUBS.append(Sub(f"multiple: {num} of {size} ranks", multiple(size, num, list(range(size))), paths=64))
    SUBS.append(Sub(f"multiple: {num} of {size} ranks, reversed", multiple(size, num, list(reversed(range(size)))), paths=64))
for size in (5, 6):
    for root in range(size):
        SUBS.append(Sub(f"single: {size} ranks, active {root}", single(size, root, list(range(size))), paths=8, tier="thorough"))
    for num in range(size + 1):
        SUBS.append(Sub(f"multiple: {num} of {size}", multiple(size, num, list(range(size))), paths=200, tier="thorough"))

if __name__ == "__main__":
    main(
        "P04",
        SUBS,
        assumptions=[
            "MPI broadcast/allreduce/split are simulated (ranks are cooperatively scheduled threads; several start orders)",
            "a failure is an exception raised inside the section; which ranks fail is symbolic",
        ],
        technique_note="The real context managers run on a simulated MPI world with one symbolic condition per rank "
        "deciding whether it fails inside the section and a symbolic return value; every feasible path is explored "
        "and z3 decides, per path, that all ranks leave with the same outcome and the same value.",
        bounds="groups of 1-4 ranks (thorough: up to 6), every active rank, all start orders for 3 ranks",
    )
