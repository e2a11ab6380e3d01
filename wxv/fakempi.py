"""A simulated MPI world: every rank is a thread, exactly one of which runs at any time (cooperative, deterministic).

Only what WxFactory uses is provided.  A blocking call hands the baton to another rank until its own operation is
complete.  A world in which every unfinished rank is blocked is a deadlock and is reported as such.
"""

from __future__ import annotations

import copy
import threading

import numpy as np


class Deadlock(Exception):
    pass


class RankAborted(BaseException):
    pass


class World:
    def __init__(self, size, order=None):
        self.size = size
        self.cv = threading.Condition()
        self.turn = None
        self.alive = set()
        self.blocked = {}
        self.results = {}
        self.errors = {}
        self.dead = False
        self.comms = {}
        self.log = []
        self.order = order or list(range(size))
        self.threads = {}

    def run(self, fn, timeout=600):
        """Run fn(rank, comm) on every rank; returns dict rank -> ('ok', value) | ('raise', exc) | ('exit', code)"""
        root = CommState(self, list(range(self.size)))
        self.alive = set(range(self.size))

        def body(r):
            self._wait_turn(r)
            try:
                if not self.dead:
                    self.results[r] = ("ok", fn(r, FakeComm(root, r, r)))
            except RankAborted:
                self.results[r] = ("deadlock", None)
            except SystemExit as e:
                self.results[r] = ("exit", e)
            except BaseException as e:  # noqa
                self.results[r] = ("raise", e)
            finally:
                self.alive.discard(r)
                self.blocked.pop(r, None)
                self._next(r)

        for r in range(self.size):
            t = threading.Thread(target=body, args=(r,), daemon=True)
            self.threads[r] = t
            t.start()
        with self.cv:
            self.turn = self.order[0]
            self.cv.notify_all()
        for t in self.threads.values():
            t.join(timeout)
        return self.results

    def _wait_turn(self, r):
        with self.cv:
            while self.turn != r:
                self.cv.wait()

    def _next(self, r):
        """hand the baton to the next rank that can run (round robin in self.order)"""
        with self.cv:
            n = len(self.order)
            i = self.order.index(r)
            for k in range(1, n + 1):
                c = self.order[(i + k) % n]
                if c not in self.alive:
                    continue
                cond = self.blocked.get(c)
                if self.dead or cond is None or cond():
                    self.turn = c
                    self.cv.notify_all()
                    return
            if self.alive:
                self.dead = True
                c = next(c for c in self.order if c in self.alive)
                self.turn = c
                self.cv.notify_all()

    def block(self, r, cond):
        """called by rank r: wait until cond()"""
        if cond():
            return
        self.blocked[r] = cond
        self._next(r)
        self._wait_turn(r)
        self.blocked.pop(r, None)
        if self.dead and not cond():
            raise RankAborted()


class CommState:
    def __init__(self, world, ranks):
        self.world = world
        self.ranks = ranks  # world ranks, in communicator order
        self.ops = {}  # sequence number -> {comm rank: (kind, data)}
        self.done = {}


class Request:
    def __init__(self, comm, wait):
        self.comm = comm
        self._wait = wait

    def Wait(self, status=None):
        self._wait()
        return True

    wait = Wait

    def Test(self, status=None):
        self._wait()
        return True


class FakeComm:
    def __init__(self, state, rank, world_rank, graph=None):
        self.s = state
        self.rank = rank
        self.wr = world_rank
        self.seq = 0
        self.graph = graph
        self.mismatch = None

    @property
    def size(self):
        return len(self.s.ranks)

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def __eq__(self, o):
        return isinstance(o, FakeComm) and o.s is self.s

    def __hash__(self):
        return id(self.s)

    # --- generic collective: everybody posts, then everybody may proceed when all have
    def _post(self, kind, data):
        k = self.seq
        self.seq += 1
        d = self.s.ops.setdefault(k, {})
        d[self.rank] = (kind, data)
        return k

    def _complete(self, k, kind, who=None):
        d = self.s.ops[k]
        need = range(self.size) if who is None else who
        self.s.world.block(self.wr, lambda: all(i in d for i in need))
        for i in need:
            if d[i][0] != kind:
                raise Deadlock(f"mismatched collectives: {kind} on {self.rank}, {d[i][0]} on {i}")
        return d

    def _coll(self, kind, data):
        k = self._post(kind, data)
        return self._complete(k, kind)

    def _clone(self, x):
        if isinstance(x, np.ndarray):
            return x.copy()
        if isinstance(x, (list, tuple)):
            return type(x)(self._clone(y) for y in x)
        return x

    def Barrier(self):
        self._coll("barrier", None)

    barrier = Barrier

    def Dup(self, info=None):
        return self.Split(0, self.rank)

    dup = Clone = Dup

    def Free(self):
        pass

    def Disconnect(self):
        pass

    def Split(self, color=0, key=0):
        d = self._coll("split", (color, key))
        k = self.seq
        mine = sorted((d[i][1][1], i) for i in range(self.size) if d[i][1][0] == color)
        order = [i for _, i in mine]
        table = self.s.done.setdefault(("split", k), {})
        ck = repr(color) if not isinstance(color, (int, bool, np.bool_)) else int(color)
        if ck not in table:
            table[ck] = CommState(self.s.world, [self.s.ranks[i] for i in order])
        return FakeComm(table[ck], order.index(self.rank), self.wr)

    def Create_dist_graph_adjacent(self, sources, destinations, *a, **k):
        d = self._coll("graph", (list(sources), list(destinations)))
        n = self.seq
        table = self.s.done.setdefault(("graph", n), {})
        if "s" not in table:
            table["s"] = CommState(self.s.world, list(self.s.ranks))
            table["g"] = {i: d[i][1] for i in range(self.size)}
        return FakeComm(table["s"], self.rank, self.wr, graph=table["g"])

    def Ineighbor_alltoall(self, sendbuf, recvbuf):
        send = sendbuf[0] if isinstance(sendbuf, (list, tuple)) else sendbuf
        recv = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
        src, dst = self.graph[self.rank]
        if not (send.flags.c_contiguous and recv.flags.c_contiguous):
            raise ValueError("message: buffer is not contiguous")
        k = self._post("nalltoall", [send.reshape(len(dst), -1)[i].copy() for i in range(len(dst))])
        done = []

        def wait():
            if done:
                return
            d = self._complete(k, "nalltoall", who=set(src) | {self.rank})
            flat = recv.reshape(len(src), -1)
            used = {}
            for j, p in enumerate(src):
                pd = self.graph[p][1]
                slots = [i for i, q in enumerate(pd) if q == self.rank]
                u = used.get(p, 0)
                if u >= len(slots):
                    raise Deadlock(f"rank {self.rank} expects a message from {p}, which does not send one")
                used[p] = u + 1
                data = d[p][1][slots[u]]
                if data.size != flat.shape[1]:
                    raise ValueError("message truncated")
                flat[j] = data
            done.append(1)

        return Request(self, wait)

    def Neighbor_alltoall(self, sendbuf, recvbuf):
        self.Ineighbor_alltoall(sendbuf, recvbuf).Wait()

    def gather(self, x, root=0):
        k = self._post("gather", self._clone(x))
        d = self._complete(k, "gather", who=None if self.rank == root else [self.rank])
        return [d[i][1] for i in range(self.size)] if self.rank == root else None

    def scatter(self, x, root=0):
        k = self._post("scatter", [self._clone(y) for y in x] if self.rank == root else None)
        d = self._complete(k, "scatter", who=[root, self.rank])
        data = d[root][1]
        if len(data) != self.size:
            raise ValueError("expecting %d items, got %d" % (self.size, len(data)))
        return data[self.rank]

    def bcast(self, x, root=0):
        k = self._post("bcast", self._clone(x) if self.rank == root else None)
        d = self._complete(k, "bcast", who=[root, self.rank])
        return d[root][1]

    def allgather(self, x):
        d = self._coll("allgather", self._clone(x))
        return [d[i][1] for i in range(self.size)]

    def _reduce(self, vals, op):
        r = vals[0]
        name = _opname(op)
        for v in vals[1:]:
            if name == "sum":
                r = r + v
            elif name == "max":
                r = np.maximum(r, v) if isinstance(r, np.ndarray) or _symbolic(r) or _symbolic(v) else max(r, v)
            elif name == "min":
                r = np.minimum(r, v) if isinstance(r, np.ndarray) or _symbolic(r) or _symbolic(v) else min(r, v)
            elif name == "lor":
                r = bool(r) or bool(v)
            elif name == "land":
                r = bool(r) and bool(v)
            elif name == "prod":
                r = r * v
            else:
                raise NotImplementedError(name)
        return r

    def allreduce(self, x, op=None):
        d = self._coll("allreduce", self._clone(x))
        return self._reduce([d[i][1] for i in range(self.size)], op)

    def reduce(self, x, op=None, root=0):
        k = self._post("reduce", self._clone(x))
        d = self._complete(k, "reduce", who=None if self.rank == root else [self.rank])
        return self._reduce([d[i][1] for i in range(self.size)], op) if self.rank == root else None

    def Allreduce(self, sendbuf, recvbuf, op=None):
        from mpi4py import MPI

        s = recvbuf if sendbuf is MPI.IN_PLACE else sendbuf
        s = s[0] if isinstance(s, (list, tuple)) else s
        d = self._coll("Allreduce", np.array(s, copy=True))
        r = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
        r[...] = self._reduce([d[i][1] for i in range(self.size)], op)

    def Iallreduce(self, sendbuf, recvbuf, op=None):
        from mpi4py import MPI

        s = recvbuf if sendbuf is MPI.IN_PLACE else sendbuf
        s = s[0] if isinstance(s, (list, tuple)) else s
        k = self._post("Iallreduce", np.array(s, copy=True))

        def wait():
            d = self._complete(k, "Iallreduce")
            r = recvbuf[0] if isinstance(recvbuf, (list, tuple)) else recvbuf
            r[...] = self._reduce([d[i][1] for i in range(self.size)], op)

        return Request(self, wait)

    def Abort(self, code=1):
        raise SystemExit(code)


def _symbolic(x):
    from .sym import is_sym

    return is_sym(x)


def _opname(op):
    from mpi4py import MPI

    if op is None or op == MPI.SUM:
        return "sum"
    for n, o in (("max", MPI.MAX), ("min", MPI.MIN), ("lor", MPI.LOR), ("land", MPI.LAND), ("prod", MPI.PROD)):
        if op == o:
            return n
    return str(op)


def fake_device(comm=None, pde=None):
    """The repository's own CpuDevice, without its kernel compilation step."""
    import numpy
    import scipy
    from device import CpuDevice, Device

    d = CpuDevice.__new__(CpuDevice)
    Device.__init__(d, comm, numpy, scipy, pde)
    return d
