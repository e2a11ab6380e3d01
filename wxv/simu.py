"""Build the repository's own Simulation objects on small grids, without compiling kernels, in a scratch directory."""

import contextlib
import io
import os
import shutil
import tempfile
from unittest import mock

from . import symnp
from .check import REPO, np
from .fakempi import World


@contextlib.contextmanager
def scratch():
    """Working directory for code that writes files: created and removed here."""
    d = tempfile.mkdtemp(prefix="wxv_")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


BUBBLE = """
[General]
equations = euler
[Grid]
grid_type = cartesian2d
x0 = 0
x1 = 1000
z0 = 0
z1 = 1500
[Test_case]
case_number = 2
bubble_theta = 303.15
bubble_rad = 250.
[Time_integration]
dt = 5
t_end = 20
time_integrator = euler1
krylov_size = 10
tolerance = 1e-12
starting_step = 0
[Spatial_discretization]
num_solpts = 2
num_elements_horizontal = 2
num_elements_vertical = 1
filter_apply = 0
[Output_options]
stat_freq = 0
output_freq = 0
save_state_freq = 0
store_solver_stats = 0
output_dir = {out}
"""


def schema():
    from common import ConfigurationSchema

    with open(os.path.join(REPO, "config", "config-format.json")) as f:
        return ConfigurationSchema(f.read())


@contextlib.contextmanager
def no_compile():
    """CpuDevice without its kernel compilation"""
    import device.device as dd
    import scipy

    old = dd.CpuDevice.__init__
    if getattr(old, "no_compile", False):
        yield
        return

    def init(self, comm=None):
        dd.Device.__init__(self, comm, np, scipy, mock.MagicMock())

    init.no_compile = True
    dd.CpuDevice.__init__ = init
    try:
        yield
    finally:
        dd.CpuDevice.__init__ = old


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def on_one(fn):
    """Run fn(comm) on a world of one process"""
    r = World(1).run(lambda rank, comm: fn(comm))[0]
    if r[0] == "ok":
        return r[1]
    if isinstance(r[1], BaseException):
        raise r[1]
    raise RuntimeError(str(r))


def simulation(config, comm):
    from simulation import Simulation

    with no_compile(), symnp.symbolic(False):
        return Simulation(config, comm=comm)


class Havoc:
    """Stand-in for an integrator or filter: returns arbitrary values and records what it was given."""

    def __init__(self, inp, name, log, shape, lo=1.0, hi=2.0, fail_at=None):
        self.inp, self.name, self.log, self.shape = inp, name, log, shape
        self.n = 0
        self.lo, self.hi = lo, hi
        self.failure_flag = 0
        self.latest_time = 0.0
        self.sim_time = 0.0
        self.fail_at = fail_at

    def fresh(self):
        self.n += 1
        return self.inp.array(f"{self.name}{self.n}", self.shape, self.lo, self.hi)

    def step(self, Q, dt):
        out = self.fresh()
        if self.fail_at is not None and self.n == self.fail_at:
            self.failure_flag = 1
        self.log.append(("step", Q, dt, out))
        return out

    def apply_filters(self, Q, geom, metric, dt):
        out = self.fresh()
        self.log.append(("filter", Q, dt, out))
        return out


class RecOut:
    def __init__(self, log):
        self.log = log
        self.done = 0

    def step(self, Q, step_id):
        self.log.append(("output", Q, step_id, None))

    def finalize(self, total):
        self.done += 1
        self.log.append(("finalize", None, None, None))


SPHERE = """
[General]
equations = {eq}
[Grid]
grid_type = cubed_sphere
lambda0 = 0.0
phi0 = 0.0
alpha0 = 0.0
{ztop}
[Test_case]
case_number = {case}
[Time_integration]
dt = 5
t_end = 20
time_integrator = euler1
krylov_size = 10
tolerance = 1e-12
starting_step = 0
[Spatial_discretization]
num_solpts = {ns}
num_elements_horizontal = {ne}
num_elements_vertical = {nv}
filter_apply = 0
[Output_options]
stat_freq = 0
output_freq = 0
save_state_freq = 0
store_solver_stats = 0
output_dir = {out}
"""


def sphere(out, eq="shallow_water", case=6, ns=2, ne=4, nv=1):
    from common import Configuration

    txt = SPHERE.format(eq=eq, case=case, ns=ns, ne=ne, nv=nv, out=out, ztop="ztop = 10000" if eq == "euler" else "")
    return Configuration(txt, schema())


def bubble(out):
    from common import Configuration

    return Configuration(BUBBLE.format(out=out), schema())


def values(results):
    """The values of all ranks, or the first error"""
    for r, (kind, v) in sorted(results.items(), key=lambda x: (x[1][0] != "raise", x[0])):
        if kind != "ok":
            if isinstance(v, BaseException):
                raise v
            raise RuntimeError(f"rank {r}: {kind} {v}")
    return [results[r][1] for r in sorted(results)]


def device(comm=None):
    from device import CpuDevice

    with no_compile():
        return CpuDevice(comm)
