"""An in-memory netCDF4 module: what the code writes can be read back, symbolic or not."""

import contextlib
import sys
import types

from .check import np
from . import symnp


class Var:
    def __init__(self, ds, dims):
        self.ds = ds
        self.dims = (dims,) if isinstance(dims, str) else tuple(dims)
        self.data = {}

    def __len__(self):
        return 1 + max([k[0] for k in self.data], default=-1)

    def set_collective(self, *a):
        pass

    def _shape(self):
        return [self.ds.dimensions[d] for d in self.dims]

    def _expand(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if Ellipsis in key:
            i = key.index(Ellipsis)
            key = key[:i] + (slice(None),) * (len(self.dims) - len(key) + 1) + key[i + 1 :]
        key = key + (slice(None),) * (len(self.dims) - len(key))
        idx, kept = [], []
        for k, n in zip(key, self._shape()):
            if isinstance(k, slice):
                r = list(range(*k.indices(len(self) if n is None else n)))
                kept.append(len(r))
                idx.append(r)
            else:
                k = int(k)
                idx.append([k if k >= 0 else k + (len(self) if n is None else n)])
        return idx, kept

    def __setitem__(self, key, val):
        idx, kept = self._expand(key)
        v = np.broadcast_to(np.asarray(val, dtype=object), tuple(kept))
        flat = v.reshape(-1)
        for n, i in enumerate(np.ndindex(*[len(r) for r in idx])):
            self.data[tuple(r[j] for r, j in zip(idx, i))] = flat[n]

    def __getitem__(self, key):
        idx, kept = self._expand(key)
        out = symnp.np_empty(tuple(len(r) for r in idx), dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = self.data.get(tuple(r[j] for r, j in zip(idx, i)))
        out = out.reshape(tuple(kept))
        return symnp.wrap(out)


class Dataset:
    made = []

    def __init__(self, name, mode="r", **k):
        self.filename = name
        self.dimensions = {}
        self.variables = {}
        self.closed = 0
        Dataset.made.append(self)

    def createDimension(self, name, size=None):
        self.dimensions[name] = size

    def createVariable(self, name, dtype, dims=(), **k):
        self.variables[name] = v = Var(self, dims)
        return v

    def __getitem__(self, name):
        return self.variables[name]

    def set_auto_mask(self, *a):
        pass

    def sync(self):
        pass

    def close(self):
        self.closed += 1


@contextlib.contextmanager
def module():
    m = types.ModuleType("netCDF4")
    m.Dataset = Dataset
    old = sys.modules.get("netCDF4")
    sys.modules["netCDF4"] = m
    Dataset.made = []
    try:
        yield Dataset
    finally:
        if old is None:
            sys.modules.pop("netCDF4", None)
        else:
            sys.modules["netCDF4"] = old
