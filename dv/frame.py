"""A pandas.DataFrame with symbolic columns: assumed contracts of the few pandas operations that foxes applies to tables."""

import numpy as np
import pandas as pd

from .sym import Unsupported, SV, z3, ctx
from .arr import as_sarr


class SymIndex:
    def __init__(self, arr):
        self._a = arr

    def to_numpy(self, dtype=None, **k):
        return self._a.copy()

    @property
    def values(self):
        return self._a.copy()

    def __len__(self):
        return len(self._a)

    def _sym_len(self):
        return self._a.sym_len()

    def __iter__(self):
        return iter(self._a)


class SymSeries(SymIndex):
    def max(self):
        return self._a.max()

    def min(self):
        return self._a.min()

    def astype(self, t):
        return SymSeries(self._a.astype(t))


class SymFrame(pd.DataFrame):
    _internal = True

    def __init__(self, cols, index=None):
        object.__setattr__(self, "_sc", dict(cols))
        object.__setattr__(self, "_si", index)

    def __setattr__(self, k, v):
        if k != "columns":
            raise Unsupported(f"setting {k} of a symbolic table")
        object.__setattr__(self, "_sc", dict(zip(list(v), self._sc.values())))

    def __getattribute__(self, k):
        if k in ("_sc", "_si", "_increasing", "set_index", "sort_index", "sort_values", "reset_index", "index", "columns", "to_numpy",
                 "copy", "__class__", "__dict__", "_sym_len", "values", "rename", "sum", "_each"):
            return object.__getattribute__(self, k)
        if k.startswith("__"):
            return object.__getattribute__(self, k)
        raise Unsupported(f"pandas.DataFrame.{k} on a symbolic table")

    def _new(self, cols, index):
        return SymFrame(cols, index)

    def _increasing(self, a):
        c = ctx()
        i, j = z3.Int(c.uid("r")), z3.Int(c.uid("r"))
        n = a.axes[0].size_term()
        t = z3.Implies(z3.And(i >= 0, i < j, j < n), a.at((a.axes[0].from_flat(i),)) <= a.at((a.axes[0].from_flat(j),)))
        return c.entails(t)

    def set_index(self, col, **k):
        cols = dict(self._sc)
        ix = cols.pop(col)
        return SymFrame(cols, ix)

    def reset_index(self, drop=False, inplace=False, **k):
        if drop:
            return SymFrame(self._sc, None)
        if not inplace or "index" in self._sc:
            raise Unsupported("reset_index")
        from .npshim import np_arange

        cols = dict(index=np_arange(self._sym_len()) if self._si is None else self._si)
        object.__setattr__(self, "_sc", {**cols, **self._sc})
        object.__setattr__(self, "_si", None)

    def sort_index(self, inplace=False, **k):
        if self._si is not None and not self._increasing(self._si):
            raise Unsupported("sorting a symbolic table that is not known to be sorted")
        return None if inplace else self

    def sort_values(self, by, inplace=False, **k):
        b = [by] if isinstance(by, str) else list(by)
        if len(b) != 1 or not self._increasing(self._sc[b[0]]):
            raise Unsupported("sorting a symbolic table that is not known to be sorted")
        return None if inplace else self

    def copy(self, deep=True):
        return SymFrame({k: v.copy() for k, v in self._sc.items()}, self._si)

    @property
    def index(self):
        return SymIndex(self._si) if self._si is not None else range(0)

    @property
    def columns(self):
        return pd.Index(list(self._sc))

    def __contains__(self, k):
        return k in self._sc

    def __len__(self):
        return len(next(iter(self._sc.values())))

    def _sym_len(self):
        return next(iter(self._sc.values())).sym_len()

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("assignment to rows of a symbolic table")
        self._sc[k] = as_sarr(v)

    def __getitem__(self, k):
        if isinstance(k, (str, float, int)):
            return SymSeries(self._sc[k])
        if isinstance(k, (list, pd.Index, np.ndarray)):
            return SymFrame({c: self._sc[c] for c in k}, self._si)
        raise Unsupported("row selection of a symbolic table")

    def _each(self, other, f):
        """Operation with a number, or with one value per row, of shape (rows, 1)."""
        if getattr(other, "_is_sarr", False) or isinstance(other, np.ndarray):
            o = as_sarr(other)
            if o.ndim != 0:
                if o.ndim != 2 or not (isinstance(o.shape[1], int) and o.shape[1] == 1):
                    raise Unsupported("operation of a symbolic table with an array that is not one column")
                other = o[:, 0]
        return SymFrame({k: f(as_sarr(v), other) for k, v in self._sc.items()}, self._si)

    def __mul__(self, o):
        return self._each(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._each(o, lambda a, b: a / b)

    __rmul__ = __imul__ = __mul__
    __itruediv__ = __truediv__

    def rename(self, columns=None, inplace=False):
        cols = {(columns or {}).get(k, k): v for k, v in self._sc.items()}
        if not inplace:
            return SymFrame(cols, self._si)
        object.__setattr__(self, "_sc", cols)

    def sum(self):
        return SymTotals({k: as_sarr(v).sum() for k, v in self._sc.items()})

    def to_numpy(self, dtype=None, **k):
        from .npshim import np_stack

        return np_stack([as_sarr(v) for v in self._sc.values()], axis=-1)

    @property
    def values(self):
        return self.to_numpy()

    def __repr__(self):
        return f"SymFrame({list(self._sc)})"


class SymTotals(dict):
    """Column totals of a symbolic table."""

    def __mul__(self, x):
        return SymTotals({k: v * x for k, v in self.items()})

    __rmul__ = __mul__


class DataArray:
    """A variable of a symbolic data set: assumed contract of the few xarray operations that foxes applies to results."""

    def __init__(self, dims, data):
        self.dims = tuple(dims)
        self._d = data

    @property
    def dtype(self):
        return self._d.dtype

    @property
    def shape(self):
        return self._d.shape

    def to_numpy(self):
        return self._d

    values = property(to_numpy)

    def _op(self, other, f):
        if isinstance(other, DataArray):
            if other.dims != self.dims:
                raise Unsupported("xarray operation between different dimensions")
            other = other._d
        return DataArray(self.dims, f(self._d, other))

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)


class DataSet:
    """A symbolic xarray.Dataset"""

    def __init__(self, coords, data):
        self.coords = {k: DataArray((k,), v) for k, v in coords.items()}
        self._v = {k: DataArray(d, v) for k, (d, v) in data.items()}

    @property
    def data_vars(self):
        return self._v

    @property
    def sizes(self):
        out = {}
        for a in list(self.coords.values()) + list(self._v.values()):
            for k, d in enumerate(a.dims):
                out.setdefault(d, a.shape[k])
        return out

    def __contains__(self, k):
        return k in self._v or k in self.coords

    def __getitem__(self, k):
        return self._v[k] if k in self._v else self.coords[k]

    def __setitem__(self, k, v):
        self._v[k] = v if isinstance(v, DataArray) else DataArray(v[0], as_sarr(v[1]))


class _DF(type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.DataFrame)


class NewFrame(metaclass=_DF):
    """Stands in for pandas.DataFrame where foxes creates tables from symbolic columns."""

    def __new__(cls, data=None, index=None, **k):
        if isinstance(data, dict) and any(getattr(v, "_is_sarr", False) for v in data.values()) and not k:
            n = next(iter(data.values())).sym_len()
            from .npshim import np_arange

            return SymFrame({c: as_sarr(v) for c, v in data.items()}, np_arange(n) if isinstance(index, range) or getattr(index, "_sym_range", False) else (None if index is None else as_sarr(index)))
        return pd.DataFrame(data=data, index=index, **k)


class Pandas:
    """The pandas module with NewFrame"""

    DataFrame = NewFrame

    def __getattr__(self, k):
        return getattr(pd, k)


PANDAS = Pandas()
