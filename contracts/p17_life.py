"""P17: chunk storage and model life cycle keep their records straight."""

import itertools

from dv.core import contract
from contracts.fix import NS
import foxes.constants as FC

ALGO = "foxes.core.algorithm.Algorithm."
MODEL = "foxes.core.model.Model."


def algorithm(verbosity=0, **kw):
    from foxes.core import Algorithm

    class Algo(Algorithm):
        def sub_models(self):
            return getattr(self, "subs", [])

        def _launch_parallel_farm_calc(self, *args, **kwargs):
            return self.on_farm(*args, **kwargs)

        def _launch_parallel_points_calc(self, *args, **kwargs):
            return self.on_points(*args, **kwargs)

    return Algo("mbook", NS(n_turbines=kw.pop("n_turbines", 3)), verbosity=verbosity, dbook="dbook", **kw)


class Store:
    """A chunk store with any number of chunks: only the entries that are asked for come into existence."""

    def __init__(self, w, key, present, entry):
        self.w, self.key, self.present, self.entry, self.log = w, key, present, entry, []

    def mine(self, key):
        self.w.ensure("only the chunk's own entry is used", self.w.And(key[0] == self.key[0], key[1] == self.key[1]))

    def __contains__(self, key):
        self.mine(key)
        return bool(self.present)

    def __getitem__(self, key):
        self.mine(key)
        if not self.present:
            raise KeyError(key)
        return self.entry

    def __setitem__(self, key, value):
        self.mine(key)
        self.present, self.entry = True, value
        self.log.append("new")


def chunk(w, targets, tag=""):
    """Model and point data of a chunk at any position."""
    from foxes.core import MData, TData

    np = w.np
    S, N, P = w.dim("S" + tag), w.dim("N" + tag), w.dim("P" + tag)
    i0, t0 = w.integer("i0" + tag, lo=0, hi=9), w.integer("t0" + tag, lo=0, hi=9)
    m = MData({FC.STATE: np.arange(S)}, {FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=i0)
    t = None
    if targets:
        pts = w.real("points" + tag, S, N, P, 3)
        t = TData.from_tpoints(pts, w.real("tweights" + tag, P))
        t._Data__targets_i0 = t0 if hasattr(t, "_Data__targets_i0") else None
        t = TData({FC.TARGETS: pts, FC.TWEIGHTS: w.real("tweights" + tag, P)}, {FC.TARGETS: (FC.STATE, FC.TARGET, FC.TPOINT, FC.XYH), FC.TWEIGHTS: (FC.TPOINT,)},
                  loop_dims=[FC.STATE, FC.TARGET], states_i0=i0, targets_i0=t0) if targets_arg() else t
    return m, t, (i0, t0 if targets else 0), (S, N if targets else 0)


def targets_arg():
    import inspect
    from foxes.core import TData

    return "targets_i0" in inspect.signature(TData.__init__).parameters
