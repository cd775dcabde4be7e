"""Shared fixtures: foxes' own data containers filled with contract inputs."""

import foxes.constants as FC
import foxes.variables as FV


class NS:
    """A plain attribute holder standing in for an object that a function receives."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def fdata(w, S, T, /, **vars):
    from foxes.core import FData

    data, dims = {}, {}
    for v, d in vars.items():
        data[getattr(FV, v)] = d
        dims[getattr(FV, v)] = (FC.STATE, FC.TURBINE) + ((FC.XYH,) if v == "TXYH" else ())
    return FData(data, dims, loop_dims=[FC.STATE])


def tdata(w, targets, weights, **vars):
    from foxes.core import TData

    data, dims = {}, {}
    for v, d in vars.items():
        data[getattr(FV, v)] = d
        dims[getattr(FV, v)] = (FC.STATE, FC.TARGET, FC.TPOINT)
    return TData.from_tpoints(targets, weights, data=data, dims=dims)


def mdata(w, S, **extra):
    from foxes.core import MData

    return MData({FC.STATE: w.np.arange(S)}, {FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=0, **extra)


def algo_rotor_wd(**kw):
    from foxes.models.wake_frames import RotorWD

    return NS(wake_frame=RotorWD(), name="algo", **kw)


def store_algo(**kw):
    """An algorithm that accepts model data to store."""
    kw = dict(dict(store_model_data=lambda *a, **k: None, states=NS(), farm=NS(turbines=[], turbine_names=[]), store_chunk=None, verbosity=0), **kw)
    return NS(**kw)


def mask_full(w, sel, full, ndim):
    """sel (S, N) brought to ndim dimensions"""
    return sel[(slice(None), slice(None)) + (None,) * (ndim - 2)]


SEL_KINDS = ("all", "mask", "col", "maskcol")


def selection(w, kind, S, T):
    """A state-turbine selection as produced by the farm controller, and the equivalent (S, T) mask."""
    np = w.np
    if kind == "all":
        return (slice(None), slice(None)), np.ones((S, T), dtype=bool)
    if kind == "mask":
        m = w.boolean("sel", S, T)
        return m, m
    i = w.integer("i_sel", lo=0, lt=T)
    col = np.arange(T)[None, :] == i
    if kind == "col":
        return (slice(None), i), np.logical_and(np.ones((S, T), dtype=bool), col)
    m = w.boolean("sel_s", S)
    return (m, i), np.logical_and(m[:, None], col)
