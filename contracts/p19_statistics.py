"""P19: farm statistics are correct averages, sums and ratios."""

from dv.core import contract
from .fix import NS

FE = "foxes.output.farm_results_eval.FarmResultsEval"


def evaluation(w, S, T, weights, **vars):
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.output import farm_results_eval as mod

    w.pandas(mod)
    states = vars.pop("states", None)
    st = (FC.STATE, FC.TURBINE)
    wd = w.real("weight", S, lo=0.0, hi=1.0) if weights == "s" else w.real("weight", S, T, lo=0.0, hi=1.0)
    data = {getattr(FV, v, v): (st, d) for v, d in vars.items()}
    data[FV.WEIGHT] = ((FC.STATE,) if weights == "s" else st, wd)
    ds = w.dataset({FC.STATE: w.np.arange(S) if states is None else states}, data)
    return mod.FarmResultsEval(ds), ds, (wd[:, None] if weights == "s" else wd)


def col(df, v):
    return df[v].to_numpy()


def attained(w, name, x, m, axis):
    """m is the extremum of x along the axis: one of the values, and (checked separately) not exceeded by any."""
    np = w.np
    w.ensure(name + ": attained", np.any(x == (m[None, :] if axis == 0 else m[:, None]), axis=axis))


@contract("P19", [FE + ".reduce_states", FE + ".weinsum", FE + ".calc_states_mean", FE + ".calc_states_sum", FE + ".calc_states_std"], params=dict(weights=["s", "st"]))
def over_states(w, weights):
    """Each turbine's weighted mean, mean, sum, extrema and standard deviation over all states, of that turbine's values."""
    np = w.np
    S, T = w.dim("S"), w.dim("T")
    x, y = w.real("x", S, T), w.real("y", S, T)
    ev, ds, wt = evaluation(w, S, T, weights, x=x, y=y)
    ops = lambda o: ev.reduce_states({"x": o, "y": "sum"})
    w.eq("weighted", col(ops("weights"), "x"), np.sum(x * wt, axis=0))
    w.eq("mean", col(ops("mean_no_weights"), "x"), np.sum(x, axis=0) / S)
    w.eq("sum", col(ops("sum"), "x"), np.sum(x, axis=0))
    lo, hi = col(ops("min"), "x"), col(ops("max"), "x")
    w.le("not below the minimum", lo[None, :], x)
    w.le("not above the maximum", x, hi[None, :])
    attained(w, "minimum", x, lo, 0)
    attained(w, "maximum", x, hi, 0)
    m = np.sum(x, axis=0) / S
    d = x - np.mean(x, axis=0, keepdims=True)
    sd = col(ops("std"), "x")
    w.eq("standard deviation", sd, np.sqrt(np.mean(d * d, axis=0)))
    w.eq("other variable", col(ops("min"), "y"), np.sum(y, axis=0))
    w.eq("calc_states_mean", col(ev.calc_states_mean(["x", "y"]), "y"), np.sum(y * wt, axis=0))
    w.eq("calc_states_mean of one variable", col(ev.calc_states_mean("x"), "x"), np.sum(x * wt, axis=0))
    w.eq("calc_states_mean without weights", col(ev.calc_states_mean("x", use_weights=False), "x"), m)
    w.eq("calc_states_sum", col(ev.calc_states_sum(["x"]), "x"), np.sum(x, axis=0))
    w.eq("calc_states_std", col(ev.calc_states_std(["x"]), "x"), sd)
    w.eq("results unchanged", ds["x"].to_numpy(), x)


@contract("P19", [FE + ".reduce_turbines", FE + ".calc_turbine_mean", FE + ".calc_turbine_sum"], params=dict(weights=["s", "st"]))
def over_turbines(w, weights):
    """Each state's mean, sum, weighted sum and extrema over all turbines, of that state's values."""
    np = w.np
    S, T = w.dim("S"), w.dim("T")
    x, y = w.real("x", S, T), w.real("y", S, T)
    ev, ds, wt = evaluation(w, S, T, weights, x=x, y=y)
    ops = lambda o: ev.reduce_turbines({"x": o, "y": "sum"})
    w.eq("weighted", col(ops("weights"), "x"), np.sum(x * wt, axis=1))
    w.eq("mean", col(ops("mean_no_weights"), "x"), np.sum(x, axis=1) / T)
    w.eq("sum", col(ops("sum"), "x"), np.sum(x, axis=1))
    lo, hi = col(ops("min"), "x"), col(ops("max"), "x")
    w.le("not below the minimum", lo[:, None], x)
    w.le("not above the maximum", x, hi[:, None])
    attained(w, "minimum", x, lo, 1)
    attained(w, "maximum", x, hi, 1)
    w.eq("other variable", col(ops("min"), "y"), np.sum(y, axis=1))
    w.eq("calc_turbine_mean", col(ev.calc_turbine_mean(["x", "y"]), "y"), np.sum(y, axis=1) / T)
    w.eq("calc_turbine_sum", col(ev.calc_turbine_sum(["x"]), "x"), np.sum(x, axis=1))


@contract("P19", [FE + ".reduce_all", FE + ".calc_farm_mean", FE + ".calc_farm_sum", FE + ".calc_mean_farm_power"], params=dict(weights=["s", "st"]))
def over_all(w, weights):
    """Reductions over states and then turbines; the farm power is the sum of the turbines' mean powers."""
    import foxes.variables as FV

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    x, P, P0 = w.real("x", S, T), w.real("P", S, T), w.real("P0", S, T)
    ev, ds, wt = evaluation(w, S, T, weights, x=x, P=P, AMB_P=P0)
    ops = lambda a, b: ev.reduce_all({"x": a, FV.P: "sum"}, {"x": b, FV.P: "sum"})
    mean = np.sum(x * wt, axis=0)
    w.eq("sum of means", ops("weights", "sum")["x"], np.sum(mean))
    w.eq("mean of means", ops("weights", "mean_no_weights")["x"], np.sum(mean) / T)
    w.eq("mean of sums", ops("sum", "mean_no_weights")["x"], np.sum(np.sum(x, axis=0)) / T)
    w.eq("weighted", ops("weights", "weights")["x"], np.sum(x * wt))
    lo, hi = ops("weights", "min")["x"], ops("weights", "max")["x"]
    w.le("not below the minimum", lo, mean)
    w.le("not above the maximum", mean, hi)
    own = col(ev.calc_states_mean("x"), "x")
    w.ensure("minimum attained", np.any(own == lo))
    w.ensure("maximum attained", np.any(own == hi))
    w.eq("other variable", ops("min", "max")[FV.P], np.sum(np.sum(P, axis=0)))
    w.eq("calc_farm_mean", ev.calc_farm_mean(["x"])["x"], np.sum(mean) / T)
    w.eq("calc_farm_sum", ev.calc_farm_sum(["x"])["x"], np.sum(np.sum(x, axis=0)))
    w.eq("mean farm power", ev.calc_mean_farm_power(), np.sum(np.sum(P * wt, axis=0)))
    w.eq("mean ambient farm power", ev.calc_mean_farm_power(ambient=True), np.sum(np.sum(P0 * wt, axis=0)))


@contract("P19", [FE + ".add_capacity", FE + ".add_efficiency"], params=dict(ambient=[False, True], given=[False, True]))
def ratios(w, ambient, given):
    """Capacity is power over nominal power; efficiency is power over ambient power, at most one, and zero without power."""
    import foxes.constants as FC
    import foxes.variables as FV

    np = w.np
    S, T = w.dim("S"), w.dim("T") if given else 3
    P, P0 = w.real("P", S, T, lo=0.0, hi=5000.0, special=(0.0,)), w.real("P0", S, T, lo=0.0, hi=5000.0, special=(0.0,))
    nom = w.real("P_nom", T, lo=100.0, hi=5000.0)
    ev, ds, _ = evaluation(w, S, T, "s", P=P, AMB_P=P0)
    if given:
        ev.add_capacity(P_nom=w.snap(nom), ambient=ambient, verbosity=0)
    else:
        ev.add_capacity(algo=NS(farm_controller=NS(turbine_types=[NS(P_nominal=nom[i]) for i in range(3)])), ambient=ambient, verbosity=0)
    cap = ds[FV.AMB_CAP if ambient else FV.CAP]
    w.is_true("capacity dims", cap.dims == (FC.STATE, FC.TURBINE) and (FV.CAP if ambient else FV.AMB_CAP) not in ds)
    w.eq("capacity", cap.to_numpy() * nom[None, :], P0 if ambient else P)
    ev.add_efficiency(verbosity=0)
    w.is_true("efficiency dims", ds[FV.EFF].dims == (FC.STATE, FC.TURBINE))
    eff = ds[FV.EFF].to_numpy()
    w.le("not negative", 0.0, eff)
    w.le("at most one", eff, 1.0)
    w.eq_where("power over ambient power", np.logical_and(P0 > 1e-3, np.logical_and(P > 1e-3, P <= P0)), eff * P0, P)
    w.eq_where("no power", P <= 0.0, eff, 0.0)
    w.eq("power unchanged", ds[FV.P].to_numpy(), P)
    w.eq("ambient power unchanged", ds[FV.AMB_P].to_numpy(), P0)


@contract("P19", FE + ".calc_farm_efficiency", params=dict(weights=["s", "st"]))
def farm_efficiency(w, weights):
    """Mean farm power over mean ambient farm power, at most one; no division by zero."""
    np = w.np
    S, T = w.dim("S"), w.dim("T")
    P, P0 = w.real("P", S, T, lo=0.0, hi=5000.0, special=(0.0,)), w.real("P0", S, T, lo=0.0, hi=5000.0, special=(0.0,))
    ev, ds, wt = evaluation(w, S, T, weights, P=P, AMB_P=P0)
    e = ev.calc_farm_efficiency()
    a, b = np.sum(np.sum(P * wt, axis=0)), np.sum(np.sum(P0 * wt, axis=0))
    w.le("at most one", e, 1.0)
    w.ensure("power over ambient power", w.implies(w.And(b > 1e-3, a <= b), w.approx_eq(e * b, a)))


@contract("P19", [FE + ".calc_turbine_yield", FE + ".calc_farm_yield"], params=dict(ambient=[False, True], hours=["annual", "hours", "hours, annual"], unit=["algo", "given"]))
def yields(w, ambient, hours, unit):
    """The yield is the mean power times the duration, in GWh; annual yields refer to 8760 hours."""
    import foxes.constants as FC
    import foxes.variables as FV

    np = w.np
    S, T = w.dim("S"), w.dim("T") if unit == "given" else 3
    P, P0 = w.real("P", S, T), w.real("P0", S, T)
    ev, ds, wt = evaluation(w, S, T, "s", P=P, AMB_P=P0)
    h = w.real("hours", lo=1.0, hi=10000.0)
    if unit == "algo":
        u = ["kW", "MW", "W"]
        kw = dict(algo=NS(farm_controller=NS(turbine_types=[NS(P_unit=x) for x in u])))
        fac = np.array([1e3, 1e6, 1.0])
    else:
        fac = w.real("P_unit_W", lo=1.0, hi=1e6)
        kw = dict(P_unit_W=fac)
    kw.update(ambient=ambient, annual="annual" in hours)
    if "hours" in hours:
        kw["hours"] = h
    v = FV.AMB_YLD if ambient else FV.YLD
    r = ev.calc_turbine_yield(**kw)
    w.is_true("column", list(r.columns) == [v])
    mean = np.sum((P0 if ambient else P) * wt, axis=0)
    dur = 8760.0 if "annual" in hours else h
    y = mean * fac * dur / 1e9
    w.eq("yield", col(r, v), y)
    w.eq("farm yield of turbine yields", ev.calc_farm_yield(r), np.sum(y))
    w.eq("farm yield", ev.calc_farm_yield(**kw), np.sum(y))
    q = w.real("uncertainty", lo=0.0, hi=0.5)
    a, p75, p90 = ev.calc_farm_yield(r, power_uncert=q)
    w.eq("expected", a, np.sum(y))
    w.eq("P75", p75, np.sum(y) * (1 - 0.675 * q))
    w.eq("P90", p90, np.sum(y) * (1 - 1.282 * q))
    w.eq("power unchanged", ds[FV.P].to_numpy(), P)


@contract("P19", FE + ".calc_turbine_yield", params=dict(time=["ns", "s", "delta"], annual=[False, True]))
def time_series_yields(w, time, annual):
    """For time series the duration is that of the series, including the last time step."""
    import numpy
    import foxes.variables as FV

    np = w.np
    n, T = 4, w.dim("T")
    times = (numpy.datetime64("2023-03-01T00:00:00") + numpy.arange(n) * numpy.timedelta64(1800, "s")).astype("datetime64[s]" if time == "s" else "datetime64[ns]")
    P = w.real("P", n, T)
    ev, ds, wt = evaluation(w, n, T, "s", P=P, AMB_P=P, states=times)
    kw = dict(delta_t=numpy.timedelta64(6, "h")) if time == "delta" else {}
    r = ev.calc_turbine_yield(P_unit_W=1000.0, annual=annual, **kw)
    dur = 8760.0 if annual else (7.5 if time == "delta" else 2.0)
    w.eq("yield", col(r, FV.YLD), np.sum(P * wt, axis=0) * 1000.0 * dur / 1e9)


@contract("P19", FE + ".weinsum", mode="bounded", params=dict(weights=["s", "st"]), bound="up to 6 states and 4 turbines")
def missing_values(w, weights):
    """States with missing values do not count, the others count more by the missing weight; means refuse missing values."""
    np = w.np
    S, T = w.dim("S", lo=2, hi=6), w.dim("T", hi=4)
    x = w.real("x", S, T)
    gone = np.logical_and(w.boolean("gone", S, T), w.boolean("gone_state", S)[:, None])
    gone[int(w.integer("full", lo=0, lt=S))] = False
    x = np.where(gone, np.nan, x)
    ev, ds, wt = evaluation(w, S, T, weights, x=x)
    wt = wt + np.zeros((S, T))
    ok = ~gone.any(axis=1)
    w.assume(bool((wt[ok].sum(axis=0) > 1e-3).all()))
    e = np.sum(np.where(gone, 0.0, x)[ok] * wt[ok], axis=0) * wt.sum(axis=0) / wt[ok].sum(axis=0)
    w.eq("weighted sum of the complete states", ev.weinsum("t", x), e)
    w.eq("total", ev.weinsum("", x), np.sum(e))
    if gone.any():
        w.raises("mean", AssertionError, lambda: ev.reduce_states({"x": "weights"}))
        w.raises("mean over turbines", AssertionError, lambda: ev.reduce_turbines({"x": "sum"}))
    w.raises("unknown operation", KeyError, lambda: ev.reduce_states({"weight": "median"}))
