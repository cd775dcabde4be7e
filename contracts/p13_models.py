"""P13: turbine models compute their documented formula on the selected turbines only."""

from dv.core import contract
from .fix import NS, SEL_KINDS, fdata, mdata, selection, store_algo

TM = "foxes.models.turbine_models."


def check(w, out, fd, var, mask, expect, old, others=None):
    """The selected entries have the expected values, all others and all other variables the old ones."""
    w.eq_where(f"{var}: selected", mask, out[var], expect)
    w.eq_where(f"{var}: others unchanged", w.Not(mask), out[var], old[var])
    for v, x in old.items():
        if v != var and (others is None or v in others):
            w.eq(f"{v} unchanged", fd[v], x)


@contract("P13", TM + "kTI_model.kTI.calculate",
          params=[dict(sel=s, given=g, k=k) for s in SEL_KINDS for g, k in (("none", "old"), ("kTI", "new"), ("all", "old"), ("kTI_kb", "new"))] +
                 [dict(sel="mask", given=g, k=k) for g, k in (("ti", "old"), ("farm_kb", "old"), ("rotor_ti", "new"), ("farm_kb", "amb_k"))], samples=12)
def kti(w, sel, given, k):
    """k = kTI TI + kb, with each value as given to the model or else from the farm data (kb: zero by default)."""
    import foxes.variables as FV
    from foxes.models.turbine_models import kTI

    S, T = w.dim("S"), w.dim("T")
    f = {n: w.real(n, S, T, lo=0.0, hi=1.0) for n in ("TI", "AMB_TI", "KTI", "KB", "K", "CT")}
    g = {n: w.real("given_" + n, lo=0.0, hi=1.0) for n in ("kTI", "kb", "ti")}
    kw = dict(none={}, kTI=dict(kTI=g["kTI"]), kTI_kb=dict(kTI=g["kTI"], kb=g["kb"]), ti=dict(kTI=g["kTI"], ti_val=g["ti"]),
              all=dict(kTI=g["kTI"], kb=g["kb"], ti_val=g["ti"]), farm_kb={}, rotor_ti=dict(ti_var=FV.AMB_TI, kTI=g["kTI"]))[given]
    if k == "amb_k":
        kw["k_var"] = FV.AMB_TI
        f["TI"], f["AMB_TI"] = f["AMB_TI"], f["TI"]
    kv = kw.get("k_var", FV.K)
    m = kTI(**kw)
    have = ["TI", "AMB_TI", "CT"] + (["K"] if k == "old" else []) + (["KB"] if given == "farm_kb" else []) + ([] if "kTI" in kw else ["KTI"])
    fd = fdata(w, S, T, **{n: w.snap(f[n]) for n in have})
    old = {getattr(FV, n): f[n] for n in have}
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    one = w.np.ones((S, T))
    a = one * kw["kTI"] if "kTI" in kw else f["KTI"]
    b = one * kw["kb"] if "kb" in kw else f["KB"] if given == "farm_kb" else 0.0 * one
    ti = one * kw["ti_val"] if "ti_val" in kw else f["AMB_TI"] if kw.get("ti_var") else f["TI"]
    if k == "new":
        old[kv] = 0.0 * one
    w.is_true("outputs", list(out) == [kv] and m.output_farm_vars(NS()) == [kv])
    check(w, out, fd, kv, mask, a * ti + b, old, [v for v in old if v != kv])


@contract("P13", TM + "thrust2ct.Thrust2Ct.calculate", params=dict(sel=SEL_KINDS, wsvar=["default", "REWS"]))
def thrust2ct(w, sel, wsvar):
    """ct = thrust / (1/2 rho ws^2 A)"""
    import foxes.variables as FV
    from foxes.models.turbine_models import Thrust2Ct

    S, T = w.dim("S"), w.dim("T")
    names = dict(CT=(0.0, 1.0), T=(0.0, 1000.0), RHO=(1.0, 1.3), D=(50.0, 200.0), REWS2=(1.0, 30.0), REWS=(1.0, 30.0))
    f = {n: w.real(n, S, T, lo=a, hi=b) for n, (a, b) in names.items()}
    fd = fdata(w, S, T, **{n: w.snap(x) for n, x in f.items()})
    m = Thrust2Ct(**({} if wsvar == "default" else dict(var_ws_ct=FV.REWS)))
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    ws = f["REWS2" if wsvar == "default" else "REWS"]
    e = f["T"] / (0.5 * f["RHO"] * ws**2 * w.np.pi * f["D"] ** 2 / 4)
    w.is_true("outputs", list(out) == [FV.CT] and m.output_farm_vars(NS()) == [FV.CT])
    check(w, out, fd, FV.CT, mask, e, {getattr(FV, n): x for n, x in f.items()})


def yaw_data(w):
    import foxes.variables as FV

    S, T = w.dim("S"), w.dim("T")
    spec = (0, 90, 180, 270)
    f = {FV.YAW: w.real("yaw", S, T, lo=0.0, lt=360.0, special=spec), FV.WD: w.real("wd", S, T, lo=0.0, lt=360.0, special=spec), FV.YAWM: w.real("yawm", S, T, lo=-180.0, hi=180.0, special=(-180, 0, 180))}
    fd = fdata(w, S, T, YAW=w.snap(f[FV.YAW]), WD=w.snap(f[FV.WD]), YAWM=w.snap(f[FV.YAWM]))
    return S, T, f, fd


@contract("P13", [TM + "yaw2yawm.YAW2YAWM.calculate", TM + "yawm2yaw.YAWM2YAW.calculate"], params=dict(sel=SEL_KINDS, which=["yaw2yawm", "yawm2yaw"]))
def yaw(w, sel, which):
    """Yaw = wind direction plus misalignment, modulo a full turn; each model inverts the other."""
    import foxes.variables as FV
    from foxes.models.turbine_models import YAW2YAWM, YAWM2YAW

    np = w.np
    S, T, f, fd = yaw_data(w)
    st_sel, mask = selection(w, sel, S, T)
    src, dst = (FV.YAW, FV.YAWM) if which == "yaw2yawm" else (FV.YAWM, FV.YAW)
    m, back = (YAW2YAWM(), YAWM2YAW()) if which == "yaw2yawm" else (YAWM2YAW(), YAW2YAWM())
    w.is_true("outputs", m.output_farm_vars(NS()) == [dst])
    md = mdata(w, S)
    out = m.calculate(NS(), md, fd, st_sel)
    r = out[dst]
    w.eq_where("others unchanged", w.Not(mask), r, f[dst])
    lo, hi = (-180.0, 180.0) if dst == FV.YAWM else (0.0, 360.0)
    w.ensure("range", np.logical_or(w.Not(mask), np.logical_and(r >= lo, r <= hi)))
    turn = f[FV.WD] + (r if dst == FV.YAWM else f[FV.YAWM]) - (r if dst == FV.YAW else f[FV.YAW])
    w.angle_eq("yaw is wind direction plus misalignment", np.where(mask, turn, 0.0 * turn), 0.0 * turn, 360.0)
    for v in (src, FV.WD):
        w.eq(f"{v} unchanged", fd[v], f[v])
    fd[dst] = r
    again = back.calculate(NS(), md, fd, st_sel)[src]
    w.angle_eq("and back", np.where(mask, again, f[src]), f[src], 360.0)


@contract("P13", TM + "set_farm_vars.SetFarmVars.calculate", params=dict(sel=SEL_KINDS, pre_rotor=[False, True]))
def set_farm_vars(w, sel, pre_rotor):
    """The user's values replace the farm data where they are given (not NaN), at the selected entries only."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.turbine_models import SetFarmVars

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    f = {v: w.real(v, S, T) for v in ("K", "MAX_P", "P")}
    x = {v: w.real("user_" + v, S, T) for v in ("K", "MAX_P")}
    given = {v: w.boolean("given_" + v, S, T) for v in x}
    # after the downwind sort all data of a chunk are in the same order, so that no order appears here
    order = w.perm("order", S, T)
    fd = fdata(w, S, T, **{v: w.snap(d) for v, d in f.items()})
    dims = (FC.STATE, FC.TURBINE)
    fd.add(FV.ORDER, order, dims)
    fd.add(FV.ORDER_SSEL, np.arange(S)[:, None] + np.zeros((S, T), dtype=int), dims)
    m = SetFarmVars(pre_rotor=pre_rotor)
    m.add_var(FV.K, 0.0)
    m.add_var(FV.MAX_P, 0.0)
    md = mdata(w, S)
    for v in x:
        md.add(m.var(getattr(FV, v)), np.where(given[v], x[v], np.nan), dims)
    m.initialize(store_algo(n_states=S, n_turbines=T), verbosity=0)
    st_sel, mask = selection(w, sel, S, T)
    w.is_true("outputs", m.output_farm_vars(NS()) == [FV.K, FV.MAX_P] and m.pre_rotor == pre_rotor)
    out = m.calculate(NS(), md, fd, st_sel)
    for v in x:
        w.eq(v, out[getattr(FV, v)], np.where(np.logical_and(mask, given[v]), x[v], f[v]))
    w.eq("P unchanged", fd[FV.P], f["P"])


@contract("P13", TM + "table_factors.TableFactors.calculate", params=dict(sel=SEL_KINDS), assumes=["scipy.interpolate.interpn evaluates each query point by itself"])
def table_factors(w, sel):
    """The chosen variables are multiplied by the table's value at the turbine's row and column variables."""
    import foxes.variables as FV
    from foxes.models.turbine_models import table_factors as mod

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    f = {v: w.real(v, S, T, lo=0.0, hi=1.0) for v in ("K", "CT", "TI", "RHO")}
    fd = fdata(w, S, T, **{v: w.snap(d) for v, d in f.items()})
    fac = w.ufun("factor")
    m = mod.TableFactors(None, FV.TI, FV.RHO, [FV.K, FV.CT], marker=3)
    m._rvals, m._cvals, m._data = object(), object(), object()

    def interpn(points, values, xi, **kw):
        w.is_true("table", points[0] is m._rvals and points[1] is m._cvals and values is m._data and kw == dict(marker=3))
        return fac(xi[..., 0], xi[..., 1])

    w.patch(mod, "interpn", interpn)
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    e = fac(f["TI"], f["RHO"])
    w.is_true("outputs", sorted(out) == sorted([FV.K, FV.CT]))
    for v in ("K", "CT"):
        w.eq_where(f"{v}: selected", mask, out[getattr(FV, v)], f[v] * e)
        w.eq_where(f"{v}: others unchanged", w.Not(mask), out[getattr(FV, v)], f[v])
    w.eq("TI unchanged", fd[FV.TI], f["TI"])
    w.eq("RHO unchanged", fd[FV.RHO], f["RHO"])


def in_range(w, d, lo, hi, period):
    np = w.np
    if period is None:
        return np.logical_and(d >= lo, d < hi)
    full = hi - lo >= period
    d, a, b = np.mod(d, period), np.mod(lo, period), np.mod(hi, period)
    plain = np.logical_and(d >= a, d < b)
    over = np.logical_or(d >= a, d < b)
    return np.logical_or(full, np.where(b < a, over, plain))


@contract("P13", [TM + "sector_management.SectorManagement.calculate", TM + "sector_management.SectorManagement.initialize"],
          params=[dict(sel=s, rules=r, named=n) for s, r, n in (("all", 1, False), ("mask", 1, False), ("mask", 2, True), ("col", 2, False), ("maskcol", 1, True))])
def sector_management(w, sel, rules, named):
    """A rule sets its value exactly where all its variables are within its sectors, for its turbine, if selected; of
    several rules for a turbine the last one counts."""
    import pandas as pd
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.turbine_models import SectorManagement

    np = w.np
    S, T = w.dim("S"), w.dim("T", lo=3)
    f = dict(WD=w.real("WD", S, T, lo=0.0, hi=360.0, special=(0, 90, 360)), REWS=w.real("REWS", S, T, lo=0.0, hi=30.0), MAX_P=w.real("MAX_P", S, T), K=w.real("K", S, T))
    fd = fdata(w, S, T, **{v: w.snap(d) for v, d in f.items()})
    p = w.perm("order", S, T)
    fd.add(FV.ORDER, p, (FC.STATE, FC.TURBINE))
    fd.add(FV.ORDER_INV, w.inverse(p), (FC.STATE, FC.TURBINE))
    trb = np.array([2, 0][:rules]) if named else w.integer("turbine", rules, lo=0, lt=T)
    cols = dict(WD_min=w.real("WD_min", rules, lo=-180.0, hi=360.0, special=(0, 90)), WD_max=w.real("WD_max", rules, lo=-180.0, hi=360.0, special=(90, 360)),
                lo=w.real("WS_min", rules, lo=0.0, hi=15.0), REWS_max=w.real("WS_max", rules, lo=10.0, hi=30.0), MAX_P=w.real("limit", rules), K=w.real("new_k", rules))
    key = dict(col_tnames="name") if named else dict(col_tinds="row")
    tab = dict(name=np.array(["C", "A"][:rules])) if named else dict(row=w.snap(trb))
    tab.update({k: w.snap(v) for k, v in cols.items()})
    m = SectorManagement(w.frame(tab), [FV.WD, FV.REWS], [FV.MAX_P, FV.K], colmap={"REWS_min": "lo", FV.MAX_P: "MAX_P", FV.K: "K"}, **key)
    m.initialize(store_algo(n_states=S, n_turbines=T, farm=NS(turbine_names=["A", "B", "C"], turbines=[])), verbosity=0)
    st_sel, mask = selection(w, sel, S, T)
    w.is_true("outputs", m.output_farm_vars(NS()) == [FV.MAX_P, FV.K])
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    e = {v: f[v] for v in ("MAX_P", "K")}
    for r in range(rules):
        hit = np.logical_and(p == trb[r], mask)
        hit = np.logical_and(hit, in_range(w, f["WD"], cols["WD_min"][r], cols["WD_max"][r], 360.0))
        hit = np.logical_and(hit, in_range(w, f["REWS"], cols["lo"][r], cols["REWS_max"][r], None))
        e = {v: np.where(hit, cols[v][r], x) for v, x in e.items()}
    for v in e:
        w.eq(v, out[getattr(FV, v)], e[v])
    w.eq("WD unchanged", fd[FV.WD], f["WD"])
    w.eq("REWS unchanged", fd[FV.REWS], f["REWS"])


@contract("P13", TM + "power_mask.PowerMask.calculate", params=[dict(sel="all", root="yes"), dict(sel="mask", root="yes"), dict(sel="maskcol", root="yes"), dict(sel="mask", root="none")],
          assumes=["the axial induction model's ct2a is a function of ct alone", "cubic_roots returns, for each row of coefficients, up to three roots (see cubic)"])
def power_mask(w, sel, root):
    """Where the limit is exceeded (or a boost is reached) the power becomes the limit, and ct follows from the smallest
    positive induction whose power coefficient is in proportion; everything else stays."""
    import foxes.variables as FV
    from foxes.models.turbine_models import power_mask as mod

    np = w.np
    S, T = w.dim("S"), 2
    rng = dict(P=(1.0, 5000.0), MAX_P=(1.0, 8000.0), RHO=(1.0, 1.3), D=(50.0, 200.0), REWS=(2.0, 30.0), REWS3=(2.0, 30.0), CT=(0.05, 0.95))
    f = {n: w.real(n, S, T, lo=a, hi=b) for n, (a, b) in rng.items()}
    has = w.boolean("has_limit", S, T)
    fd = fdata(w, S, T, **{n: w.snap(x) for n, x in f.items() if n != "MAX_P"}, MAX_P=np.where(has, f["MAX_P"], np.nan))
    p = w.perm("order", S, T)
    fd.add(FV.ORDER, w.snap(p), ("state", "turbine"))
    rated = w.real("rated", T, lo=1000.0, hi=5000.0)
    P_lim = w.real("P_lim", lo=0.0, hi=200.0)
    ct2a = w.ufun("ct2a", lo=0.01, hi=0.33)
    m = mod.PowerMask(var_ws_P=FV.REWS, P_lim=P_lim, induction=NS(ct2a=ct2a, name="ind", initialized=True))
    types = [NS(P_nominal=rated[i], name="t") for i in range(T)]
    w.patch(mod, "config", NS(dtype_double=w.float64, dtype_int=np.int64))
    m.initialize(store_algo(n_states=S, n_turbines=T, farm_controller=NS(turbine_types=types)), verbosity=0)
    r1, r2, g2 = w.ufun("root1", lo=0.001, hi=0.33), w.ufun("root2", lo=-1.0, hi=1.0), w.ufun("g2", lo=-1.0, hi=1.0)
    seen = []

    def cubic_roots(a0, a1, a2, a3=None):
        seen.append((a0, a1, a2, a3))
        x = np.where(g2(a0) > 0, r2(a0), np.nan)
        if root == "none":
            return np.stack([np.nan * a0, np.where(r2(a0) < 0, r2(a0), np.nan), np.nan * a0], axis=-1)
        return np.stack([np.nan * a0, r1(a0), x], axis=-1)

    w.patch(mod, "cubic_roots", cubic_roots)
    st_sel, mask = selection(w, sel, S, T)
    w.is_true("outputs", sorted(m.output_farm_vars(NS())) == sorted([FV.P, FV.CT]))
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    prt = np.take_along_axis(rated[None, :] + np.zeros((S, T)), p, axis=1)
    act = np.logical_or(np.logical_and(f["MAX_P"] < prt, f["P"] > f["MAX_P"]), np.logical_and(f["MAX_P"] > prt, f["P"] > prt - P_lim))
    act = np.logical_and(np.logical_and(act, has), mask)
    w.eq_where("power is limited", act, out[FV.P], f["MAX_P"])
    w.eq_where("other power unchanged", w.Not(act), out[FV.P], f["P"])
    w.eq_where("other ct unchanged", w.Not(act), out[FV.CT], f["CT"])
    for v in ("RHO", "D", "REWS", "REWS3"):
        w.eq(f"{v} unchanged", fd[getattr(FV, v)], f[v])
    for a0, a1, a2, a3 in seen:
        w.eq("polynomial 4 a (1-a)^2", np.stack([a1, a2, a3], axis=-1), np.stack([4.0 + 0.0 * a0, -8.0 + 0.0 * a0, 4.0 + 0.0 * a0], axis=-1))
        a = ct2a(f["CT"])
        w.eq("power coefficient in proportion", a0 * f["P"][act], -(4 * a * (1 - a) ** 2)[act] * f["MAX_P"][act])
        if root == "none":
            third = np.full((S, T), 1.0 / 3.0)
            w.eq_where("no solution: ct of maximal power", act, out[FV.CT], 4 * third * (1 - third))
        else:
            x = np.where(np.logical_and(g2(a0) > 0, r2(a0) > 0), np.minimum(r1(a0), r2(a0)), r1(a0))
            w.eq("ct of the smallest positive root", out[FV.CT][act], 4 * x * (1 - x))


@contract("P13", "foxes.utils.cubic_roots.cubic_roots", samples=60, mode="bounded", bound="up to 8 polynomials, coefficients as used by PowerMask or in [-10, 10], three real roots")
def cubic(w):
    """All real roots of cubic polynomials that have three of them."""
    import numpy as np
    from foxes.utils import cubic_roots

    N = w.dim("N", hi=8)
    rts = np.sort(w.real("roots", N, 3, lo=-2.0, hi=2.0), axis=1)
    for i in range(1, 3):
        rts[:, i] = np.maximum(rts[:, i], rts[:, i - 1] + 0.05)
    lead = w.real("lead", N, lo=0.5, hi=10.0)
    c = [np.array([np.poly(r)[k] * l for r, l in zip(rts, lead)]) for k in (3, 2, 1, 0)]
    out = np.sort(cubic_roots(*c), axis=1)
    w.eq("all roots", out, rts)
    out = np.sort(cubic_roots(*[x / c[3] for x in c[:3]]), axis=1)
    w.eq("with leading coefficient one", out, rts)
    y = w.real("y", N, lo=0.01, hi=0.59)
    out = cubic_roots(-y, 4.0 + 0 * y, -8.0 + 0 * y, 4.0 + 0 * y)
    a = np.min(np.where(out > 0, out, np.inf), axis=1)
    w.eq("smallest induction", 4 * a * (1 - a) ** 2, y)
    w.is_true("below one third", bool(np.all(a <= 1 / 3 + 1e-9)))


@contract("P13", TM + "rotor_centre_calc.RotorCentreCalc.calculate", params=dict(sel=SEL_KINDS), samples=12)
def rotor_centre_calc(w, sel):
    """The chosen variables are what the ambient states and the wakes give at the rotor centres."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.turbine_models import RotorCentreCalc

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    xyh = w.real("xyh", S, T, 3)
    f = {v: w.real(v, S, T) for v in ("K", "X", "TI", "RHO")}
    fd = fdata(w, S, T, **{n: w.snap(x) for n, x in f.items()}, TXYH=w.snap(xyh))
    amb = w.real("amb", S, T, 2)
    res = w.real("res", S, T, 2)
    st_sel, mask = selection(w, sel, S, T)
    three = lambda i, q: q[..., i][:, :, None]

    def states(algo, mdata, fdata, tdata):
        w.eq("rotor centres", tdata[FC.TARGETS][:, :, 0], xyh)
        return {FV.WS: three(0, w.snap(amb)), FV.RHO: three(1, w.snap(amb))}

    class Wakes:
        initialized = True

        def calculate(self, algo, mdata, fdata, tdata):
            w.eq("ambient results", tdata[FV.WS], three(0, amb))
            w.eq("ambient results stored", tdata[FV.AMB_WS], three(0, amb))
            w.eq("ambient density", tdata[FV.RHO], three(1, amb))
            return {FV.WS: three(0, w.snap(res)), FV.RHO: three(1, w.snap(res))}

    m = RotorCentreCalc({FV.K: FV.WS, FV.RHO: FV.RHO})
    algo = store_algo(n_states=S, n_turbines=T, get_model=lambda name: Wakes)
    algo.states = NS(calculate=states)
    m.initialize(algo, verbosity=0)
    w.is_true("outputs", list(m.output_farm_vars(algo)) == [FV.K, FV.RHO])
    out = m.calculate(algo, mdata(w, S), fd, st_sel)
    for i, v in enumerate(("K", "RHO")):
        w.eq_where(f"{v}: selected", mask, out[getattr(FV, v)], res[..., i])
        w.eq_where(f"{v}: others unchanged", w.Not(mask), out[getattr(FV, v)], f[v])
    w.eq("TI unchanged", fd[FV.TI], f["TI"])


@contract("P13", TM + "calculator.Calculator.calculate", samples=8)
def calculator(w):
    """The user's function is called with the requested data and the selection, and its results are the outputs."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.turbine_models import Calculator

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    f = {v: w.real(v, S, T) for v in ("K", "TI")}
    b = w.real("b", S, T)
    fd = fdata(w, S, T, **{n: w.snap(x) for n, x in f.items()})
    md = mdata(w, S)
    md.add("b", w.snap(b), (FC.STATE, FC.TURBINE))
    st_sel, mask = selection(w, "mask", S, T)

    def func(k, x, ti, st_sel):
        w.eq("first input", k, f["K"])
        w.eq("model data", x, b)
        w.eq("last input", ti, f["TI"])
        k[st_sel] = (2 * x + ti)[st_sel]
        return k, ti

    m = Calculator([FV.K, "b", FV.TI], [FV.K, FV.TI], func)
    w.is_true("outputs", list(m.output_farm_vars(NS())) == [FV.K, FV.TI])
    out = m.calculate(NS(), md, fd, st_sel)
    w.eq("result", out[FV.K], np.where(mask, 2 * b + f["TI"], f["K"]))
    w.eq("second result", out[FV.TI], f["TI"])


@contract("P13", TM + "set_farm_vars.SetFarmVars.load_data", params=dict(shape=["ST", "1T", "S1", "0"]), samples=12)
def set_farm_vars_data(w, shape):
    """The user's values are stored per state and turbine, whether given per state, per turbine, for both or once."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.turbine_models import SetFarmVars

    np = w.np
    S, T = w.dim("S", lo=2), w.dim("T", lo=2)
    dims = {"ST": (S, T), "1T": (1, T), "S1": (S, 1), "0": ()}[shape]
    x, y = w.real("x", *dims), w.real("y", *dims)
    m = SetFarmVars()
    m.add_var(FV.K, x)
    m.add_var(FV.MAX_P, y)
    data = m.load_data(store_algo(n_states=S, n_turbines=T))["data_vars"]
    one = np.ones((S, T))
    for v, q in ((FV.K, x), (FV.MAX_P, y)):
        dm, d = data[m.var(v)]
        w.is_true(f"{v}: dimensions", tuple(dm) == (FC.STATE, FC.TURBINE))
        w.eq(v, d, q * one)


@contract("P13", [TM + "set_farm_vars.SetFarmVars.load_data", TM + "set_farm_vars.SetFarmVars.calculate"], params=dict(var=["X", "Y", "H", "D"], given=["all", "some"]), samples=8,
          mode="bounded", bound="whole runs with up to 4 states and 5 turbines")
def set_geometry(w, var, given):
    """Positions, hub heights and rotor diameters set for some states and turbines apply there; all others keep theirs."""
    import numpy as np
    import pandas as pd
    import foxes
    import foxes.variables as FV
    from foxes.models.turbine_models import SetFarmVars

    S, T = w.dim("S", lo=2, hi=4), w.dim("T", lo=2, hi=5)
    xy = w.real("xy", T, 2, lo=-1500.0, hi=1500.0)
    lo, hi = dict(X=(-900.0, 900.0), Y=(-900.0, 900.0), H=(80.0, 150.0), D=(60.0, 200.0))[var]
    x = w.real("x", S, T, lo=lo, hi=hi)
    if given == "some":
        x = np.where(w.boolean("given", S, T), x, np.nan)
    own = w.boolean("own", T)
    mbook = foxes.ModelBook()
    m = SetFarmVars(pre_rotor=True)
    m.add_var(getattr(FV, var), x)
    mbook.turbine_models["set"] = m
    farm = foxes.WindFarm()
    for i in range(T):
        farm.add_turbine(foxes.Turbine(xy=xy[i].copy(), turbine_models=["set", "NREL5MW"], **(dict(H=101.0, D=111.0) if own[i] else {})), verbosity=0)
    states = foxes.input.states.StatesTable(pd.DataFrame(dict(ws=9.0, wd=np.linspace(0, 300, S))), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                            var2col={FV.WS: "ws", FV.WD: "wd"}, fixed_vars={FV.RHO: 1.225, FV.TI: 0.08})
    with foxes.Engine.new("default", verbosity=0):
        algo = foxes.algorithms.Downwind(farm, states, ["Jensen_linear_k007"], mbook=mbook, verbosity=0)
        r = algo.calc_farm()
    one = np.ones((S, T))
    old = dict(X=xy[:, 0] * one, Y=xy[:, 1] * one, H=np.where(own, 101.0, 90.0) * one, D=np.where(own, 111.0, 126.0) * one)
    for v in old:
        e = np.where(np.isnan(x), old[v], x) if v == var else old[v]
        w.eq(v, r[getattr(FV, v)].to_numpy(), e)


@contract("P13", [TM + "lookup_table.LookupTable.load_data", TM + "lookup_table.LookupTable.calculate"], params=dict(sel=SEL_KINDS, inputs=[1, 2]), samples=10, mode="bounded",
          bound="tables of up to 5 x 4 rows in any order, up to 4 states and 5 turbines")
def lookup_table(w, sel, inputs):
    """Outputs are the table's values, linearly interpolated at the inputs of each selected turbine."""
    import numpy as np
    import pandas as pd
    import foxes.variables as FV
    from foxes.models.turbine_models import LookupTable

    S, T = w.dim("S", hi=4), w.dim("T", hi=5)
    f = dict(REWS=w.real("REWS", S, T, lo=2.0, hi=10.0), TI=w.real("TI", S, T, lo=0.0, hi=0.3), CT=w.real("CT", S, T), K=w.real("K", S, T))
    a, b = w.real("a", 4), w.real("b", 4)
    fun = lambda c, ws, ti: c[0] + c[1] * ws + ((c[2] + c[3] * ws) * ti if inputs == 2 else 0.0)
    g = np.meshgrid([2.0, 3.5, 7.0, 10.0], [0.0, 0.1, 0.3] if inputs == 2 else [0.0], indexing="ij")
    ws, ti = g[0].ravel(), g[1].ravel()
    order = w.perm("rows", len(ws))
    tab = pd.DataFrame(dict(ti=ti, mywind=ws, other=1.0, K=fun(b, ws, ti), CT=fun(a, ws, ti))).iloc[list(order)]
    tab.columns = [FV.TI, "mywind", "other", FV.K, FV.CT]
    ivars = [FV.REWS, FV.TI][:inputs]
    m = LookupTable(tab, ivars, [FV.CT, FV.K], varmap={FV.REWS: "mywind"})
    m.load_data(store_algo(n_states=S, n_turbines=T))
    fd = fdata(w, S, T, **{n: w.snap(x) for n, x in f.items()})
    st_sel, mask = selection(w, sel, S, T)
    w.is_true("outputs", m.output_farm_vars(NS()) == [FV.CT, FV.K])
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    for v, c in (("CT", a), ("K", b)):
        w.eq_where(f"{v}: selected", mask, out[getattr(FV, v)], fun(c, f["REWS"], f["TI"]))
        w.eq_where(f"{v}: others unchanged", w.Not(mask), out[getattr(FV, v)], f[v])
    w.eq("REWS unchanged", fd[FV.REWS], f["REWS"])
