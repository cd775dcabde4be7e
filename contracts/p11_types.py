"""P11: turbine types apply their power and thrust curves faithfully."""

from dv.core import contract
from .fix import NS, SEL_KINDS, fdata, mdata, selection

ONE = "foxes.models.turbine_types.PCt_file.PCtFile"
TWO = "foxes.models.turbine_types.PCt_from_two.PCtFromTwo"
LKP = "foxes.models.turbine_types.lookup.FromLookupTable"
RHO2 = "foxes.models.turbine_types.wsrho2PCt_from_two.WsRho2PCtFromTwo"
TI2 = "foxes.models.turbine_types.wsti2PCt_from_two.WsTI2PCtFromTwo"


class Curve:
    """A power or thrust curve on its own, arbitrary grid"""

    def __init__(self, w, name, n):
        self.ws = w.increasing(f"ws_{name}", n, lo=0.0, hi=30.0)
        self.val = w.real(f"val_{name}", n, lo=0.0, hi=1000.0)


def make(w, kind, n, **kw):
    """A turbine type with arbitrary curves, loaded by its own load_data -> model, P curve, ct curve"""
    if kind == "one":
        from foxes.models.turbine_types import PCtFile

        P = Curve(w, "P", n)
        ct = NS(ws=P.ws, val=w.real("val_ct", n, lo=0.0, hi=1.0))
        m = PCtFile(w.frame(dict(ws=P.ws, P=P.val, ct=ct.val)), name="tt", D=100.0, H=80.0, **kw)
    else:
        from foxes.models.turbine_types import PCtFromTwo

        n2 = n if isinstance(n, int) else w.dim("n2", lo=2)
        P = Curve(w, "P", n)
        ct = Curve(w, "ct", n2)
        m = PCtFromTwo(w.frame(dict(ws=P.ws, P=P.val)), w.frame(dict(ws=ct.ws, ct=ct.val)), **kw)
    m.load_data(NS(), verbosity=0)
    return m, P, ct


def farm(w, rho=False, yawm=False, T=None, ones=False, wsmax=40.0):
    S = w.dim("S", lo=2) if not ones else 1
    T = w.dim("T", lo=2) if not ones else 1
    v = dict(REWS2=w.real("rews2", S, T, lo=0.0, hi=wsmax), REWS3=w.real("rews3", S, T, lo=0.0, hi=wsmax),
             P=w.real("P_old", S, T), CT=w.real("CT_old", S, T))
    if rho:
        v["RHO"] = w.real("rho", S, T, lo=0.5, hi=2.0, special=(1.225, 1.0))
    if yawm:
        v["YAWM"] = w.real("yawm", S, T, gt=-90.0, lt=90.0, special=(0.0,))
    fd = fdata(w, S, T, **v)
    return S, T, fd, {k: w.snap(x) for k, x in v.items()}


def unchanged(w, fd, old, names):
    import foxes.variables as FV

    for n in names:
        if n in old:
            w.eq(f"{n} unchanged", fd[getattr(FV, n)], old[n])


def res(w, out, v, S, T):
    """result in full shape"""
    return out[v]


@contract("P11", [ONE + ".calculate", TWO + ".calculate", ONE + ".load_data", TWO + ".load_data"],
          params={"kind": ["one", "two"], "sel": SEL_KINDS, "wsvar": ["default", "same"]}, samples=40, weight=3)
def curve_values(w, kind, sel, wsvar):
    """Without corrections: the tabulated value at tabulated wind speeds, zero outside the tabulated range, between the
    neighbouring table entries in between; other turbines and the inputs stay as they are."""
    import foxes.variables as FV

    n = w.dim("n", lo=2)
    kw = dict(var_ws_ct=FV.REWS, var_ws_P=FV.REWS) if wsvar == "same" else {}
    m, Pc, Cc = make(w, kind, n, **kw)
    S, T, fd, old = farm(w)
    if wsvar == "same":
        old["REWS"] = w.snap(old["REWS2"])
        fd[FV.REWS] = w.snap(old["REWS2"])
        fd.dims[FV.REWS] = fd.dims[FV.REWS2]
        old["REWS3"] = w.snap(old["REWS2"])
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    w.is_true("outputs", set(out) == {FV.P, FV.CT})
    for v, x, c, o in ((FV.P, old["REWS3"], Pc, "P"), (FV.CT, old["REWS2"], Cc, "CT")):
        r = out[v]
        w.eq_where(f"{v}: others unchanged", w.Not(mask), r, old[o])
        w.eq_where(f"{v}: zero outside", w.And(mask, w.Or(x < c.ws[0], x > c.ws[-1])), r, 0.0 * r)
        N = c.ws.shape[0]
        k = w.integer(f"k_{v}", lo=0, lt=N)
        w.eq_where(f"{v}: tabulated value", w.And(mask, x == c.ws[k]), r, c.val[k] + 0.0 * r)
        j = w.integer(f"j_{v}", lo=0, lt=N - 1)
        a, b, fa, fb = c.ws[j], c.ws[j + 1], c.val[j], c.val[j + 1]
        ins = w.And(mask, x >= a, x <= b)
        w.eq_where(f"{v}: linear in between", ins, (r - fa) * (b - a), (fb - fa) * (x - a))
        w.le_where(f"{v}: not below both neighbours", ins, w.np.minimum(fa, fb) + 0.0 * r, r)
        w.le_where(f"{v}: not above both neighbours", ins, r, w.np.maximum(fa, fb) + 0.0 * r)
        w.eq(f"{v}: reported in the farm data", fd[v], r)
    if wsvar == "same":
        w.eq("REWS unchanged", fd[FV.REWS], old["REWS"])
        del old["REWS3"]
    unchanged(w, fd, old, ("REWS2", "REWS3"))


def corrected(w, old, rho_ref, p_P, p_ct, ct_rho=None):
    """The documented corrected wind speeds for power and thrust."""
    np = w.np
    wp, wc = old["REWS3"], old["REWS2"]
    if rho_ref is not None:
        wp = wp * (rho_ref / old["RHO"]) ** (1.0 / 3.0)
        if ct_rho is not None:
            wc = wc * (rho_ref / old["RHO"]) ** ct_rho
    if "YAWM" in old:
        cosm = np.cos(old["YAWM"] / 180 * np.pi)
        if p_P is not None:
            wp = wp * (cosm**p_P) ** (1.0 / 3.0)
        if p_ct is not None:
            wc = wc * (cosm**p_ct) ** 0.5
    return wp, wc


@contract("P11", [ONE + ".calculate", TWO + ".calculate"],
          params=[dict(kind=k, sel=s, rho=r, yaw=y, p_P=pP, p_ct=pc) for k in ("one", "two") for s, r, y, pP, pc in (
              ("mask", True, True, 1.88, 1.0), ("all", True, True, 1.88, 1.0), ("col", True, False, 1.88, 1.0),
              ("maskcol", False, True, 1.88, 1.0), ("all", False, True, None, 1.0), ("mask", False, True, 1.88, None),
              ("col", True, True, None, None), ("all", True, False, 1.88, 1.0))], samples=40, weight=2)
def corrections(w, kind, sel, rho, yaw, p_P, p_ct):
    """Density and yaw corrections evaluate the curves at the documented corrected wind speeds, leave the farm's wind
    speeds as they are, and are neutral at the reference density and zero yaw misalignment."""
    import foxes.variables as FV

    n = w.dim("n", lo=2)
    m, Pc, Cc = make(w, kind, n, rho=1.225 if rho else None, p_P=p_P, p_ct=p_ct)
    S, T, fd, old = farm(w, rho, yaw)
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    wp, wc = corrected(w, old, 1.225 if rho else None, p_P, p_ct)
    for v, x0, x, c, o in ((FV.P, old["REWS3"], wp, Pc, "P"), (FV.CT, old["REWS2"], wc, Cc, "CT")):
        r = out[v]
        ref = w.np.interp(x, c.ws, c.val, left=0.0, right=0.0)
        w.eq_where(f"{v}: curve at the corrected wind speed", mask, r, ref)
        w.eq_where(f"{v}: others unchanged", w.Not(mask), r, old[o])
        neutral = mask
        if rho:
            neutral = w.And(neutral, old["RHO"] == 1.225)
        if yaw:
            neutral = w.And(neutral, old["YAWM"] == 0.0)
        w.eq_where(f"{v}: neutral", neutral, r, w.np.interp(x0, c.ws, c.val, left=0.0, right=0.0))
    unchanged(w, fd, old, ("REWS2", "REWS3", "RHO", "YAWM"))


@contract("P11", [ONE + ".load_data", TWO + ".load_data"], params={"kind": ["one", "two"], "unit": ["W", "kW", "MW", "GW"], "given": [False, True]}, samples=10)
def nominal_power(w, kind, unit, given):
    """The nominal power is the curve's maximum in the given unit, unless it is set by the user."""
    n = w.dim("n", lo=2)
    m, Pc, _ = make(w, kind, n, P_unit=unit, **(dict(P_nominal=1234.0) if given else {}))
    f = {"W": 1.0, "kW": 1e3, "MW": 1e6, "GW": 1e9}
    import foxes.constants as FC

    if given:
        w.eq("as given", m.P_nominal, 1234.0)
    else:
        w.eq("curve maximum", m.P_nominal * FC.P_UNITS[unit], w.np.max(Pc.val))
        w.eq("unit", FC.P_UNITS[unit] * f["W"], {"W": 1.0, "kW": 1e3, "MW": 1e6, "GW": 1e9}[unit] * FC.P_UNITS["W"])


# ------------------------------------------------------------------ curves that depend on a second quantity
def table2(w, name, second):
    n = w.dim(f"n_{name}", lo=2)
    ws = w.increasing(f"ws_{name}", n, lo=2.0, hi=25.0)
    cols = {str(q): w.real(f"val_{name}_{q}", n, lo=0.0, hi=100.0) for q in second}
    return NS(ws=ws, second=[float(q) for q in second], cols=cols, df=w.frame(cols, index=ws),
              values=w.np.stack([cols[str(q)] for q in second], axis=-1))


def lookup2(w, ghost, points, values, x, y):
    """scipy's interpn on a rectangular table (its contract: a function of the table and the point)"""
    if w.symbolic:
        return ghost(x, y, points[0][0], points[0][-1], points[1][0], points[1][-1], values[0, 0], values[-1, -1])
    import numpy as np
    from scipy.interpolate import RegularGridInterpolator

    f = RegularGridInterpolator([np.asarray(p) for p in points], np.asarray(values), bounds_error=False, fill_value=None)
    x, y = np.broadcast_arrays(x, y)
    return f(np.stack([x, y], axis=-1))


@contract("P11", [RHO2 + ".calculate", TI2 + ".calculate", RHO2 + ".load_data", TI2 + ".load_data"],
          params=[dict(kind=k, sel=s, yaw=y, rho=r) for k, s, y, r in (
              ("rho", "all", True, False), ("rho", "mask", True, False), ("rho", "col", False, False), ("rho", "maskcol", True, False),
              ("ti", "all", True, True), ("ti", "mask", True, True), ("ti", "col", False, False), ("ti", "maskcol", False, True))], samples=40, weight=2,
          assumes=["scipy.interpolate.interpn returns, for each query point, a value that depends on the table and that point only"], max_paths=200)
def two_parameter_curves(w, kind, sel, yaw, rho):
    """Types whose curves depend on density or turbulence as well: power and ct come from their own table at the
    corrected wind speed of their own kind, are zero outside that table's wind speed range, and other turbines and the
    inputs stay as they are."""
    import foxes.variables as FV

    second = ["1.225", "1.0", "1.1"] if kind == "rho" else ["0.02", "0.1"]
    lo, hi = (1.0, 1.225) if kind == "rho" else (0.02, 0.1)
    tP, tC = table2(w, "P", second), table2(w, "ct", second)
    if kind == "rho":
        from foxes.models.turbine_types import wsrho2PCt_from_two as mod

        m = mod.WsRho2PCtFromTwo(tP.df, tC.df)
    else:
        from foxes.models.turbine_types import wsti2PCt_from_two as mod

        m = mod.WsTI2PCtFromTwo(tP.df, tC.df, rho=1.225 if rho else None)
    S, T, fd, old = farm(w, rho=(rho or kind == "rho"), yawm=yaw, wsmax=30.0)
    q = w.real("second", S, T, lo=lo, hi=hi)
    V2 = FV.RHO if kind == "rho" else FV.TI
    fd.add(V2, q, fd.dims[FV.P]) if V2 not in fd else fd.__setitem__(V2, q)
    q0 = w.snap(q)
    old.pop("RHO", None) if kind == "rho" else None
    ghost = w.ufun("interpn")

    def interpn(points, values, xi, **kw):
        w.is_true("query points", len(points) == 2 and int(xi.shape[1]) == 2)
        return lookup2(w, ghost, points, values, xi[:, 0], xi[:, 1])

    w.patch(mod, "interpn", interpn)
    m.load_data(NS(), verbosity=0)
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    wp, wc = corrected(w, old, 1.225 if rho else None, 1.88, 1.0, ct_rho=0.5)
    order = sorted(second, key=float)
    for v, x, t, o in ((FV.P, wp, tP, "P"), (FV.CT, wc, tC, "CT")):
        pts = (t.ws, w.np.array([float(k) for k in order]))
        vals = w.np.stack([t.cols[k] for k in order], axis=-1)
        ins = w.And(x >= t.ws[0], x <= t.ws[-1])
        w.eq_where(f"{v}: table value", w.And(mask, ins), out[v], lookup2(w, ghost, pts, vals, x, q0))
        w.eq_where(f"{v}: zero outside", w.And(mask, w.Not(ins)), out[v], 0.0 * x)
        w.eq_where(f"{v}: others unchanged", w.Not(mask), out[v], old[o])
    unchanged(w, fd, old, ("REWS2", "REWS3", "RHO", "YAWM"))
    w.eq("second quantity unchanged", fd[V2], q0)


# ------------------------------------------------------------------ look-up based type
@contract("P11", LKP + ".calculate",
          params=[dict(sel=s, rho=r, yaw=y, wsvar=v) for s, r, y, v in (
              ("all", False, False, "default"), ("mask", True, True, "default"), ("col", True, False, "default"),
              ("maskcol", False, True, "default"), ("all", False, False, "same"), ("mask", True, True, "same"), ("col", False, True, "same"))],
          assumes=["LookupTable.calculate sets its outputs at the selected states and turbines to a function of its inputs there (its own contract: bounded)"])
def lookup_type(w, sel, rho, yaw, wsvar):
    """The look-up type evaluates its table at the corrected wind speeds: power with the one for power, ct with the one
    for thrust; other turbines and the farm's wind speeds stay as they are."""
    import pandas as pd
    import foxes.variables as FV
    from foxes.models.turbine_types import FromLookupTable
    from foxes.models.turbine_models import LookupTable

    fP, fC = w.ufun("lookup_P"), w.ufun("lookup_ct")

    def calc(self, algo, mdata, fdata, st_sel):
        x, ti = fdata[FV.REWS], fdata[FV.TI]
        for v, f in ((FV.P, fP), (FV.CT, fC)):
            fdata[v][st_sel] = f(x, ti)[st_sel]
        return {v: fdata[v] for v in (FV.P, FV.CT)}

    w.patch(LookupTable, "calculate", calc)
    kw = dict(var_ws_ct=FV.REWS, var_ws_P=FV.REWS) if wsvar == "same" else {}
    m = FromLookupTable(pd.DataFrame(), input_vars=[FV.REWS, FV.TI], rho=1.225 if rho else None, **kw)
    S, T, fd, old = farm(w, rho, yaw)
    x1 = w.real("rews", S, T, lo=0.0, hi=40.0)
    ti = w.real("ti", S, T, lo=0.0, hi=1.0)
    fd.add(FV.REWS, x1, fd.dims[FV.P])
    fd.add(FV.TI, ti, fd.dims[FV.P])
    x10, ti0 = w.snap(x1), w.snap(ti)
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    src = dict(old)
    if wsvar == "same":
        src["REWS2"] = src["REWS3"] = x10
    wp, wc = corrected(w, src, 1.225 if rho else None, 1.88, 1.0)
    for v, x, f, o in ((FV.P, wp, fP, "P"), (FV.CT, wc, fC, "CT")):
        w.eq_where(f"{v}: table value", mask, out[v], f(x, ti0))
        w.eq_where(f"{v}: others unchanged", w.Not(mask), out[v], old[o])
    unchanged(w, fd, old, ("REWS2", "REWS3", "RHO", "YAWM"))
    w.eq("REWS unchanged", fd[FV.REWS], x10)
    w.eq("TI unchanged", fd[FV.TI], ti0)


@contract("P11", "foxes.models.turbine_types.null_type.NullType.calculate", params={"sel": SEL_KINDS}, samples=10)
def null_type(w, sel):
    """The null type changes nothing."""
    import foxes.variables as FV
    from foxes.models.turbine_types import NullType

    m = NullType()
    S, T, fd, old = farm(w)
    st_sel, _ = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    w.is_true("no outputs", len(out) == 0 and m.output_farm_vars(NS()) == [])
    unchanged(w, fd, old, ("REWS2", "REWS3", "P", "CT"))


@contract("P11", [x + ".needs_rews2" for x in (ONE, TWO, LKP, RHO2, TI2)] + [x + ".needs_rews3" for x in (ONE, TWO, LKP, RHO2, TI2)],
          params={"kind": ["one", "two", "lookup", "rho", "ti"]}, samples=1)
def announced_wind_speeds(w, kind):
    """A type asks for exactly the effective wind speeds its curves are evaluated with."""
    import pandas as pd
    import foxes.variables as FV
    from foxes.models import turbine_types as tt

    df = pd.DataFrame(dict(ws=[1.0, 2.0]))
    mk = {"one": lambda **k: tt.PCtFile(df, **k), "two": lambda **k: tt.PCtFromTwo(df, df, **k),
          "lookup": lambda **k: tt.FromLookupTable(df, [FV.REWS], **k), "rho": lambda **k: tt.WsRho2PCtFromTwo(df, df, **k),
          "ti": lambda **k: tt.WsTI2PCtFromTwo(df, df, **k)}[kind]
    for a in (FV.REWS, FV.REWS2, FV.REWS3):
        for b in (FV.REWS, FV.REWS2, FV.REWS3):
            m = mk(var_ws_ct=a, var_ws_P=b)
            w.is_true("rews2", bool(m.needs_rews2()) == (FV.REWS2 in (a, b)))
            w.is_true("rews3", bool(m.needs_rews3()) == (FV.REWS3 in (a, b)))


# ------------------------------------------------------------------ bounded: tables as pandas delivers them
@contract("P11", [ONE + ".load_data", TWO + ".load_data", RHO2 + ".load_data", TI2 + ".load_data"], params={"kind": ["one", "two", "rho", "ti"]},
          mode="bounded", bound="tables of 3 to 8 rows in random row order", samples=40)
def row_order(w, kind):
    """The order of the table's rows (and of its columns) plays no role."""
    import numpy as np
    import pandas as pd
    import foxes.variables as FV
    from foxes.models import turbine_types as tt

    n = w.dim("n", lo=3, hi=8)
    ws = w.increasing("ws", n, lo=2.0, hi=25.0)
    a, b = w.real("a", n, lo=0.0, hi=100.0), w.real("b", n, lo=0.0, hi=1.0)
    p, q = w.perm("p", n), w.perm("q", n)
    S, T, fd, old = farm(w, rho=True, wsmax=25.0)
    fd[FV.RHO] = np.clip(fd[FV.RHO], 1.0, 1.2)
    fd.add(FV.TI, 0.05 + 0.05 * np.cos(fd[FV.RHO]), fd.dims[FV.P])

    def run(i, j, swap):
        if kind in ("one", "two"):
            d1 = pd.DataFrame(dict(ws=ws[i], P=a[i], ct=b[i]))
            m = tt.PCtFile(d1, D=1.0) if kind == "one" else tt.PCtFromTwo(d1, pd.DataFrame(dict(ws=ws[j], ct=b[j])))
        else:
            cs = ["1.0", "1.2"] if kind == "rho" else ["0.0", "0.1"]
            d1 = pd.DataFrame({cs[0]: a[i], cs[1]: 2 * a[i]}, index=ws[i])
            d2 = pd.DataFrame({cs[0]: b[j], cs[1]: 2 * b[j]}, index=ws[j])
            if swap:
                d1, d2 = d1[cs[::-1]], d2[cs[::-1]]
            m = (tt.WsRho2PCtFromTwo if kind == "rho" else tt.WsTI2PCtFromTwo)(d1, d2)
        m.load_data(NS())
        o = m.calculate(NS(), mdata(w, S), fd, np.s_[:, :])
        return {k: x.copy() for k, x in o.items()}

    r0, r1 = run(np.arange(n), np.arange(n), False), run(p, q, True)
    for k in r0:
        w.eq(f"{k}: same result", r1[k], r0[k])


@contract("P11", ["foxes.models.turbine_types.CpCt_file.CpCtFile", "foxes.models.turbine_types.CpCt_from_two.CpCtFromTwo"],
          params={"kind": ["file", "two"]}, mode="bounded", bound="tables of 3 to 6 rows, up to 16 farm entries", samples=12)
def power_coefficient(w, kind):
    """Types given by the power coefficient have P = cp rho A ws^3 / 2 within the table, zero outside."""
    import numpy as np
    import pandas as pd
    import foxes.variables as FV
    from foxes.models import turbine_types as tt

    n = w.dim("n", lo=3, hi=6)
    ws = np.round(w.increasing("ws", n, lo=3.0, hi=25.0), 2)
    cp, ct = w.real("cp", n, lo=0.1, hi=0.5), w.real("ct", n, lo=0.1, hi=0.9)
    D = w.real("D", lo=50.0, hi=200.0)
    unit = ["kW", "MW"][w.integer("u", lo=0, hi=1)]
    S, T, fd, old = farm(w, rho=True)
    fd[FV.RHO] = 0 * fd[FV.RHO] + 1.225
    if kind == "two":
        m = tt.CpCtFromTwo(pd.DataFrame(dict(ws=ws, cp=cp)), pd.DataFrame(dict(ws=ws, ct=ct)), D=D, P_unit=unit)
    else:
        m = tt.CpCtFile(pd.DataFrame(dict(ws=ws, cp=cp, ct=ct)), D=D, P_unit=unit)
    m.load_data(NS())
    out = m.calculate(NS(), mdata(w, S), fd, np.s_[:, :])
    x = fd[FV.REWS3]
    ref = 0.5 * 1.225 * np.pi * (D / 2) ** 2 * np.interp(x, ws, cp, left=0, right=0) * x**3 / {"kW": 1e3, "MW": 1e6}[unit]
    w.ensure("power", np.abs(out[FV.P] - ref) <= 2e-3 * (1 + np.abs(ref)))
    w.ensure("ct", np.abs(out[FV.CT] - np.interp(fd[FV.REWS2], ws, ct, left=0, right=0)) <= 1e-3)


@contract("P11", "foxes.models.turbine_models.lookup_table.LookupTable.calculate", params={"sel": SEL_KINDS}, mode="bounded",
          bound="tables of 3 x 3 entries, up to 16 farm entries", samples=15)
def lookup_table(w, sel):
    """A look-up table interpolates linearly in each input and sets the selected states and turbines only."""
    import numpy as np
    import pandas as pd
    import foxes.variables as FV
    from foxes.models.turbine_models import LookupTable
    from scipy.interpolate import RegularGridInterpolator

    x, y = w.increasing("x", 3, lo=0.0, hi=20.0), w.increasing("y", 3, lo=0.0, hi=1.0)
    v = w.real("v", 3, 3, lo=0.0, hi=9.0)
    p = w.perm("p", 9)
    X, Y = np.meshgrid(x, y, indexing="ij")
    df = pd.DataFrame({FV.REWS: X.ravel()[p], FV.TI: Y.ravel()[p], FV.P: v.ravel()[p]})
    m = LookupTable(df, [FV.REWS, FV.TI], [FV.P])
    m.load_data(NS())
    S, T = w.dim("S"), w.dim("T")
    a, b, P = w.real("a", S, T, lo=0.0, hi=1.0), w.real("b", S, T, lo=0.0, hi=1.0), w.real("P", S, T)
    a, b = np.clip(x[0] + a * (x[-1] - x[0]), x[0], x[-1]), np.clip(y[0] + b * (y[-1] - y[0]), y[0], y[-1])
    fd = fdata(w, S, T, REWS=a.copy(), TI=b.copy(), P=P.copy())
    st_sel, mask = selection(w, sel, S, T)
    out = m.calculate(NS(), mdata(w, S), fd, st_sel)
    ref = RegularGridInterpolator((x, y), v)(np.stack([a, b], -1))
    w.eq_where("table value", mask, out[FV.P], ref)
    w.eq_where("others unchanged", ~mask, out[FV.P], P)
