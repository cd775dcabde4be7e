"""P14: vertical wind profiles meet their reference value and follow their law."""

from dv.core import contract

VP = "foxes.models.vertical_profiles."
CLS = dict(neutral="abl_log_neutral_ws.ABLLogNeutralWsProfile", stable="abl_log_stable_ws.ABLLogStableWsProfile",
           unstable="abl_log_unstable_ws.ABLLogUnstableWsProfile", mixed="abl_log_ws.ABLLogWsProfile", sheared="sheared_ws.ShearedProfile")


def make(kind, **kw):
    import foxes.models.vertical_profiles as vp

    return getattr(vp, CLS[kind].split(".")[1])(**kw)


def inputs(w, dims, shape, mol_sign=None):
    import foxes.variables as FV

    z0 = w.real("z0", *dims, lo=0.001, hi=1.0)
    h0 = w.real("h0", *dims, lo=10.0, hi=200.0)
    ws = w.real("ws", *dims, lo=0.0, hi=40.0, special=(0.0,))
    mol = w.real("mol", *dims, lo=10.0, hi=1000.0) if mol_sign == 1 else w.real("mol", *dims, lo=-1000.0, hi=-10.0) if mol_sign == -1 else w.real("mol", *dims, lo=-1000.0, hi=1000.0, special=(0.0,))
    sh = w.real("shear", *dims, lo=-1.0, hi=1.0, special=(0.0,))
    us = w.real("ustar", *dims, lo=0.0, hi=3.0)
    return {FV.Z0: z0, FV.H: h0, FV.WS: ws, FV.MOL: mol, FV.SHEAR: sh, FV.USTAR: us}


def psi_stable(np, z, mol):
    return -5.0 * np.minimum(z, mol) / mol


def psi_unstable(np, z, mol):
    x = (1.0 - 16.0 * z / mol) ** 0.25
    return 2.0 * np.log((1.0 + x) / 2.0) + np.log((1.0 + x**2) / 2.0) - 2.0 * np.arctan(x) + np.pi / 2.0


def shape_fn(w, kind, z, z0, mol):
    """wind speed times kappa divided by friction velocity"""
    np = w.np
    lz = np.log(np.maximum(z, z0) / z0)
    if kind == "neutral":
        return lz
    return lz - (psi_stable if kind == "stable" else psi_unstable)(np, z, mol)


def unchanged(w, data, old):
    for v in old:
        w.eq(f"{v} unchanged", data[v], old[v])


def setup(w, kind, form, mol_sign=None):
    S, K = w.dim("S"), w.dim("K")
    dims = (S, K) if form == "array" else ()
    sgn = {"stable": 1, "unstable": -1}.get(kind, mol_sign)
    data = inputs(w, dims, (S, K), sgn)
    z = w.real("z", S, K, lo=0.0, hi=500.0, special=(0.0, 100.0))
    old = {v: w.snap(x) if form == "array" else x for v, x in data.items()}
    return S, K, data, z, old


@contract("P14", [VP + CLS[k] + ".calculate" for k in ("neutral", "stable", "unstable")] + ["foxes.utils.abl.neutral.calc_ws", "foxes.utils.abl.neutral.ustar",
          "foxes.utils.abl.stable.calc_ws", "foxes.utils.abl.stable.ustar", "foxes.utils.abl.stable.psi", "foxes.utils.abl.unstable.psi", "foxes.utils.abl.unstable.calc_ws", "foxes.utils.abl.unstable.ustar"],
          params=dict(kind=["neutral", "stable", "unstable"], form=["array", "scalar"], ustar_input=[False, True]), samples=20)
def law(w, kind, form, ustar_input):
    """The logarithmic law with its stability correction: ws = u*/kappa (log(z/z0) - psi(z/L)), u* from the reference."""
    import foxes.constants as FC
    import foxes.variables as FV

    S, K, data, z, old = setup(w, kind, form)
    f = lambda h: shape_fn(w, kind, h, data[FV.Z0], data[FV.MOL])
    m = make(kind, ustar_input=ustar_input)
    need = set(m.input_vars())
    w.is_true("inputs", need == ({FV.Z0} | ({FV.USTAR} if ustar_input else {FV.WS, FV.H}) | ({FV.MOL} if kind != "neutral" else set())))
    fac = data[FV.USTAR] / FC.KAPPA
    if not ustar_input:
        f0 = f(data[FV.H])
        w.assume(f0 > 0.0)
        fac = data[FV.WS] / f0
    r = m.calculate({v: data[v] for v in need}, z)
    w.eq("law", r, fac * f(z))
    unchanged(w, data, old)


@contract("P14", [VP + CLS[k] + ".calculate" for k in ("neutral", "stable", "unstable", "mixed")],
          params=dict(kind=["neutral", "stable", "unstable", "mixed+", "mixed-", "mixed0"], form=["array", "scalar"]), samples=20)
def reference(w, kind, form):
    """The reference wind speed is met at the reference height."""
    import foxes.variables as FV

    base = "mixed" if kind.startswith("mixed") else kind
    stab = {"mixed+": "stable", "mixed-": "unstable", "mixed0": "neutral"}.get(kind, kind)
    S, K, data, z, old = setup(w, base, form, {"mixed+": 1, "mixed-": -1}.get(kind))
    if kind == "mixed0":
        data[FV.MOL] = 0.0 * data[FV.MOL]
        old[FV.MOL] = data[FV.MOL]
    h0 = data[FV.H] + w.np.zeros((S, K))
    w.assume(shape_fn(w, stab, data[FV.H], data[FV.Z0], data[FV.MOL]) > 0.0)
    r = make(base).calculate(data, h0)
    w.eq("reference value", r, data[FV.WS] + w.np.zeros((S, K)))
    unchanged(w, data, old)


@contract("P14", [VP + CLS[k] + ".calculate" for k in ("neutral", "stable")] + ["foxes.utils.abl.neutral.logz", "foxes.utils.abl.stable.psi"],
          params=dict(kind=["neutral", "stable"]), samples=30)
def monotone(w, kind):
    """Above the roughness length the wind speed never decreases with height and is never negative."""
    import foxes.variables as FV

    S, K, data, z, old = setup(w, kind, "array")
    w.assume(data[FV.H] > data[FV.Z0])
    dz = w.real("dz", S, K, lo=0.0, hi=100.0, special=(0.0,))
    z = w.np.maximum(z, data[FV.Z0])
    m = make(kind)
    a, b = m.calculate(data, z), m.calculate(data, z + dz)
    w.le("never decreases", a, b)
    w.le("never negative", 0.0 * a, a)


@contract("P14", VP + CLS["mixed"] + ".calculate", params=dict(form=["array", "scalar"], ustar_input=[False, True]), samples=40)
def mixed(w, form, ustar_input):
    """Every entry follows the law of its own stability class: neutral, stable or unstable."""
    import foxes.variables as FV

    np = w.np
    S, K, data, z, old = setup(w, "mixed", form)
    data[FV.MOL] = np.where(np.abs(data[FV.MOL]) < 10.0, 0.0 * data[FV.MOL], data[FV.MOL])
    old[FV.MOL] = data[FV.MOL] + 0
    mol = data[FV.MOL] + np.zeros((S, K))
    one = np.ones((S, K))
    if not ustar_input:
        pos = one * data[FV.MOL] > 0
        fs = shape_fn(w, "stable", data[FV.H], data[FV.Z0], np.where(mol > 0, mol, one))
        fu = shape_fn(w, "unstable", data[FV.H], data[FV.Z0], np.where(mol < 0, mol, -one))
        w.assume(np.where(mol > 0, fs, fu) > 0.0)
    w.assume(data[FV.H] > data[FV.Z0])
    r = make("mixed", ustar_input=ustar_input).calculate(data, z)
    for kind, sel, safe in (("neutral", mol == 0, one), ("stable", mol > 0, one), ("unstable", mol < 0, -one)):
        L = np.where(sel, mol, safe)
        d = {v: x + np.zeros((S, K)) for v, x in data.items()}
        d[FV.MOL] = L
        e = make(kind, ustar_input=ustar_input).calculate(d, z)
        w.eq_where(kind, sel, r, e)
    unchanged(w, data, old)


@contract("P14", [VP + CLS["sheared"] + ".calculate", "foxes.utils.abl.sheared.calc_ws"], params=dict(form=["array", "scalar"]), samples=30)
def sheared(w, form):
    """The power law; it meets the reference and never decreases for non-negative exponents."""
    import foxes.variables as FV

    np = w.np
    S, K, data, z, old = setup(w, "sheared", form)
    z = z + 1.0
    m = make("sheared")
    w.is_true("inputs", set(m.input_vars()) == {FV.WS, FV.H, FV.SHEAR})
    r = m.calculate(data, z)
    w.eq("law", r, data[FV.WS] * (z / data[FV.H]) ** (data[FV.SHEAR] + np.zeros((S, K))))
    r0 = m.calculate(data, data[FV.H] + np.zeros((S, K)))
    w.eq("reference value", r0, data[FV.WS] + np.zeros((S, K)))
    dz = w.real("dz", S, K, lo=0.0, hi=100.0)
    w.le_where("never decreases", data[FV.SHEAR] + np.zeros((S, K)) > 0.0, r, m.calculate(data, z + dz))
    unchanged(w, data, old)


@contract("P14", VP + "uniform.UniformProfile.calculate", params=dict(form=["array", "scalar"]), samples=10)
def uniform(w, form):
    """The value itself at all heights."""
    import foxes.variables as FV
    from foxes.models.vertical_profiles import UniformProfile

    S, K, data, z, old = setup(w, "neutral", form)
    m = UniformProfile(FV.WS)
    w.is_true("inputs", m.input_vars() == [FV.WS])
    r = m.calculate(data, z)
    w.eq("value", r, data[FV.WS] + w.np.zeros((S, K)))
    unchanged(w, data, old)


@contract("P14", VP + "data_profile.DataProfile.calculate", samples=30, mode="bounded", bound="tables of 2 to 8 rows in any order")
def data_profile(w):
    """Tabulated profiles return the tabulated values at the tabulated heights and values between neighbours in between."""
    import numpy as np
    import pandas as pd
    from foxes.models.vertical_profiles import DataProfile

    n = w.dim("n", lo=2, hi=8)
    z = w.increasing("z", n, lo=1.0, hi=300.0)
    v = w.real("v", n, lo=0.0, hi=20.0)
    p = w.perm("rows", n)
    f = DataProfile(pd.DataFrame(dict(z=z[p], v=v[p])), "v", col_z="z")
    w.eq("table", f.calculate({}, z[None, :, None]), v[None, :, None])
    t = w.real("t", n - 1, lo=0.0, hi=1.0)
    w.eq("between", f.calculate({}, z[:-1] + t * (z[1:] - z[:-1])), v[:-1] + t * (v[1:] - v[:-1]))
    g = DataProfile(np.stack([z[p], v[p]]), "v")
    w.eq("array source", g.calculate({}, z), v)
