"""P08: rotor averages are weighted means over points on the rotor."""

from dv.core import contract
from .fix import NS, fdata, mdata, tdata

RM = "foxes.core.rotor_model.RotorModel"
CR = "foxes.models.rotor_models.centre.CentreRotor"


def names(vs):
    import foxes.variables as FV

    return [getattr(FV, v) for v in vs]


def make_rotor(w, points, weights, calc_vars):
    """A rotor with arbitrary design points and weights."""
    from foxes.core import RotorModel

    class AnyRotor(RotorModel):
        def n_rotor_points(self):
            return points.shape[0]

        def rotor_point_weights(self):
            return weights

        def design_points(self):
            return points

    return AnyRotor(calc_vars=names(calc_vars))


@contract("P08", RM + ".get_rotor_points", samples=30)
def rotor_points(w):
    """The points lie in the plane through the hub normal to the rotor axis, at the design points' positions scaled by
    the rotor radius: the distances from the hub are the design distances, points of the unit disc lie on the rotor."""
    import foxes.variables as FV

    S, T, N = w.dim("S"), w.dim("T"), w.dim("N")
    dp = w.real("dp", N, 3, lo=-1.0, hi=1.0, special=(0.0, 1.0, -1.0))
    D, yaw = w.real("D", S, T, lo=10.0, hi=200.0), w.real("yaw", S, T, lo=0.0, hi=360.0, special=(0, 90, 180, 270))
    xyh = w.real("xyh", S, T, 3, lo=-1000.0, hi=1000.0)
    fd = fdata(w, S, T, TXYH=xyh, D=D, YAW=yaw)
    old = {k: w.snap(x) for k, x in dict(D=D, YAW=yaw, TXYH=xyh).items()}
    m = make_rotor(w, dp, None, [])
    p = m.get_rotor_points(NS(n_turbines=T), mdata(w, S), fd)
    w.is_true("shape", tuple(p.shape) == (S, T, N, 3))
    np = w.np
    a = old["YAW"] * np.pi / 180.0
    n0, n1 = -np.sin(a)[:, :, None], -np.cos(a)[:, :, None]
    d = p - old["TXYH"][:, :, None, :]
    R = old["D"][:, :, None] / 2
    along = d[..., 0] * n0 + d[..., 1] * n1
    across = -d[..., 0] * n1 + d[..., 1] * n0
    one = 0.0 * R
    w.eq("along the axis", along, R * dp[None, None, :, 0])
    w.eq("across", across, R * dp[None, None, :, 1])
    w.eq("vertical", d[..., 2], R * dp[None, None, :, 2])
    w.eq_where("in the rotor plane", dp[None, None, :, 0] + one == 0.0, along, one)
    w.eq("distance from the hub", d[..., 0] ** 2 + d[..., 1] ** 2 + d[..., 2] ** 2,
         R**2 * (dp[:, 0] ** 2 + dp[:, 1] ** 2 + dp[:, 2] ** 2)[None, None, :])
    for k in old:
        w.eq(f"{k} unchanged", fd[getattr(FV, k)], old[k])


@contract("P08", [CR + ".get_rotor_points", CR + ".design_points", CR + ".rotor_point_weights", CR + ".n_rotor_points"], samples=10)
def centre_points(w):
    """The centre rotor's only point is the hub, with weight one."""
    from foxes.models.rotor_models import CentreRotor

    S, T = w.dim("S"), w.dim("T")
    xyh = w.real("xyh", S, T, 3)
    fd = fdata(w, S, T, TXYH=xyh)
    m = CentreRotor()
    p = m.get_rotor_points(NS(n_turbines=T), mdata(w, S), fd)
    w.is_true("shape", tuple(p.shape) == (S, T, 1, 3))
    w.eq("hub", p[:, :, 0, :], xyh)
    w.is_true("weight", list(m.rotor_point_weights()) == [1.0] and m.n_rotor_points() == 1)
    w.is_true("design point", [list(x) for x in m.design_points()] == [[0.0, 0.0, 0.0]])


VARS = ("REWS", "REWS2", "REWS3", "WD", "WS", "RHO", "TI", "WEIGHT")


def inflow(w, S, T, P, uniform=False, reverse=False):
    """Point values at rotor points, and per-turbine data holding old values."""
    tdims = (S, T) if uniform else (S, T, P)
    ws = w.real("ws", *tdims, lo=0.0, hi=30.0)
    wd = w.real("wd", *tdims, lo=0.0, hi=360.0, special=(0, 90, 180, 270))
    ti, rho = w.real("ti", *tdims, lo=0.0, hi=1.0), w.real("rho", *tdims, lo=0.5, hi=2.0)
    wgt = w.real("weight", *tdims, lo=0.0, hi=1.0)
    vals = dict(WS=ws, WD=wd, TI=ti, RHO=rho, WEIGHT=wgt)
    if uniform:
        return vals, {k: x[:, :, None] + w.np.zeros((S, T, P)) for k, x in vals.items()}
    return vals, vals


def run(w, m, S, T, P, vals, wts, i, yaw=None, ambient=True, nvar=VARS):
    """Evaluate the rotor on vals, for all turbines or for turbine i only -> farm data, previous farm data"""
    import foxes.variables as FV
    import foxes.constants as FC

    old = {v: w.real(f"old_{v}", S, T) for v in nvar}
    if yaw is not None:
        old["YAW"] = yaw
    fd = fdata(w, S, T, **{v: w.snap(x) for v, x in old.items()})
    td = tdata(w, w.np.zeros((S, T if i is None else 1, P, 3)), wts)
    for v, x in vals.items():
        td.add(getattr(FV, v), w.snap(x if i is None else x[:, i, None]), (FC.STATE, FC.TARGET, FC.TPOINT))
    t0 = {v: w.snap(td[getattr(FV, v)]) for v in vals}
    m.eval_rpoint_results(NS(n_turbines=T), mdata(w, S), fd, td, wts, downwind_index=i, copy_to_ambient=ambient)
    for v in vals:
        w.eq(f"point {v} unchanged", td[getattr(FV, v)], t0[v])
    return fd, old


def check(w, S, T, i, fd, old, expect, ambient):
    import foxes.variables as FV

    np = w.np
    mask = np.ones((S, T), dtype=bool) if i is None else np.logical_and(np.ones((S, T), dtype=bool), np.arange(T)[None, :] == i)
    for v, x in expect.items():
        r = fd[getattr(FV, v)]
        at = (slice(None), slice(None) if i is None else i)
        if v == "WD":
            a = r[at] * np.pi / 180
            speed, u0, v0 = x
            w.eq("WD: along the mean wind vector", -np.sin(a) * speed[at], u0[at])
            w.eq("WD: along the mean wind vector (y)", -np.cos(a) * speed[at], v0[at])
        else:
            w.eq(f"{v}", r[at], x[at])
        w.eq_where(f"{v}: others unchanged", w.Not(mask), r, old[v])
        if ambient and getattr(FV, v) in FV.var2amb:
            w.eq(f"{v}: ambient copy", fd[FV.var2amb[getattr(FV, v)]], r)


def vectors(w, ws, wd):
    a = wd * w.np.pi / 180.0
    return -ws * w.np.sin(a), -ws * w.np.cos(a)


@contract("P08", RM + ".eval_rpoint_results", params=[dict(one=o, single=s, ambient=a, ones=n) for o, s, a, n in (
    (False, False, True, False), (True, False, True, False), (False, True, False, False), (True, True, False, False), (False, False, True, True), (True, False, False, True))], samples=40, weight=2)
def rotor_averages(w, one, single, ambient, ones):
    """Results are the weighted means of the point values: of the wind vectors for speed and direction, of the velocity
    component along the rotor axis and its second and third powers for the effective wind speeds, and of the plain
    values for all other variables; with a turbine index only that turbine's results are written."""
    S, T = (w.dim("S", lo=2), w.dim("T", lo=2)) if not ones else (1, 1)
    P = 1 if single else w.dim("P", lo=2)
    wts = w.np.array([1.0]) if single else w.weights("w", P)
    i = w.integer("i", lo=0, lt=T) if one else None
    yaw = w.real("yaw", S, T, lo=0.0, hi=360.0)
    m = make_rotor(w, None, wts, VARS)
    _, vals = inflow(w, S, T, P)
    vals = {k: w.snap(x) for k, x in vals.items()}
    fd, old = run(w, m, S, T, P, vals, wts, i, yaw, ambient)
    np = w.np
    u, v = vectors(w, vals["WS"], vals["WD"])
    wm = lambda x: np.sum(x * wts[None, None, :], axis=-1)
    n0, n1 = vectors(w, 1.0, yaw)
    x = u * n0[:, :, None] + v * n1[:, :, None]
    mu, mv = wm(u), wm(v)
    expect = dict(
        REWS=np.maximum(wm(x), 0.0),
        REWS3=np.maximum(wm(x**3), 0.0) ** (1.0 / 3.0),
        WS=np.sqrt(mu**2 + mv**2),
        **{k: wm(vals[k]) for k in ("RHO", "TI", "WEIGHT")})
    if not single:
        expect["REWS2"] = np.sqrt(np.maximum(wm(np.sign(x) * x**2), 0.0))
    expect["WD"] = expect["WS"], mu, mv
    check(w, S, T, i, fd, old, expect, ambient)
    w.eq("YAW unchanged", fd["YAW"], yaw)


@contract("P08", [RM + ".eval_rpoint_results", CR + ".eval_rpoint_results"], params=[
    dict(kind=k, one=o, ones=n) for k in ("any", "single", "centre", "centre_many") for o, n in ((False, False), (True, False), (False, True))], samples=30)
def uniform_inflow(w, kind, one, ones):
    """A uniform inflow is reproduced exactly by every rotor model: the effective wind speeds equal the wind speed for an
    aligned rotor (and its component along the axis otherwise), all other variables their value."""
    from foxes.models.rotor_models import CentreRotor

    S, T = (w.dim("S", lo=2), w.dim("T", lo=2)) if not ones else (1, 1)
    P = 1 if kind in ("single", "centre") else w.dim("P", lo=2)
    wts = w.np.array([1.0]) if kind in ("single", "centre") else w.weights("w", P)
    i = w.integer("i", lo=0, lt=T) if one else None
    m = CentreRotor(calc_vars=names(VARS)) if kind[:3] == "cen" else make_rotor(w, None, wts, VARS)
    vals, pvals = inflow(w, S, T, P, uniform=True)
    vals = {k: w.snap(x) for k, x in vals.items()}
    np = w.np
    yaw = w.real("yaw", S, T, lo=0.0, hi=360.0, gen=lambda r, sh: (vals["WD"] + r.choice([0.0, 1.0]) * r.uniform(-80, 80, sh)))
    a, b = vals["WD"] * np.pi / 180, yaw * np.pi / 180
    c = np.sin(a) * np.sin(b) + np.cos(a) * np.cos(b)  # cosine of the misalignment
    w.assume(c >= 0.0)
    fd, old = run(w, m, S, T, P, pvals, wts, i, yaw)
    ws = vals["WS"]
    w.lemma_eq("aligned", np.where(yaw == vals["WD"], c, 1.0), 1.0 + 0.0 * c)
    expect = dict(REWS=ws * c, REWS2=ws * c, REWS3=ws * c, WS=ws, RHO=vals["RHO"], TI=vals["TI"], WEIGHT=vals["WEIGHT"], WD=(ws, *vectors(w, ws, vals["WD"])))
    check(w, S, T, i, fd, old, expect, True)


@contract("P08", RM + ".calculate", params=[dict(one=o, store=s, given=g) for o, s, g in ((False, True, False), (True, True, False), (False, False, True), (True, False, True))],
          samples=20, assumes=["ambient states deliver, for each rotor point, values of that point (states contracts: P21)"])
def calculate(w, one, store, given):
    """The states are asked for the values at the rotor points of exactly the requested turbines, whose weighted means
    are written to farm data and, unchanged, to its ambient variables; point results are stored for later use."""
    import foxes.variables as FV
    import foxes.constants as FC

    np = w.np
    S, T, P = w.dim("S", lo=2), w.dim("T", lo=2), w.dim("P", lo=2)
    wts, dp = w.weights("w", P), w.real("dp", P, 3, lo=-1.0, hi=1.0)
    i = w.integer("i", lo=0, lt=T) if one else None
    m = make_rotor(w, dp, wts, ("TI", "RHO", "WEIGHT"))
    f = {v: w.ufun(f"f_{v}", lo=0.0, hi=1.0) for v in ("TI", "RHO", "WEIGHT")}
    xyh, D, yaw = w.real("xyh", S, T, 3), w.real("D", S, T, lo=1.0, hi=2.0), w.real("yaw", S, T, lo=0.0, hi=360.0)
    old = {v: w.real(f"old_{v}", S, T) for v in f}
    fd = fdata(w, S, T, TXYH=xyh, D=D, YAW=yaw, **{v: w.snap(x) for v, x in old.items()})
    md = mdata(w, S)
    stored, asked = {}, []

    def states_calc(algo, mdata, fdata, tdata):
        p = tdata[FC.TARGETS]
        asked.append(p)
        return {getattr(FV, v): g(p[..., 0], p[..., 1], p[..., 2]) for v, g in f.items()}

    algo = NS(n_turbines=T, states=NS(name="states", output_point_vars=lambda a: names(f), calculate=states_calc),
              add_to_chunk_store=lambda name, data, mdata=None, **k: stored.__setitem__(name, data))
    pts = m.get_rotor_points(algo, md, fd)
    kw = dict(rpoints=pts, rpoint_weights=wts) if given else {}
    out = m.calculate(algo, md, fd, store=store, downwind_index=i, **kw)
    at = (slice(None), slice(None) if i is None else i)
    mask = np.ones((S, T), dtype=bool) if i is None else np.logical_and(np.ones((S, T), dtype=bool), np.arange(T)[None, :] == i)
    w.is_true("states evaluated once", len(asked) == 1)
    mine = pts if i is None else pts[:, i, None]
    w.eq("asked at the rotor points", asked[0], mine)
    for v, g in f.items():
        x = np.sum(g(pts[..., 0], pts[..., 1], pts[..., 2]) * wts[None, None, :], axis=-1)
        r = out[getattr(FV, v)]
        w.eq(f"{v}", r[at], x[at])
        w.eq_where(f"{v}: others unchanged", w.Not(mask), r, old[v])
        w.eq(f"{v}: in the farm data", fd[getattr(FV, v)], r)
        if getattr(FV, v) in FV.var2amb:
            w.eq(f"{v}: ambient copy", fd[FV.var2amb[getattr(FV, v)]], r)
    w.is_true("stored", set(stored) == ({FC.ROTOR_POINTS, FC.ROTOR_WEIGHTS, FC.AMB_ROTOR_RES, FC.WEIGHT_RES} if store else set()))
    if store:
        w.eq("stored points", stored[FC.ROTOR_POINTS], mine)
        w.eq("stored weights", stored[FC.ROTOR_WEIGHTS], wts)
        for v, g in f.items():
            w.eq(f"stored {v}", stored[FC.AMB_ROTOR_RES][getattr(FV, v)], g(mine[..., 0], mine[..., 1], mine[..., 2]))
        g = f["WEIGHT"]
        w.eq("stored state weights", stored[FC.WEIGHT_RES], g(mine[..., 0], mine[..., 1], mine[..., 2]))


@contract("P08", RM + ".output_farm_vars", params=dict(ws=[False, True], two=[False, True], three=[False, True], given=[False, True]), samples=1)
def output_variables(w, ws, two, three, given):
    """Rotor results are the states' point variables with the wind speed as rotor effective one, the further moments
    where turbine types need them, and always the weights."""
    import foxes.variables as FV

    algo = NS(states=NS(name="s", output_point_vars=lambda a: [FV.TI, FV.WD] + ([FV.WS] if ws else [])),
              farm_controller=NS(needs_rews2=lambda: two, needs_rews3=lambda: three))
    m = make_rotor(w, None, None, ())
    m.calc_vars = [FV.RHO] if given else None
    out = list(m.output_farm_vars(algo))
    want = {FV.RHO} if given else {FV.TI, FV.WD} | ({FV.REWS} if ws else set()) | ({FV.REWS2} if two else set()) | ({FV.REWS3} if three else set())
    w.is_true("variables", set(out) == want | {FV.WEIGHT} and len(out) == len(set(out)))
    w.is_true("stable", list(m.output_farm_vars(algo)) == out)


@contract("P08", ["foxes.models.rotor_models.grid.GridRotor.initialize", "foxes.models.rotor_models.levels.LevelRotor.initialize"],
          params=dict(kind=["grid", "levels"], reduce=[True, False]), mode="bounded", bound="n up to 10 (grid) or 40 (levels), nint 50 to 200", samples=20)
def discretisation(w, kind, reduce):
    """Points are in the rotor plane, inside the square enclosing the rotor and centred at the hub; weights are
    non-negative, sum to one, and are the covered share of the rotor area for reduced rotors."""
    import numpy as np
    from foxes.models.rotor_models import GridRotor, LevelRotor

    n, nint = w.integer("n", lo=1, hi=10 if kind == "grid" else 40), w.integer("nint", lo=50, hi=200)
    m = (GridRotor if kind == "grid" else LevelRotor)(n, reduce=reduce, nint=nint)
    m.initialize(NS(store_model_data=lambda *a, **k: None))
    p, q = np.asarray(m.design_points()), np.asarray(m.rotor_point_weights())
    w.is_true("sizes", p.shape == (len(q), 3) and m.n_rotor_points() == len(q) and len(q) >= 1)
    w.ensure("weights", (q >= 0).all() and abs(q.sum() - 1) < 1e-9)
    w.ensure("in the rotor plane", (p[:, 0] == 0).all())
    w.ensure("in the enclosing square", (np.abs(p[:, 1:]) <= 1 - 1 / n + 1e-9).all())
    w.ensure("centred", np.abs((q[:, None] * p).sum(axis=0)).max() < 1e-6)
    w.is_true("no point twice", len({tuple(np.round(x, 9)) for x in p}) == len(p))
    if kind == "grid":
        w.is_true("all cells meeting the rotor", len(q) == n * n if not reduce else len(q) <= n * n)
        cells = {(round(-1 + (a + 0.5) * 2 / n, 9), round(-1 + (b + 0.5) * 2 / n, 9)) for a in range(n) for b in range(n)}
        w.is_true("cell centres", all((round(x, 9), round(y, 9)) in cells for _, x, y in p))
    else:
        w.ensure("on the vertical axis", (p[:, 1] == 0).all() and len(q) == n)
    if not reduce:
        w.ensure("equal weights", np.abs(q - 1 / len(q)).max() < 1e-12)
        return
    z = (np.arange(4000) + 0.5) / 4000 * 2 / n
    for (_, a, b), x in zip(p, q):
        h = np.sqrt(np.maximum(1 - (b - 1 / n + z) ** 2, 0.0))
        lo, hi = (a - 1 / n, a + 1 / n) if kind == "grid" else (-1.0, 1.0)
        area = np.maximum(np.minimum(hi, h) - np.maximum(lo, -h), 0.0).sum() * 2 / n / 4000
        w.ensure("share of the rotor area", abs(x - area / np.pi) <= 0.04 / n ** (2 if kind == "grid" else 1))
    w.ensure("nothing of the rotor area is missing", abs(q.sum() - 1) < 1e-9 and (kind == "levels" or all(
        np.sqrt((abs(a) + 1 / n) ** 2 + (abs(b) + 1 / n) ** 2) > 1 for a, b in cells - {(round(u, 9), round(v, 9)) for _, u, v in p})))
