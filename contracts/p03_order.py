"""P03: turbines are processed in downwind order and reported in farm order."""

from dv.core import contract
from .fix import NS, fdata, mdata

RW = "foxes.models.wake_frames.rotor_wd.RotorWD"
FO = "foxes.models.wake_frames.farm_order.FarmOrder"
YW = "foxes.models.wake_frames.yawed_wakes.YawedWakes"
SL = "foxes.models.wake_frames.streamlines.Streamlines2D"
INI = "foxes.algorithms.downwind.models.init_farm_data.InitFarmData"
REO = "foxes.algorithms.downwind.models.reorder_farm_output.ReorderFarmOutput"


def permutation(w, o, T):
    """Every turbine exactly once."""
    np = w.np
    w.is_true("two axes", len(o.shape) == 2)
    w.ensure("turbine indices", np.logical_and(o >= 0, o < T))
    S = o.shape[0]
    w.forall("no turbine twice", (S, T, T), lambda s, a, b: w.implies(o[s, a] == o[s, b], a == b))


@contract("P03", [RW + ".calc_order", YW + ".calc_order"], params=dict(var=["WD", "AMB_WD"], frame=["rotor_wd", "yawed"]), samples=30)
def order(w, var, frame):
    """A permutation of all turbines; along it the coordinate in the direction of the turbines' mean wind never decreases."""
    import foxes.variables as FV
    from foxes.models.wake_frames import RotorWD, YawedWakes

    S, T = w.dim("S"), w.dim("T")
    wd, xyh = w.real("wd", S, T, lo=0.0, hi=360.0, special=(0, 90, 180, 270, 360)), w.real("xyh", S, T, 3, lo=-1000.0, hi=1000.0)
    other = w.real("other", S, T, lo=0.0, hi=360.0)
    fd = fdata(w, S, T, TXYH=w.snap(xyh), WD=w.snap(wd if var == "WD" else other), AMB_WD=w.snap(wd if var == "AMB_WD" else other))
    f = RotorWD(var_wd=getattr(FV, var))
    if frame == "yawed":
        f = YawedWakes(base_frame=f)
    o = f.calc_order(NS(n_turbines=T), mdata(w, S), fd)
    permutation(w, o, T)
    np = w.np
    a = wd * np.pi / 180
    n0, n1 = np.mean(-np.sin(a), axis=-1), np.mean(-np.cos(a), axis=-1)
    x = n0[:, None] * xyh[..., 0] + n1[:, None] * xyh[..., 1]
    xo = np.take_along_axis(x, o, axis=-1)
    w.forall("downstream coordinate never decreases", (S, T, T), lambda s, a, b: w.implies(a <= b, w.approx_le(xo[s, a], xo[s, b])))
    w.eq("positions unchanged", fd[FV.TXYH], xyh)
    w.eq("wind directions unchanged", fd[getattr(FV, var)], wd)


@contract("P03", RW + ".calc_order", samples=30)
def order_uniform(w):
    """If all turbines of a state have the same wind direction, the downstream coordinate is the one of the wakes."""
    from foxes.models.wake_frames import RotorWD
    from foxes.core import TData

    S, T = w.dim("S"), w.dim("T", lo=2)
    wd1, xyh = w.real("wd", S, lo=0.0, hi=360.0, special=(0, 90, 180, 270, 360)), w.real("xyh", S, T, 3, lo=-1000.0, hi=1000.0)
    np = w.np
    fd = fdata(w, S, T, TXYH=w.snap(xyh), WD=wd1[:, None] + np.zeros((S, T)))
    f = RotorWD()
    algo, md = NS(n_turbines=T), mdata(w, S)
    o = f.calc_order(algo, md, fd)
    i = w.integer("i", lo=0, lt=T)
    x = f.get_wake_coos(algo, md, fd, TData.from_points(xyh), i)[:, :, 0, 0]
    xo = np.take_along_axis(x, o, axis=-1)
    w.forall("wake coordinate never decreases", (S, T, T), lambda s, a, b: w.implies(a <= b, w.approx_le(xo[s, a], xo[s, b])))


@contract("P03", FO + ".calc_order", samples=10)
def farm_order(w):
    """The farm order frame keeps the order of the farm."""
    from foxes.models.wake_frames import FarmOrder, RotorWD

    S, T = w.dim("S"), w.dim("T")
    wd, xyh = w.real("wd", S, T), w.real("xyh", S, T, 3)
    o = FarmOrder(base_frame=RotorWD()).calc_order(NS(n_turbines=T), mdata(w, S), fdata(w, S, T, TXYH=xyh, WD=wd))
    w.eq("order", o, w.np.arange(T)[None, :] + w.np.zeros((S, T), dtype=int))


def farm(w, S, T, N, fd, i0, what):
    """A farm of T turbines, some with own hub height and rotor diameter, some with those of their type, at fixed or
    state-dependent positions (N states in total, of which S from i0 are in this chunk)."""
    import foxes.variables as FV

    np = w.np
    xy, xys = w.real("xy", T, 2), w.real("xy_moving", T, N, 2)
    H, D, tH, tD = w.real("H", T), w.real("D", T), w.real("type_H", T), w.real("type_D", T)
    yes, no = np.ones(T, dtype=bool), np.zeros(T, dtype=bool)
    moving = w.boolean("moving", T) if what == "moving" else no
    hasH, hasD = (w.boolean("own_H", T), w.boolean("own_D", T)) if what == "size" else (yes, yes)

    def item(k):
        return NS(xy=xys[k] if moving[k] else xy[k], H=H[k] if hasH[k] else None, D=D[k] if hasD[k] else None)

    mv = moving[None, :]
    xys_c = np.swapaxes(xys, 0, 1)[i0:i0 + S]
    x = np.where(mv, xys_c[..., 0], xy[None, :, 0] + np.zeros((S, T)))
    y = np.where(mv, xys_c[..., 1], xy[None, :, 1] + np.zeros((S, T)))
    h = np.where(hasH, H, tH)[None, :] + np.zeros((S, T))
    d = np.where(hasD, D, tD)[None, :] + np.zeros((S, T))

    def state(k):
        done = np.arange(T)[None, :] < k
        pos = np.stack([x, y, h], axis=-1)
        some = done[:, :, None]
        return [("positions", lambda: fd[FV.TXYH], pos, np.logical_and(some, np.ones((S, T, 3), dtype=bool))),
                ("diameters", lambda: fd[FV.D], d, np.logical_and(done, np.ones((S, T), dtype=bool)))]

    turbines = w.seq("turbines", T, item, state, containers=[fd])
    types = w.seq("types", T, lambda k: NS(H=tH[k], D=tD[k]))
    return turbines, types, (x, y, h, d)


class Frame:
    def __init__(self, order):
        self.order = order

    def calc_order(self, algo, mdata, fdata):
        return self.order


@contract("P03", INI + ".calculate", params=dict(what=["moving", "size", "data"]), samples=40)
def init_data(w, what):
    """Each turbine's own data are found at its place in the downwind order, and the stored inverse leads back."""
    import foxes.variables as FV
    import foxes.constants as FC
    from foxes.core import FData
    from foxes.algorithms.downwind.models.init_farm_data import InitFarmData

    np = w.np
    S, T, i0 = w.dim("S", lo=2), w.dim("T", lo=2), w.integer("i0", lo=0, hi=3)
    N = w.dim("N", lo=8, hi=9)
    w.assume(i0 + S <= N)
    p = w.perm("order", S, T)
    fd = FData({"x_ct": np.zeros((S, T))}, {"x_ct": (FC.STATE, FC.TURBINE)}, loop_dims=[FC.STATE], states_i0=i0)
    turbines, types, (x, y, h, d) = farm(w, S, T, N, fd, i0, what)
    wdf = w.ufun("wd", lo=0.0, hi=360.0)

    def wd_at(P):
        s = np.arange(S)
        return wdf(s.reshape((S,) + (1,) * (len(P.shape) - 2)) + 0 * P[..., 0], P[..., 0], P[..., 1], P[..., 2])

    states = NS(output_point_vars=lambda algo: [FV.WS, FV.WD], calculate=lambda algo, md, f, td: {FV.WD: wd_at(td[FC.TARGETS])})
    algo = NS(n_turbines=T, farm=NS(turbines=turbines), states=states, wake_frame=Frame(w.snap(p)))
    early = [FV.K, FV.YAW] if what == "data" else []
    algo.farm_controller = NS(turbine_types=types, pre_rotor_models=NS(output_farm_vars=lambda algo: early))
    if early:
        k0, y0 = w.real("k0", S, T), w.real("y0", S, T)
        fd.add(FV.K, w.snap(k0), (FC.STATE, FC.TURBINE))
        fd.add(FV.YAW, w.snap(y0), (FC.STATE, FC.TURBINE))
    md = mdata(w, S)
    if what == "data":
        b, u = w.real("b", S, T, 2), w.real("per_state", S)
        b = np.where(np.logical_and(w.boolean("first_uniform"), np.arange(S)[:, None, None] == 0), 0.5, b)
        md.add("b", w.snap(b), (FC.STATE, FC.TURBINE, "model"))
        md.add("u", w.snap(u), (FC.STATE,))
    m = InitFarmData()
    w.is_true("before the rotor", m.pre_rotor is True)
    out = m.calculate(algo, md, fd)
    wd = wd_at(np.stack([x, y, h], axis=-1))
    take = lambda q: np.take_along_axis(q, p, axis=-1)
    for v, q in dict(X=x, Y=y, H=h, D=d, WD=wd, YAW=wd).items():
        w.eq(f"{v} in downwind order", fd[getattr(FV, v)], take(q))
        w.eq(f"{v} returned", out[getattr(FV, v)], take(q))
    for j, q in enumerate((x, y, h)):
        w.eq(f"position {j}", fd[FV.TXYH][..., j], take(q))
    w.eq("ORDER", fd[FV.ORDER], p)
    w.eq("ORDER_SSEL", fd[FV.ORDER_SSEL], np.arange(S)[:, None] + np.zeros((S, T), dtype=int))
    w.eq("ORDER_INV is the inverse", np.take_along_axis(fd[FV.ORDER_INV], p, axis=-1), np.arange(T)[None, :] + np.zeros((S, T), dtype=int))
    if what == "data":
        w.eq("turbine data in downwind order", md["b"], np.stack([take(b[..., 0]), take(b[..., 1])], axis=-1))
        w.eq("other data", md["u"], u)
        w.eq("results of models before the rotor in downwind order", fd[FV.K], take(k0))


@contract("P03", REO + ".calculate", params=dict(outputs=["given", "farm_vars"]), samples=30)
def reorder(w, outputs):
    """Results in downwind order are brought back to the order of the farm."""
    import foxes.variables as FV
    from foxes.algorithms.downwind.models.reorder_farm_output import ReorderFarmOutput

    np = w.np
    S, T = w.dim("S"), w.dim("T")
    p = w.perm("order", S, T)
    inv = w.inverse(p)
    q, r = w.real("q", S, T), w.real("r", S, 1)
    c = w.real("c")
    fd = fdata(w, S, T, P=w.snap(q), CT=c + np.zeros((S, T)), RHO=w.snap(r), ORDER=w.snap(p), ORDER_INV=w.snap(inv),
               ORDER_SSEL=np.arange(S)[:, None] + np.zeros((S, T), dtype=int))
    vrs = [FV.P, FV.CT, FV.RHO, FV.ORDER, FV.ORDER_INV, FV.ORDER_SSEL]
    m = ReorderFarmOutput(vrs if outputs == "given" else None)
    algo = NS(n_turbines=T, farm_vars=vrs)
    w.is_true("outputs", list(m.output_farm_vars(algo)) == vrs and m.pre_rotor is False)
    out = m.calculate(algo, mdata(w, S), fd)
    w.is_true("all outputs", sorted(out) == sorted(vrs))
    w.eq("each turbine's own value", out[FV.P], np.take_along_axis(q, inv, axis=-1))
    w.eq("uniform", out[FV.CT], c + np.zeros((S, T)))
    w.eq("without turbine dimension", out[FV.RHO], r)
    w.eq("processing order", out[FV.ORDER], p)
    w.eq("inverse order", out[FV.ORDER_INV], inv)
    w.eq("state selection", out[FV.ORDER_SSEL], np.arange(S)[:, None] + np.zeros((S, T), dtype=int))


@contract("P03", SL + ".calc_order", samples=40, mode="bounded", bound="up to 4 states, 8 turbines, uniform wind per state")
def streamlines_order(w):
    """Along streamlines: a permutation in which no turbine is upstream of one that was processed before it."""
    import numpy as np
    import foxes.variables as FV
    import foxes.constants as FC
    from foxes.core import TData
    from foxes.models.wake_frames import Streamlines2D

    S, T = w.dim("S"), w.dim("T", hi=8)
    wd = w.real("wd", S, lo=0.0, hi=360.0)
    xyh = w.real("xyh", S, T, 3, lo=-1500.0, hi=1500.0)
    W = wd[:, None] + np.zeros((S, T))
    fd = fdata(w, S, T, TXYH=xyh, WD=W, AMB_WD=W.copy())
    states = NS(output_point_vars=lambda algo: [FV.WD], calculate=lambda algo, md, f, td: {FV.WD: np.broadcast_to(wd[:, None, None], td[FC.TARGETS].shape[:3]).copy()})
    f = Streamlines2D(step=50.0, max_length_km=6.0)
    algo = NS(states=states, n_turbines=T, name="algo", wake_frame=f)
    md = mdata(w, S)
    md.add("turbine_data", np.zeros((S, T)), (FC.STATE, FC.TURBINE))
    o = f.calc_order(algo, md, fd)
    permutation(w, o, T)
    td = TData.from_points(xyh)
    x = np.stack([f.get_wake_coos(algo, md, fd, td, i)[:, :, 0, 0] for i in range(T)], axis=1)
    ok = all(not x[s, o[s, b], o[s, a]] > 1e-6 for s in range(S) for a in range(T) for b in range(a + 1, T))
    w.is_true("no turbine after one that it is upstream of", ok)


@contract("P03", [INI + ".calculate", REO + ".calculate", RW + ".calc_order"], params=dict(frame=["rotor_wd", "streamlines"]), samples=4, mode="bounded",
          bound="farms of 4 to 7 turbines with 12 states, whole algorithm runs")
def whole_runs(w, frame):
    """Listing the same turbines in another order only changes the order of the results."""
    import numpy as np
    import pandas as pd
    import foxes
    import foxes.variables as FV
    from foxes.models.wake_frames import Streamlines2D

    T = w.dim("T", lo=4, hi=7)
    xy = w.real("xy", T, 2, lo=-1200.0, hi=1200.0)
    H, D = w.real("H", T, lo=80.0, hi=130.0), w.real("D", T, lo=90.0, hi=140.0)
    wd = np.linspace(0.0, 330.0, 12)
    sel = w.boolean("second_type", T)
    perm = w.perm("perm", T)

    def run(ix):
        mbook = foxes.ModelBook()
        if frame == "streamlines":
            mbook.wake_frames["streamlines"] = Streamlines2D(step=100, max_length_km=6)
        farm = foxes.WindFarm()
        for i in ix:
            tm = ["NREL5MW"] if sel[i] else ["DTU10MW"]
            farm.add_turbine(foxes.Turbine(xy=xy[i], H=H[i], D=D[i], turbine_models=tm), verbosity=0)
        states = foxes.input.states.StatesTable(pd.DataFrame(dict(ws=9.0, wd=wd, ti=0.08)), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                                var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"}, fixed_vars={FV.RHO: 1.225})
        with foxes.Engine.new("default", verbosity=0):
            algo = foxes.algorithms.Downwind(farm, states, ["Jensen_linear_k007"], wake_frame=frame, mbook=mbook, verbosity=0, rotor_model="centre")
            r = algo.calc_farm()
        return {v: r[v].to_numpy() for v in (FV.X, FV.Y, FV.H, FV.D, FV.REWS, FV.P, FV.CT, FV.YAW, FV.AMB_REWS)}

    a, b = run(range(T)), run(list(perm))
    for v in a:
        w.eq(v, b[v], a[v][:, list(perm)])
    w.eq("own x", a[FV.X], np.broadcast_to(xy[:, 0], a[FV.X].shape))
    w.eq("own diameter", a[FV.D], np.broadcast_to(D, a[FV.D].shape))
