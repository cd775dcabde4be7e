"""P10: wake coordinates are a rigid, invertible change of coordinates."""

from dv.core import contract
from .fix import NS, fdata, mdata, tdata

RW = "foxes.models.wake_frames.rotor_wd.RotorWD"
FO = "foxes.models.wake_frames.farm_order.FarmOrder"
YW = "foxes.models.wake_frames.yawed_wakes.YawedWakes"
SL = "foxes.models.wake_frames.streamlines.Streamlines2D"


def frames():
    from foxes.models.wake_frames import RotorWD, FarmOrder
    import foxes.variables as FV

    return dict(rotor_wd=lambda: RotorWD(), rotor_amb_wd=lambda: RotorWD(var_wd=FV.AMB_WD),
                farm_order=lambda: FarmOrder(base_frame=RotorWD()))


def situation(w, S, T, angle="WD"):
    import foxes.variables as FV

    wd = w.real("wd", S, T, lo=0.0, hi=360.0, special=(0, 90, 180, 270, 360))
    xyh = w.real("xyh", S, T, 3, lo=-1000.0, hi=1000.0)
    other = w.real("other_wd", S, T, lo=0.0, hi=360.0)
    vars = dict(TXYH=w.snap(xyh), WD=w.snap(other), AMB_WD=w.snap(other))
    vars[angle] = w.snap(wd)
    return wd, xyh, fdata(w, S, T, **vars)


def axes(w, wd, i):
    np = w.np
    a = wd[:, i] * np.pi / 180.0
    n0, n1 = -np.sin(a), -np.cos(a)
    return n0, n1


def coords(frame):
    @contract("P10", [RW + ".get_wake_coos"] + ([FO + ".get_wake_coos"] if frame == "farm_order" else []), name=f"coords[{frame}]", samples=30)
    def c(w):
        """Wake coordinates are the offsets from the wake-causing rotor along the wind, across and up; distances between
        points are preserved and the point is recovered from its coordinates."""
        S, T, K, P = w.dim("S"), w.dim("T"), w.dim("K"), w.dim("P")
        wd, xyh, fd = situation(w, S, T, "AMB_WD" if frame == "rotor_amb_wd" else "WD")
        i = w.integer("i", lo=0, lt=T)
        pts = w.real("points", S, K, P, 3, lo=-5000.0, hi=5000.0)
        wts = w.weights("wts", P)
        td = tdata(w, w.snap(pts), wts)
        f = frames()[frame]()
        c = f.get_wake_coos(NS(n_turbines=T), mdata(w, S), fd, td, i)
        w.is_true("shape", tuple(c.shape) == (S, K, P, 3))
        hub = xyh[:, i]
        n0, n1 = axes(w, wd, i)
        d = pts - hub[:, None, None, :]
        N0, N1 = n0[:, None, None], n1[:, None, None]
        w.eq("downstream offset", c[..., 0], d[..., 0] * N0 + d[..., 1] * N1)
        w.eq("crosswind offset", c[..., 1], -d[..., 0] * N1 + d[..., 1] * N0)
        w.eq("vertical offset", c[..., 2], d[..., 2])
        one = N0 * N0 + N1 * N1
        w.eq("recovered x", hub[:, None, None, 0] + c[..., 0] * N0 - c[..., 1] * N1, pts[..., 0])
        w.eq("recovered y", hub[:, None, None, 1] + c[..., 0] * N1 + c[..., 1] * N0, pts[..., 1])
        w.eq("recovered z", hub[:, None, None, 2] + c[..., 2], pts[..., 2])
        w.eq("distance to the rotor", c[..., 0] ** 2 + c[..., 1] ** 2 + c[..., 2] ** 2, d[..., 0] ** 2 + d[..., 1] ** 2 + d[..., 2] ** 2)
        k = w.integer("k", lo=0, lt=K)
        e, de = c - c[:, k, None], pts - pts[:, k, None]
        w.eq("distances between points", e[..., 0] ** 2 + e[..., 1] ** 2 + e[..., 2] ** 2, de[..., 0] ** 2 + de[..., 1] ** 2 + de[..., 2] ** 2)
        w.eq("points unchanged", td[FCT()], pts)
        import foxes.variables as FV

        w.eq("turbine positions unchanged", fd[FV.TXYH], xyh)
        w.eq("wind direction unchanged", fd[FV.AMB_WD if frame == "rotor_amb_wd" else FV.WD], wd)


def FCT():
    import foxes.constants as FC

    return FC.TARGETS


def landmarks(frame):
    @contract("P10", [RW + ".get_wake_coos", RW + ".get_centreline_points"], name=f"landmarks[{frame}]", samples=30)
    def c(w):
        """The rotor centre has coordinates zero; centreline points have their distance as first and no other coordinates."""
        import foxes.variables as FV
        from foxes.core import TData

        S, T, K = w.dim("S"), w.dim("T"), w.dim("K")
        wd, xyh, fd = situation(w, S, T, "AMB_WD" if frame == "rotor_amb_wd" else "WD")
        i = w.integer("i", lo=0, lt=T)
        f = frames()[frame]()
        algo, md = NS(n_turbines=T), mdata(w, S)
        c = f.get_wake_coos(algo, md, fd, TData.from_points(xyh[:, i, None, :]), i)
        w.eq("rotor centre", c, 0.0 * c)
        x = w.real("x", S, K, lo=-100.0, hi=5000.0, special=(0.0,))
        x0 = w.snap(x)
        p = f.get_centreline_points(algo, md, fd, i, x)
        w.is_true("shape", tuple(p.shape) == (S, K, 3))
        n0, n1 = axes(w, wd, i)
        w.eq("centreline x", p[..., 0], xyh[:, i, None, 0] + x0 * n0[:, None])
        w.eq("centreline y", p[..., 1], xyh[:, i, None, 1] + x0 * n1[:, None])
        w.eq("centreline height", p[..., 2], xyh[:, i, None, 2] + 0 * x0)
        w.eq("x unchanged", x, x0)
        c = f.get_wake_coos(algo, md, fd, TData.from_points(p), i)
        w.eq("downstream coordinate", c[:, :, 0, 0], x0)
        w.eq("crosswind coordinate", c[:, :, 0, 1], 0 * x0)
        w.eq("vertical coordinate", c[:, :, 0, 2], 0 * x0)


class Deflection:
    """Stands in for the deflection model behind YawedWakes: any deflection as function of turbine, state, distance."""

    def __init__(self, w, gamma):
        self.w, self.gamma = w, gamma
        self.near_f, self.far_f = w.ufun("near_deflection", lo=-50.0, hi=50.0), w.ufun("far_deflection", lo=-50.0, hi=50.0)
        self.ct0 = w.ufun("ct_positive", lo=-1.0, hi=1.0)
        self.x0 = w.ufun("x0", lo=0.0, hi=1000.0)
        self.data = None

    def full(self, x, gamma, s):
        """The deflection of all targets."""
        w = self.w
        near = x < self.x0(s, x)
        defl = w.np.where(near, self.near_f(s, x, gamma), self.far_f(s, x, gamma))
        sel = w.np.logical_and(x > 1e-8, self.ct0(s) > 0.0)
        return sel, near, w.np.where(sel, defl, 0.0 * x)

    def calc_data(self, algo, mdata, fdata, tdata, downwind_index, x, gamma, k):
        from foxes.models.wake_models.wind.bastankhah16 import Bastankhah2016Model as M

        w = self.w
        s = w.np.arange(x.shape[0])[:, None] + 0 * w.np.arange(x.shape[1])[None, :]
        sel, near, _ = self.full(x, gamma, s)
        x, s, gamma, near = x[sel], s[sel], gamma[sel], near[sel]
        self.data = {M.ST_SEL: sel, M.NEAR: near, M.DELTA_NEAR: self.near_f(s, x, gamma)[near], M.DELTA_FAR: self.far_f(s, x, gamma)[~near]}

    def get_data(self, key, mdata):
        return self.data[key]


def yawed(w, gamma, S):
    from foxes.models.wake_frames import YawedWakes, RotorWD

    f = YawedWakes(base_frame=RotorWD())
    f.model = Deflection(w, gamma)
    f.wake_k = lambda target, **kw: 0.05
    return f


@contract("P10", [YW + ".get_wake_coos", YW + "._update_y"], samples=30)
def yawed_coords(w):
    """Deflected wakes: the coordinates are those of the base frame, with the crosswind coordinates of all points of a
    target shifted by the deflection at the downstream distance of its weighted centre."""
    import foxes.variables as FV

    S, T, K, P = w.dim("S", lo=2), w.dim("T", lo=2), w.dim("K", lo=2), w.dim("P", lo=2)
    wd, xyh, fd = situation(w, S, T)
    yawm = w.real("yawm", S, T, lo=-40.0, hi=40.0, special=(0.0,))
    fd.add(FV.YAWM, yawm, ("state", "turbine"))
    i = w.integer("i", lo=0, lt=T)
    pts = w.real("points", S, K, P, 3, lo=-5000.0, hi=5000.0)
    wts = w.weights("wts", P)
    td = tdata(w, w.snap(pts), wts)
    f = yawed(w, yawm, S)
    algo = NS(n_turbines=T, name="algo", wake_frame=f)
    md = mdata(w, S)
    base = f.base_frame.get_wake_coos(algo, md, fd, td, i)
    c = f.get_wake_coos(algo, md, fd, td, i)
    x = w.np.einsum("stp,p->st", base[..., 0], wts)
    s = w.np.arange(S)[:, None] + 0 * w.np.arange(K)[None, :]
    _, _, shift = f.model.full(x, yawm[:, i, None] * w.np.pi / 180 + 0 * x, s)
    w.eq("downstream", c[..., 0], base[..., 0])
    w.eq("vertical", c[..., 2], base[..., 2])
    w.eq("crosswind", c[..., 1], base[..., 1] - shift[:, :, None])
    w.eq("points unchanged", td[FCT()], pts)


@contract("P10", [YW + ".get_centreline_points", YW + "._update_y"], samples=60, mode="bounded", bound="up to 4 states and turbines, 3 to 5 distances")
def yawed_centreline(w):
    """The centreline points have their distance as downstream coordinate and no other coordinates."""
    import foxes.variables as FV
    from foxes.core import TData

    S, T, K = w.dim("S", lo=2), w.dim("T", lo=2), w.dim("K", lo=3, hi=5)
    wd, xyh, fd = situation(w, S, T)
    yawm = w.real("yawm", S, T, lo=-40.0, hi=40.0, special=(0.0,))
    fd.add(FV.YAWM, yawm, ("state", "turbine"))
    i = w.integer("i", lo=0, lt=T)
    f = yawed(w, yawm, S)
    algo = NS(n_turbines=T, name="algo", wake_frame=f)
    md = mdata(w, S)
    x1 = w.increasing("x", K, lo=0.0, hi=5000.0)
    x = x1[None, :] + w.np.zeros((S, K))
    x0 = w.snap(x)
    p = f.get_centreline_points(algo, md, fd, i, x)
    w.is_true("shape", tuple(p.shape) == (S, K, 3))
    c = f.get_wake_coos(algo, md, fd, TData.from_points(p), i)
    w.eq("x unchanged", x, x0)
    w.eq("downstream coordinate", c[:, :, 0, 0], x0)
    w.eq("crosswind coordinate", c[:, :, 0, 1], 0 * x0)
    w.eq("vertical coordinate", c[:, :, 0, 2], 0 * x0)


@contract("P10", [SL + ".get_wake_coos", SL + ".get_centreline_points"], samples=20, mode="bounded", bound="up to 4 states, turbines and points, uniform wind")
def streamline_coords(w):
    """In a uniform ambient wind the streamline coordinates downstream of the rotor are those of the straight frame."""
    import numpy as np
    import foxes.variables as FV
    import foxes.constants as FC
    from foxes.core import TData
    from foxes.models.wake_frames import Streamlines2D, RotorWD

    S, T, K = w.dim("S"), w.dim("T"), w.dim("K")
    wd = w.real("wd", S, lo=0.0, hi=360.0)
    xyh = w.real("xyh", S, T, 3, lo=-1000.0, hi=1000.0)
    fd = fdata(w, S, T, TXYH=xyh, WD=wd[:, None] + np.zeros((S, T)), AMB_WD=wd[:, None] + np.zeros((S, T)))
    i = w.integer("i", lo=0, lt=T)
    states = NS(output_point_vars=lambda algo: [FV.WD], calculate=lambda algo, md, fd, td: {FV.WD: np.broadcast_to(wd[:, None, None], td[FC.TARGETS].shape[:3]).copy()})
    f, r = Streamlines2D(step=w.real("step", lo=20.0, hi=60.0), max_length_km=3.0), RotorWD()
    algo = NS(states=states, n_turbines=T, name="algo", wake_frame=f)
    md = mdata(w, S)
    md.add("turbine_data", np.zeros((S, T)), (FC.STATE, FC.TURBINE))
    a = w.real("a", S, K, lo=-300.0, hi=2500.0)
    b = w.real("b", S, K, 2, lo=-300.0, hi=300.0)
    n0, n1 = axes(w, wd[:, None], 0)
    n0, n1 = n0[:, None], n1[:, None]
    hub = xyh[:, i, None]
    pts = np.stack([hub[..., 0] + a * n0 - b[..., 0] * n1, hub[..., 1] + a * n1 + b[..., 0] * n0, hub[..., 2] + b[..., 1]], axis=-1)
    td = TData.from_points(pts)
    c = f.get_wake_coos(algo, md, fd, td, i)[:, :, 0]
    e = r.get_wake_coos(algo, md, fd, td, i)[:, :, 0]
    down = a >= 0.0
    for j, n in enumerate(("downstream", "crosswind", "vertical")):
        w.eq_where(n, down, np.where(down, c[..., j], 0.0), np.where(down, e[..., j], 0.0))
    w.is_true("nothing upstream counts as downstream", not np.any(c[..., 0][a < 0.0] > 0.0))
    x = np.sort(np.abs(a), axis=-1)
    w.eq("centreline", f.get_centreline_points(algo, md, fd, i, x), r.get_centreline_points(algo, md, fd, i, x))


for _f in ("rotor_wd", "rotor_amb_wd", "farm_order"):
    coords(_f)
    landmarks(_f)
