"""P09: partial wakes and the overlap of two discs."""

import numpy as np

from dv.core import contract
from contracts.fix import NS, fdata, tdata, mdata
import foxes.constants as FC
import foxes.variables as FV

CA = "foxes.utils.two_circles.calc_area"


def lens(np, r1, r2, d):
    """Area between two circular arcs through the intersection points: sector minus triangle, for both discs."""
    d1 = (r1**2 - r2**2 + d**2) / (2 * d)
    d2 = d - d1
    if not hasattr(d, "_is_sarr"):  # sampled values: rounding
        d1, d2 = np.clip(d1, -r1, r1), np.clip(d2, -r2, r2)
    return (r1**2 * np.arccos(d1 / r1) - d1 * np.sqrt(r1**2 - d1**2)) + (r2**2 * np.arccos(d2 / r2) - d2 * np.sqrt(r2**2 - d2**2))


def discs(w, N, scale=100.0, **kw):
    """radii and distances (small scale where rounding of the arc cosine near 1 has to stay below the tolerance of samples)"""
    kw = kw or dict(lo=0.0)
    r = lambda n: w.real(n, N, hi=None if w.symbolic else scale, special=(0.2 * scale, 0.5 * scale), **kw)
    return r("r1"), r("r2"), w.real("d", N, hi=None if w.symbolic else 1.8 * scale, special=(0.3 * scale, 0.4 * scale, 0.7 * scale, scale), **kw)


@contract("P09", CA, samples=60)
def separate_and_contained(w):
    """Discs that do not meet have no overlap; a contained disc overlaps with its own area."""
    from foxes.utils.two_circles import calc_area

    np = w.np
    N = w.dim("N", hi=8)
    r1, r2, d = discs(w, N)
    A = calc_area(w.snap(r1), w.snap(r2), w.snap(d))
    w.eq_where("no overlap of separate discs", d >= r1 + r2, A, 0.0)
    w.eq_where("second disc inside the first", w.And(d <= r1 - r2, d < r1 + r2), A, np.pi * r2**2)
    w.eq_where("first disc inside the second", w.And(d <= r2 - r1, d < r1 + r2), A, np.pi * r1**2)


def lens_lemmas(w, r1, r2, d):
    """the arguments of the arc functions are in range where the circles intersect, the boundaries included"""
    d1 = (r1**2 - r2**2 + d**2) / (2 * d)
    d2 = d - d1
    for n, q, r in (("first", d1, r1), ("second", d2, r2)):
        w.lemma_le(f"{n} at most the radius", q, r)
        w.lemma_le(f"{n} at least minus the radius", -r, q)
        w.lemma_le(f"{n} ratio at most 1", q / r, 1.0)
        w.lemma_le(f"{n} ratio at least -1", -1.0, q / r)
        w.lemma_le(f"{n} half chord", 0.0 * q, r**2 - q**2)


@contract("P09", CA, params=dict(order=["equal", "first larger", "second larger"]), samples=40)
def intersecting(w, order):
    """Wherever the circles meet, touching inside and outside included, the overlap is the area between the two arcs: with the other
    contract this makes the overlap continuous."""
    from foxes.utils.two_circles import calc_area

    np = w.np
    r1, r2, d = (x for x in discs(w, w.dim("N", hi=8), 0.1, gt=0.0))
    if order == "equal":
        r2 = w.snap(r1)
    elif not w.symbolic:
        r1, r2 = (np.maximum(r1, r2), np.minimum(r1, r2)) if order == "first larger" else (np.minimum(r1, r2), np.maximum(r1, r2))
    if not w.symbolic:
        d = np.clip(d, np.abs(r1 - r2), r1 + r2)
    w.assume(w.And(r1 + r2 - d >= 0.0, d - r1 + r2 >= 0.0, d - r2 + r1 >= 0.0))
    if order != "equal":
        w.assume(r1 > r2 if order == "first larger" else r1 < r2)
    lens_lemmas(w, r1, r2, d)
    w.eq("area between the arcs", calc_area(w.snap(r1), w.snap(r2), w.snap(d)), lens(np, r1, r2, d))


@contract("P09", CA, mode="bounded", bound="random discs and all combinations of touching, equal, contained and zero discs", samples=200)
def overlap_bounds(w):
    """Between zero and the smaller disc's area, symmetric, never growing with the distance; inputs unchanged."""
    from foxes.utils.two_circles import calc_area

    np = w.np
    N = 40
    k = w.integer("kind", N, lo=0, hi=5)
    r1, r2, d = discs(w, N, float(w.integer("scale", lo=1, hi=200)))
    f = w.real("f", N, lo=0.0, hi=1.0, special=(0.0, 1.0, 1e-9, 1 - 1e-9))
    r2 = np.where(k == 1, r1, r2)
    d = np.where(k == 2, r1 + r2, np.where(k == 3, np.abs(r1 - r2), np.where(k == 4, np.abs(r1 - r2) + f * (r1 + r2 - np.abs(r1 - r2)), np.where(k == 5, 0.0, d))))
    old = [x.copy() for x in (r1, r2, d)]
    A = calc_area(r1, r2, d)
    full = np.pi * np.minimum(r1, r2) ** 2
    sc = 1e-3 / (1 + r1**2 + r2**2)
    w.le("not negative", 0.0, A * sc)
    w.le("at most the smaller disc", A * sc, full * sc)
    w.eq("symmetric", A * sc, calc_area(r2, r1, d) * sc)
    w.le("never grows with the distance", calc_area(r1, r2, d * (1 + f)) * sc, A * sc)
    w.eq("all of the smaller disc when contained", A * sc, np.where(d <= np.abs(r1 - r2), full, A) * sc)
    w.eq("nothing when separate", np.where(d >= r1 + r2, A, 0.0), 0.0 * A)
    e = 1e-7 * (1 + r1 + r2)
    w.le("continuous", np.abs(calc_area(r1, r2, d + e) - A) / (1 + r1 + r2) ** 2, 3e-7)
    for n, x, y in zip(("r1", "r2", "d"), (r1, r2, d), old):
        w.eq(f"{n} unchanged", x, y)


# ------------------------------------------------------------------ partial wakes
class Frame:
    """A wake frame: arbitrary wake coordinates of the wake modelling points, rotor data of the wake-causing turbine."""

    def __init__(self, w, coos):
        self.w, self.coos = w, coos

    def get_wake_coos(self, algo, mdata, fdata, tdata, downwind_index):
        return self.w.snap(self.coos)

    def get_wake_modelling_data(self, algo, variable, downwind_index, fdata, tdata, target, **kw):
        np = self.w.np
        n = (1,) if target == FC.STATE_TARGET else (1, 1)
        return fdata[variable][:, downwind_index].reshape((fdata.n_states,) + n) if not self.w.symbolic else fdata[variable][:, downwind_index][(slice(None),) + (None,) * len(n)]


def area_contract(w, *modules):
    """The overlap of two discs as a callee: an arbitrary function (its contract is assumed where needed)."""
    import importlib
    import foxes.utils.two_circles as tc

    real = tc.calc_area
    area = w.ufun("area", concrete=lambda a, b, c: real(*(np.array(x, dtype=float) for x in np.broadcast_arrays(a, b, c))))
    for m in [tc] + [importlib.import_module(x) for x in modules]:
        if hasattr(m, "calc_area"):
            w.patch(m, "calc_area", area)
    return area


class Adder:
    """A wake superposition that adds up."""

    def __init__(self):
        self.name = "adder"

    def add_wake(self, algo, mdata, fdata, tdata, downwind_index, st_sel, variable, wake_delta, wake_model_result):
        wake_delta[st_sel] += wake_model_result
        return wake_delta


def partial_setting(w, cause=True, P=1, S=None, N=None):
    S = w.dim("S", lo=2) if S is None else S
    N = w.dim("N", lo=2) if N is None else N
    T = w.dim("T", lo=2)
    DT = w.real("D_target", S, N, 1, gt=0.0, hi=200.0, special=(100.0,))
    fd = fdata(w, S, T, D=w.real("D", S, T, gt=0.0, hi=200.0), CT=w.real("ct", S, T, lo=0.0, hi=1.0, special=(0.0, 0.5)))
    td = tdata(w, w.real("targets", S, N, P, 3), w.weights("tw", P), D=DT)
    md = mdata(w, S)
    coos = w.real("coos", S, N, P, 3, special=(0.0, 50.0, -50.0))
    algo = NS(wake_frame=Frame(w, coos), name="algo", n_states=S, n_turbines=T)
    oi = w.integer("oi", lo=0, lt=T)
    return NS(S=S, N=N, T=T, D=DT[:, :, 0], fd=fd, td=td, md=md, coos=coos, algo=algo, oi=oi, ct=fd[FV.CT][:, oi][:, None] + w.np.zeros((S, N)))


@contract("P09", ["foxes.models.partial_wakes.top_hat.PartialTopHat.contribute", "foxes.models.partial_wakes.top_hat.PartialTopHat.check_wmodel"], samples=60)
def top_hat(w):
    """Each affected rotor receives the centre line effect times the share of its area that the wake covers."""
    from foxes.models.partial_wakes import PartialTopHat
    from foxes.models.wake_models.top_hat import TopHatWakeModel

    np = w.np
    area = area_contract(w, "foxes.models.partial_wakes.top_hat")
    c = partial_setting(w)
    frad, fcl = w.ufun("radius", lo=0.0, hi=120.0), {v: w.ufun("centreline_" + v, lo=-1.0, hi=1.0) for v in ("WS", "TI")}

    class Model(TopHatWakeModel):
        def calc_wake_radius(self, algo, mdata, fdata, tdata, downwind_index, x, ct):
            return frad(x, ct)

        def calc_centreline(self, algo, mdata, fdata, tdata, downwind_index, st_sel, x, wake_r, ct):
            return {v: f(x, wake_r, ct) for v, f in fcl.items()}

        def new_wake_deltas(self, *a):
            raise NotImplementedError

    m = Model(superpositions={}, induction=None)
    m.superp = {v: Adder() for v in fcl}
    pw = PartialTopHat(rotor_model=NS())
    x, R = c.coos[:, :, 0, 0], np.sqrt(c.coos[:, :, 0, 1] ** 2 + c.coos[:, :, 0, 2] ** 2)
    wr = frad(x, c.ct)
    w.assume(wr >= 0.0)
    A = {v: w.real("A_" + v, c.S, c.N, 1) for v in fcl}
    B = {v: w.snap(a) for v, a in A.items()}
    pw.contribute(c.algo, c.md, c.fd, c.td, c.oi, B, m)
    hit = w.And(x > 1e-8, c.ct > 1e-8)
    ov = area(w.snap(c.D) / 2, w.snap(wr), w.snap(R))
    w.assume(w.implies(R >= c.D / 2 + wr, ov == 0.0))
    w.assume(w.implies(w.And(R + c.D / 2 <= wr, R < c.D / 2 + wr), ov == np.pi * (c.D / 2) ** 2))
    share = ov / (np.pi * (w.snap(c.D) / 2) ** 2)
    for v, f in fcl.items():
        w.eq(f"{v}: share of the rotor area", B[v][:, :, 0], A[v][:, :, 0] + w.ite(hit, share * f(x, wr, c.ct), 0.0))
        w.eq(f"{v}: rotor outside the wake", w.ite(wr <= R - c.D / 2, B[v][:, :, 0], 0.0), w.ite(wr <= R - c.D / 2, A[v][:, :, 0], 0.0))
        w.eq_where(f"{v}: rotor inside the wake", w.And(hit, R + c.D / 2 <= wr), B[v][:, :, 0], A[v][:, :, 0] + f(x, wr, c.ct))


def axi_model(w, fs, fsel):
    from foxes.models.wake_models.axisymmetric import AxisymmetricWakeModel

    class Model(AxisymmetricWakeModel):
        def calc_wakes_x_r(self, algo, mdata, fdata, tdata, downwind_index, x, r):
            st_sel = w.And(x > 1e-8, fsel(x) > 0.0)
            return {v: f(x[st_sel][:, None], r[st_sel]) for v, f in fs.items()}, st_sel

        def new_wake_deltas(self, *a):
            raise NotImplementedError

    m = Model(superpositions={})
    m.superp = {v: Adder() for v in fs}
    return m


def axi_run(w, c, n, fs, fsel):
    from foxes.models.partial_wakes import PartialAxiwake

    A = {v: w.real("A_" + v, c.S, c.N, 1) for v in fs}
    B = {v: w.snap(a) for v, a in A.items()}
    PartialAxiwake(n=n).contribute(c.algo, c.md, c.fd, c.td, c.oi, B, axi_model(w, fs, fsel))
    return {v: (A[v][:, :, 0], B[v][:, :, 0]) for v in fs}


@contract("P09", ["foxes.models.partial_wakes.axiwake.PartialAxiwake.contribute", "foxes.models.partial_wakes.axiwake.PartialAxiwake.check_wmodel"], params=dict(n=[2, 3]), samples=60)
def axiwake(w, n):
    """A wake that is uniform across the rotor is fully received, any wake within its range over the rotor; other rotors are untouched."""
    np = w.np
    area = area_contract(w, "foxes.models.partial_wakes.axiwake")
    c = partial_setting(w)
    x, R, D = c.coos[:, :, 0, 0], np.sqrt(c.coos[:, :, 0, 1] ** 2 + c.coos[:, :, 0, 2] ** 2), w.snap(c.D)
    # contract of the overlap: never shrinks with the radius, zero at the near edge, all of the disc at the far edge
    for inside in (False, True):
        if inside:
            rad = [0.0 * R] + [(R + D / 2) / (n - 0.5) * (0.5 + i) for i in range(n)]
            a = [0.0 * R] + [area(D / 2, r, R) for r in rad[1:]]
            w.assume(w.implies(w.And(R <= D / 2, D > 0.0), a[1] > 0.0))
        else:
            rad = [R + D * (i / n - 0.5) for i in range(n + 1)]
            a = [area(D / 2, r, R) for r in rad]
        g = R <= D / 2 if inside else R > D / 2
        for p, q in zip(a[:-1], a[1:]):
            w.assume(w.implies(g, p <= q))
        z = 0.0 * R
        w.assume(area(z, z, R) == 0.0)
    fs = {"uniform": lambda x, r: gu(x) + 0.0 * r, "bounded": w.ufun("g", lo=-1.0, hi=1.0)}
    gu, fsel = w.ufun("gu", lo=-1.0, hi=1.0), w.ufun("is_sel", lo=-1.0, hi=1.0)
    r = axi_run(w, c, n, fs, fsel)
    hit = w.And(x > 1e-8, fsel(x) > 0.0)
    A, B = r["uniform"]
    w.eq("uniform wake is fully received", B, A + w.ite(hit, gu(x), 0.0))
    A, B = r["bounded"]
    w.eq_where("nothing elsewhere", w.Not(hit), B, A)
    w.eq("nothing elsewhere", w.ite(hit, 0.0, B), w.ite(hit, 0.0, A))
    lo, hi = w.ite(hit, -1.0, 0.0), w.ite(hit, 1.0, 0.0)
    w.le("at least the smallest effect", A + lo, B)
    w.le("at most the largest effect", B, A + hi)


@contract("P09", ["foxes.models.partial_wakes.axiwake.PartialAxiwake.contribute", CA], mode="bounded",
          bound="random rotors, n = 2..8, and the special positions: centred, wake centre at the rotor edge, vertical and horizontal offsets", samples=150)
def axiwake_share(w):
    """For a wake of sharp radius the received share is the covered share of the rotor, up to the resolution of the radial steps."""
    from foxes.utils.two_circles import calc_area

    n = int(w.integer("n", lo=2, hi=8))
    c = partial_setting(w)
    k = w.integer("kind", c.S, c.N, lo=0, hi=4)
    c.coos[:, :, 0, 1] = np.where(k == 0, 0.0, np.where(k == 1, c.D / 2, np.where(k == 2, -0.3 * c.D, c.coos[:, :, 0, 1])))
    c.coos[:, :, 0, 2] = np.where(k <= 2, 0.0, c.coos[:, :, 0, 2])
    c.coos[:, :, 0, 0] = np.abs(c.coos[:, :, 0, 0])
    R = np.sqrt(c.coos[:, :, 0, 1] ** 2 + c.coos[:, :, 0, 2] ** 2)
    rho = float(w.real("rho", lo=0.0, hi=150.0))
    x = c.coos[:, :, 0, 0]
    A, B = axi_run(w, c, n, {"step": lambda x, r: np.where(r < rho, 1.0, 0.0)}, lambda x: 1.0 + 0.0 * x)["step"]
    disc = np.pi * (c.D / 2) ** 2
    step = 0.5 * c.D / (n - 0.5) + 1e-9
    share = lambda r: calc_area(c.D / 2, np.maximum(r, 0.0) + 0.0 * R, R) / disc
    near = share(0.0 * R + rho - step), share(0.0 * R + rho + step)
    got = np.where(x > 1e-8, B - A, 0.0)
    w.eq("only downstream", np.where(x > 1e-8, 0.0, B), np.where(x > 1e-8, 0.0, A))
    w.le("at least the share of a slightly smaller wake", np.where(x > 1e-8, near[0], 0.0), got + 1e-7)
    w.le("at most the share of a slightly larger wake", got, np.where((x > 1e-8) & (rho > 0), near[1], 0.0) + 1e-7)


# ------------------------------------------------------------------ points and weights
def stored(w, c, P):
    rp, rw = w.real("rotor_points", c.S, c.T, P, 3), w.weights("rotor_weights", P)
    st = {FC.ROTOR_POINTS: rp, FC.ROTOR_WEIGHTS: rw}
    c.algo.get_from_chunk_store = lambda name, mdata=None, **k: st[name]
    return rp, rw


class WModel:
    """A wake model whose final step is an arbitrary function of ambient result and accumulated effect, point by point."""

    name = "wmodel"

    def __init__(self, w, fs):
        self.w, self.fs, self.calls = w, fs, []

    def finalize_wake_deltas(self, algo, mdata, fdata, amb_results, wake_deltas):
        for v, f in self.fs.items():
            wake_deltas[v] = f(amb_results[v], wake_deltas[v])


def deltas(w, c, P, fs):
    return {v: w.real("delta_" + v, c.S, c.T, P) for v in fs}


@contract("P09", ["foxes.models.partial_wakes." + m for m in ("rotor_points.RotorPoints.get_wake_points", "rotor_points.RotorPoints.finalize_wakes", "centre.PartialCentre.get_wake_points")],
          params=dict(cls=["RotorPoints", "PartialCentre"], amb=["rotor", "uniform"]), samples=30)
def rotor_points(w, cls, amb):
    """The wake effect of a rotor is evaluated at its own rotor points (or its centre), with the ambient result of the same turbine;
    accumulated effects and ambient results are not changed."""
    import foxes.models.partial_wakes as pws

    np = w.np
    P = w.dim("P", lo=2)
    c = partial_setting(w)
    rp, rw = stored(w, c, P)
    pos = w.real("txyh", c.S, c.T, 3)
    fd = fdata(w, c.S, c.T, TXYH=w.snap(pos), D=w.real("D", c.S, c.T, gt=0.0))
    pw = getattr(pws, cls)()
    pts, wts = pw.get_wake_points(c.algo, c.md, fd)
    n = P if cls == "RotorPoints" else 1
    w.is_true("shape", tuple(pts.shape) == (c.S, c.T, n, 3) if not w.symbolic else len(pts.shape) == 4)
    w.eq("points", pts, rp if cls == "RotorPoints" else pos[:, :, None])
    w.eq("weights", wts, rw if cls == "RotorPoints" else np.ones(1))
    fs = {v: w.ufun("final_" + v, lo=-1.0, hi=1.0) for v in ("WS", "TI")}
    dl = deltas(w, c, n, fs)
    am = {v: w.real("amb_" + v, c.S, c.T if amb == "rotor" else 1, P) for v in fs}
    old = {v: (w.snap(dl[v]), w.snap(am[v])) for v in fs}
    td = NS(n_tpoints=n)
    r = pw.finalize_wakes(c.algo, c.md, fd, td, am, rw, dl, WModel(w, fs), c.oi)
    w.is_true("variables", set(r) == set(fs))
    for v, f in fs.items():
        a = am[v][:, c.oi] if amb == "rotor" else am[v][:, 0]
        w.eq(f"{v}: effect at the rotor points", r[v], f(a, old[v][0][:, c.oi]))
        w.eq(f"{v}: accumulated effect unchanged", dl[v], old[v][0])
        w.eq(f"{v}: ambient result unchanged", am[v], old[v][1])


@contract("P09", ["foxes.models.partial_wakes.segregated.PartialSegregated." + m for m in ("get_wake_points", "finalize_wakes")],
          params=dict(same=[False, True], amb=["rotor", "uniform"]), samples=40)
def segregated(w, same, amb):
    """The wake effect at own points is averaged with own weights and applied to the whole rotor."""
    from foxes.models.partial_wakes import PartialSegregated

    np = w.np
    P = w.dim("P", lo=2)
    Q = P if same else w.dim("Q", lo=1)
    if not same:
        w.assume(w.Not(P == Q))
    c = partial_setting(w)
    gp, gw = w.real("grid_points", c.S, c.T, Q, 3), w.weights("grid_weights", Q)
    rw = w.weights("rotor_weights", P)
    pw = PartialSegregated(NS(name="rotor", get_rotor_points=lambda *a: gp, rotor_point_weights=lambda: gw))
    pts, wts = pw.get_wake_points(c.algo, c.md, c.fd)
    w.eq("points", pts, gp)
    w.eq("weights", wts, gw)
    fs = {v: w.ufun("final_" + v, lo=-1.0, hi=1.0) for v in ("WS", "TI")}
    dl = deltas(w, c, Q, fs)
    am = {v: w.real("amb_" + v, c.S, c.T if amb == "rotor" else 1, P) for v in fs}
    old = {v: (w.snap(dl[v]), w.snap(am[v])) for v in fs}
    td = tdata(w, gp, gw)
    r = pw.finalize_wakes(c.algo, c.md, c.fd, td, am, rw, dl, WModel(w, fs), c.oi)
    w.is_true("variables", set(r) == set(fs))
    for v, f in fs.items():
        a = am[v][:, c.oi] if amb == "rotor" else am[v][:, 0]
        if not same:
            a = np.einsum("sp,p->s", a, rw)[:, None]
        mean = np.einsum("sp,p->s", f(a, old[v][0][:, c.oi]), gw)[:, None]
        w.eq(f"{v}: weighted mean over own points at every rotor point", r[v], mean + np.zeros((c.S, P)))
        w.eq(f"{v}: accumulated effect unchanged", dl[v], old[v][0])
        w.eq(f"{v}: ambient result unchanged", am[v], old[v][1])
