"""P18: ground models."""

from dv.core import contract
from contracts.fix import NS, fdata, tdata, mdata
import foxes.constants as FC
import foxes.variables as FV

GM = "foxes.models.ground_models."


class Frame:
    """Wake coordinates: any function of target point and rotor position; here their difference."""

    def __init__(self, w):
        self.w = w

    def get_wake_coos(self, algo, mdata, fdata, tdata, downwind_index):
        return tdata[FC.TARGETS] - fdata[FV.TXYH][:, downwind_index][:, None, None, :]


def setting(w, ones=False):
    S, N, P, T = (w.dim(k, lo=2) for k in "SNPT")
    if ones:
        N = P = T = 1
    h = w.real("h", S, T, lo=0.0, hi=300.0)
    x, y = w.real("x", S, T), w.real("y", S, T)
    fd = fdata(w, S, T, X=w.snap(x), Y=w.snap(y), H=w.snap(h))
    pts = w.real("targets", S, N, P, 3)
    td = tdata(w, w.snap(pts), w.weights("tw", P))
    oi = w.integer("oi", lo=0, lt=T)
    return NS(S=S, N=N, P=P, T=T, h=h, x=x, y=y, fd=fd, td=td, pts=pts, oi=oi, algo=NS(wake_frame=Frame(w), name="algo"), md=mdata(w, S))


class Wakes:
    """Wake and partial wakes model: the effect on a rotor or point is an arbitrary function of its coordinates relative to the rotor."""

    name = "wakes"

    def __init__(self, w, kind=""):
        self.fs = {v: w.ufun(f"wake_{v}_{kind}", lo=-1.0, hi=1.0) for v in ("WS", "TI")}
        self.final = {v: w.ufun(f"final_{v}_{kind}", lo=-1.0, hi=1.0) for v in self.fs}

    def effect(self, v, coos):
        return self.fs[v](coos[..., 0], coos[..., 1], coos[..., 2])

    # wake model
    def new_wake_deltas(self, *args):
        return ("new deltas",) + args

    def finalize_wake_deltas(self, algo, mdata, fdata, amb_results, wake_deltas):
        for v, f in self.final.items():
            wake_deltas[v] = f(amb_results[v], wake_deltas[v])

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, coos, wake_deltas):
        for v in self.fs:
            wake_deltas[v] += self.effect(v, coos)


class Partial(Wakes):
    """A partial wakes model with its own effect"""

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel):
        coos = algo.wake_frame.get_wake_coos(algo, mdata, fdata, tdata, downwind_index)
        for v in self.fs:
            wake_deltas[v] += self.effect(v, coos)

    def finalize_wakes(self, *args):
        return ("final",) + args

    def new_wake_deltas(self, *args):
        return ("new partial deltas",) + args


def make(kind, heights):
    import foxes.models.ground_models as gm

    return gm.WakeMirror(heights) if kind == "WakeMirror" else getattr(gm, kind)()


KINDS = [dict(kind="NoGround", n=0), dict(kind="GroundMirror", n=1), dict(kind="WakeMirror", n=0), dict(kind="WakeMirror", n=1), dict(kind="WakeMirror", n=2), dict(kind="WakeMirror", n=3)]


@contract("P18", [GM + "wake_mirror.WakeMirror.contribute_to_farm_wakes", GM + "wake_mirror.WakeMirror.contribute_to_point_wakes", GM + "wake_mirror.GroundMirror.__init__", GM + "no_ground.NoGround",
                  "foxes.core.ground_model.GroundModel.contribute_to_farm_wakes", "foxes.core.ground_model.GroundModel.contribute_to_point_wakes"],
          params=[dict(to=t, ones=o, **k) for k in KINDS for t in ("farm", "points") for o in (False, True)], samples=25)
def mirrors(w, kind, n, to, ones):
    """The wake of the rotor and of each of its mirror images is added exactly once; positions are unchanged."""
    np = w.np
    c = setting(w, ones)
    hm = [0.0] if kind == "GroundMirror" else [w.real(f"mirror{i}", lo=0.0, hi=500.0) for i in range(n)]
    g = make(kind, hm)
    wm, pw = Wakes(w), Partial(w, "partial")
    A = {v: w.real("A_" + v, c.S, c.N, c.P) for v in wm.fs}
    B = {v: w.snap(a) for v, a in A.items()}
    txyh = w.snap(c.fd[FV.TXYH])
    src = pw if to == "farm" else wm
    if to == "farm":
        g.contribute_to_farm_wakes(c.algo, c.md, c.fd, c.td, c.oi, B, wm, pw)
    else:
        g.contribute_to_point_wakes(c.algo, c.md, c.fd, c.td, c.oi, B, wm)
    h = c.h[:, c.oi]
    for v in wm.fs:
        tot = A[v]
        for z in [h] + [2 * a - h for a in hm]:
            pos = np.stack([c.x[:, c.oi], c.y[:, c.oi], z], axis=-1)
            tot = tot + src.effect(v, c.pts - pos[:, None, None, :])
        w.eq(f"{v}: the wake and each mirrored wake, once", B[v], tot)
    w.eq("rotor positions unchanged", c.fd[FV.TXYH], txyh)
    w.eq("hub heights unchanged", c.fd[FV.H], c.h)
    w.eq("x unchanged", c.fd[FV.X], c.x)
    w.eq("y unchanged", c.fd[FV.Y], c.y)
    w.eq("target points unchanged", c.td[FC.TARGETS], c.pts)


@contract("P18", ["foxes.core.ground_model.GroundModel." + m for m in ("new_farm_wake_deltas", "finalize_farm_wakes", "new_point_wake_deltas", "finalize_point_wakes")],
          params=[k for k in KINDS if k["n"] < 2], samples=10)
def passed_on(w, kind, n):
    """Creation and final step of the wake effects are those of the (partial) wake model itself."""
    g = make(kind, [w.real("mirror0", lo=0.0, hi=500.0)])
    wm, pw = Wakes(w), Partial(w, "partial")
    a = [object() for _ in range(9)]
    algo, md, fd, td, amb, rw, wd, oi = a[:8]
    w.is_true("new farm wakes", g.new_farm_wake_deltas(algo, md, fd, td, wm, pw) == ("new partial deltas", algo, md, fd, td, wm))
    w.is_true("final farm wakes", g.finalize_farm_wakes(algo, md, fd, td, amb, rw, wd, wm, oi, pw) == ("final", algo, md, fd, td, amb, rw, wd, wm, oi))
    w.is_true("new point wakes", g.new_point_wake_deltas(algo, md, fd, td, wm) == ("new deltas", algo, md, fd, td))
    S, N, P = (w.dim(k) for k in "SNP")
    A = {v: w.real("A_" + v, S, N, P) for v in wm.fs}
    am = {v: w.real("amb_" + v, S, N, P) for v in wm.fs}
    B = {v: w.snap(x) for v, x in A.items()}
    g.finalize_point_wakes(algo, md, fd, am, B, wm)
    for v, f in wm.final.items():
        w.eq(f"final point wakes: {v}", B[v], f(am[v], A[v]))


@contract("P18", [GM + "wake_mirror.WakeMirror.contribute_to_farm_wakes", GM + "wake_mirror.WakeMirror.contribute_to_point_wakes"], params=dict(to=["farm", "points"]), samples=25)
def any_mirrors(w, to):
    """Any number of mirrors: the total effect is the running sum over the wake and its images, in order."""
    np = w.np
    c = setting(w)
    M = w.dim("M", lo=1)
    hm = w.real("mirror", M, lo=0.0, hi=500.0)
    wm, pw = Wakes(w), Partial(w, "partial")
    src = pw if to == "farm" else wm
    h = c.h[:, c.oi]

    def term(v, z):
        pos = np.stack([c.x[:, c.oi], c.y[:, c.oi], z], axis=-1)
        return src.effect(v, c.pts - pos[:, None, None, :])

    A = {v: w.real("A_" + v, c.S, c.N, c.P) for v in wm.fs}
    B = {v: w.snap(a) for v, a in A.items()}
    run = {}
    for v in wm.fs:
        first = A[v] + term(v, h)
        # ghost: running sums, defined by their recursion
        G = w.real("G_" + v, M + 1, c.S, c.N, c.P)
        if w.symbolic:
            w.assume(G[0] == first)
            z = 2 * hm[:, None] - h[None, :]
            pos = np.stack([c.x[:, c.oi] + 0 * z, c.y[:, c.oi] + 0 * z, z], axis=-1)
            w.assume(G[1:] == G[:-1] + src.effect(v, c.pts[None] - pos[:, :, None, None, :]))
        else:
            G[0] = first
            for k in range(M):
                G[k + 1] = G[k] + term(v, 2 * hm[k] - h)
        run[v] = G
    txyh = w.snap(c.fd[FV.TXYH])
    is_rotor = np.arange(c.T)[None, :] == c.oi

    def state(k):
        z = w.ite(w.ite(k > 0, is_rotor, w.Not(is_rotor) & is_rotor), 2 * hm[w.ite(k > 0, k - 1, 0)] - c.h, c.h)
        pos = np.stack([c.x, c.y, z], axis=-1)
        return [("rotor positions", lambda: c.fd[FV.TXYH], pos)] + [(f"effect {v}", lambda v=v: B[v], run[v][k]) for v in wm.fs]

    g = make("WakeMirror", w.seq("mirrors", M, lambda k: hm[k], state, containers=[c.fd, c.td, B]))
    if to == "farm":
        g.contribute_to_farm_wakes(c.algo, c.md, c.fd, c.td, c.oi, B, wm, pw)
    else:
        g.contribute_to_point_wakes(c.algo, c.md, c.fd, c.td, c.oi, B, wm)
    for v in wm.fs:
        w.eq(f"{v}: the wake and each mirrored wake, once", B[v], run[v][M])
    w.eq("rotor positions unchanged", c.fd[FV.TXYH], txyh)
    w.eq("hub heights unchanged", c.fd[FV.H], c.h)
    w.eq("target points unchanged", c.td[FC.TARGETS], c.pts)
