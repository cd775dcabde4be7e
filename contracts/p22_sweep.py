"""P22: every turbine feels the wakes of all turbines before it, each once."""

from dv.core import contract
from contracts.fix import NS, fdata, tdata, mdata
import foxes.constants as FC
import foxes.variables as FV

DW = "foxes.algorithms.downwind.models."
IT = "foxes.algorithms.iterative.models."


class Wakes:
    """The callees of the sweep: wake, partial wakes and ground models.

    The effect of a wake-causing turbine on a target point is an arbitrary function of the turbine's thrust and position
    and the target's position and rotor diameter; the final step is an arbitrary function of ambient value and accumulated effect."""

    affects_downwind = True

    def __init__(self, w, name, downwind=True):
        self.w, self.name, self.affects_downwind = w, name, downwind
        self.f = w.ufun("wake_" + name, lo=-1.0, hi=0.5)
        self.g = w.ufun("final_" + name, lo=-1.0, hi=0.5)
        self.wdeltas, self.created = None, 0

    # partial wakes
    def get_wake_points(self, algo, mdata, fdata):
        return algo.points, algo.weights

    # ground model, farm
    def new_farm_wake_deltas(self, algo, mdata, fdata, tdata, wmodel, pwake):
        self.created += 1
        self.wdeltas = {FV.WS: self.w.np.zeros((tdata.n_states, tdata.n_targets, tdata.n_tpoints))}
        return self.wdeltas

    new_wake_deltas = lambda self, algo, mdata, fdata, tdata, wmodel: self.new_farm_wake_deltas(algo, mdata, fdata, tdata, wmodel, self)

    def contribute_to_farm_wakes(self, algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel, pwake):
        t = tdata[FC.TARGETS]
        c, x = fdata[FV.CT][:, downwind_index][:, None, None], fdata[FV.X][:, downwind_index][:, None, None]
        wake_deltas[FV.WS] += self.f(c, x, t[..., 0], tdata[FV.D])

    def finalize_farm_wakes(self, algo, mdata, fdata, tdata, amb_res, rpoint_weights, wake_deltas, wmodel, downwind_index, pwake):
        return {FV.WS: self.g(amb_res[FV.WS][:, downwind_index], wake_deltas[FV.WS][:, downwind_index])}

    # ground model, points
    def new_point_wake_deltas(self, algo, mdata, fdata, tdata, wmodel):
        return self.new_farm_wake_deltas(algo, mdata, fdata, tdata, wmodel, self)

    def contribute_to_point_wakes(self, algo, mdata, fdata, tdata, downwind_index, wake_deltas, wmodel):
        t = tdata[FC.TARGETS]
        c, x = fdata[FV.CT][:, downwind_index][:, None, None], fdata[FV.X][:, downwind_index][:, None, None]
        wake_deltas[FV.WS] += self.f(c, x, t[..., 0], 0.0 * t[..., 0])

    def finalize_point_wakes(self, algo, mdata, fdata, amb_results, wake_deltas, wmodel):
        wake_deltas[FV.WS] = self.g(amb_results[FV.WS], wake_deltas[FV.WS])


class Rotor:
    """Rotor evaluation: the weighted mean of an arbitrary function of the results at the rotor points."""

    def __init__(self, w):
        self.q = w.ufun("rotor", lo=0.0, hi=20.0)

    def output_farm_vars(self, algo):
        return [FV.REWS]

    def eval_rpoint_results(self, algo, mdata, fdata, tdata, rpoint_weights, downwind_index=None):
        np = algo.w.np
        r = np.einsum("stp,p->st", self.q(tdata[FV.WS], tdata[FV.WEIGHT]), rpoint_weights)
        if downwind_index is None:
            fdata[FV.REWS] = r
        else:
            fdata[FV.REWS][:, downwind_index] = r[:, 0] if r.shape[1] == 1 else r[:, downwind_index]


class Controller:
    """Turbine models: the thrust is an arbitrary function of the inflow."""

    def __init__(self, w):
        self.h = w.ufun("thrust", lo=0.0, hi=0.9)

    def output_farm_vars(self, algo):
        return [FV.CT]

    def calculate(self, algo, mdata, fdata, pre_rotor, downwind_index=None):
        if downwind_index is None:
            fdata[FV.CT] = self.h(fdata[FV.REWS])
        else:
            fdata[FV.CT][:, downwind_index] = self.h(fdata[FV.REWS][:, downwind_index])
        return {FV.CT: fdata[FV.CT]}


def setting(w, models, down):
    S, T, P = w.dim("S", lo=2), w.dim("T", lo=2), w.dim("P", lo=2)
    c = NS(S=S, T=T, P=P)
    c.x, c.dia = w.real("x", S, T), w.real("D", S, T, gt=0.0, hi=200.0)
    c.R0, c.C0 = w.real("rews0", S, T, lo=0.0, hi=20.0), w.real("ct0", S, T, lo=0.0, hi=0.9)
    c.fd = fdata(w, S, T, X=w.snap(c.x), D=w.snap(c.dia), REWS=w.snap(c.R0), CT=w.snap(c.C0))
    c.md = mdata(w, S)
    c.md.add("turbines", w.np.zeros((S, T)), (FC.STATE, FC.TURBINE))
    c.amb, c.wgt = w.real("amb", S, T, P, lo=0.0, hi=20.0), w.real("state_weight", S, T, P, lo=0.0, hi=1.0)
    c.pts, c.tw, c.rw = w.real("points", S, T, P, 3), w.weights("tw", P), w.weights("rw", P)
    c.wm = {f"w{i}": Wakes(w, f"w{i}", down) for i in range(models)}
    c.store = {FC.ROTOR_WEIGHTS: c.rw, FC.AMB_ROTOR_RES: {FV.WS: w.snap(c.amb)}, FC.WEIGHT_RES: c.wgt}
    c.ctrl = Controller(w)
    c.algo = NS(w=w, name="algo", points=c.pts, weights=c.tw, rotor_model=Rotor(w), farm_controller=c.ctrl, wake_models=c.wm, partial_wakes=c.wm, ground_models=c.wm,
                get_from_chunk_store=lambda name, mdata=None, **k: c.store[name], n_turbines=T, n_states=S,
                store_model_data=lambda *a, **k: None, get_model_data=lambda *a, **k: {}, store_chunk=None, verbosity=0)
    return c


def ghost_sweep(w, c, m, i, before, R, C, down):
    """Ghosts of one sweep, by their recursion: accumulated effect E[k] after k wakes, the wind speed V at each turbine when it is evaluated,
    the inflow and thrust then."""
    np = w.np
    S, T, P = c.S, c.T, c.P
    tt = np.arange(T)
    turb = lambda k: k if down else T - 1 - k  # the k-th turbine of the sweep
    first = (tt == turb(0))[None, :]
    dd = c.dia[:, :, None]

    def term(k, C1):
        oi = turb(k)
        hit = (tt > oi if down else tt < oi)[None, :, None]
        return w.ite(hit, m.f(C1[:, oi][:, None, None], c.x[:, oi][:, None, None], c.pts[..., 0], dd), 0.0)

    if w.symbolic:
        E = w.real(f"E{i}", T + 1, S, T, P)
        V, R1, C1 = w.real(f"V{i}", S, T, P), w.real(f"R{i}", S, T), w.real(f"C{i}", S, T)
        w.assume(E[0] == 0.0)
        ks = np.arange(T)
        oi = ks if down else T - 1 - ks
        hit = (tt[None, :] > oi[:, None] if down else tt[None, :] < oi[:, None])[:, None, :, None]
        ct, xx = np.swapaxes(C1[:, oi], 0, 1)[:, :, None, None], np.swapaxes(c.x[:, oi], 0, 1)[:, :, None, None]
        w.assume(E[1:] == E[:-1] + w.ite(hit, m.f(ct, xx, c.pts[None, ..., 0], dd[None]), 0.0))
        pos = tt if down else T - 1 - tt  # place of turbine t in the sweep
        Et = E[pos[None, :, None], np.arange(S)[:, None, None], tt[None, :, None], np.arange(P)[None, None, :]]
        f3 = first[:, :, None]
        w.assume(V == w.ite(f3, before, before + m.g(c.amb, Et)))
        w.assume(R1 == w.ite(first, R, np.einsum("stp,p->st", c.algo.rotor_model.q(V, c.wgt), c.rw)))
        w.assume(C1 == w.ite(first, C, c.ctrl.h(R1)))
    else:
        E, V, R1, C1 = np.zeros((T + 1, S, T, P)), before.copy(), R.copy(), C.copy()
        for k in range(T):
            t = turb(k)
            if k > 0:
                V[:, t] = before[:, t] + m.g(c.amb[:, t], E[k][:, t])
                R1[:, t] = np.einsum("sp,p->s", c.algo.rotor_model.q(V[:, t], c.wgt[:, t]), c.rw)
                C1[:, t] = c.ctrl.h(R1[:, t])
            E[k + 1] = E[k] + term(k, C1)
    return E, V, R1, C1


@contract("P22", [DW + "farm_wakes_calc.FarmWakesCalculation.calculate"], params=dict(models=[1, 2], down=[True, False]), samples=40)
def downwind_sweep(w, models, down):
    """In each sweep every turbine is evaluated once, from the ambient values and the effects of all turbines before it, which were
    added once each with the thrust found in this sweep; other turbines' values and the ambient results stay."""
    from foxes.algorithms.downwind.models import FarmWakesCalculation

    np = w.np
    c = setting(w, models, down)
    T = c.T
    amb_in, amb0, wake_res = tracked(w, c)
    before, R, C = c.amb, c.R0, c.C0
    tt = np.arange(T)
    for i, m in enumerate(c.wm.values()):
        E, V, R1, C1 = ghost_sweep(w, c, m, i, before, R, C, down)

        def state(k, m=m, E=E, V=V, R1=R1, C1=C1, before=before, R=R, C=C):
            done = ((tt < k) if down else (tt > T - 1 - k))[None, :]
            r = [("wind speed", lambda: wake_res[0], w.ite(done[:, :, None], V, before))] if wake_res else []
            r += [("inflow", lambda: c.fd[FV.REWS], w.ite(done, R1, R)), ("thrust", lambda: c.fd[FV.CT], w.ite(done, C1, C)), ("effects", lambda: m.wdeltas[FV.WS], E[k])]
            return r

        w.loop(f"sweep{i}", T, state, containers=[c.fd, c.store, m.__dict__])
        before, R, C = V, R1, C1
    out = FarmWakesCalculation().calculate(c.algo, c.md, c.fd)
    w.is_true("outputs", set(out) == {FV.REWS, FV.CT})
    w.eq("inflow of each turbine", out[FV.REWS], R)
    w.eq("thrust of each turbine", out[FV.CT], C)
    w.eq("ambient results unchanged", amb_in, amb0)
    for m in c.wm.values():
        w.is_true("effects created once", m.created == 1)

    w.eq("positions unchanged", c.fd[FV.X], c.x)
    w.eq("diameters unchanged", c.fd[FV.D], c.dia)


def tracked(w, c):
    """The ambient results handed to the model, and the model's working copy of them."""
    amb_in, res = c.store[FC.AMB_ROTOR_RES][FV.WS], []
    if w.symbolic:
        amb_in.on_copy = lambda a: (res.append(a), setattr(a, "on_copy", None))
    return amb_in, c.amb, res


@contract("P22", [IT + "farm_wakes_calc.FarmWakesCalculation.calculate"], params=dict(models=[1, 2]), samples=40)
def iterative_sweep(w, models):
    """Every turbine receives the effect of every other turbine once, with the thrust of the previous iteration, and is then evaluated once."""
    from foxes.algorithms.iterative.models import FarmWakesCalculation

    np = w.np
    c = setting(w, models, True)
    T, S, P = c.T, c.S, c.P
    amb_in, amb0, wake_res = tracked(w, c)
    tt, dd = np.arange(T), c.dia[:, :, None]
    before, ends = c.amb, {}
    for i, (n, m) in enumerate(c.wm.items()):
        if w.symbolic:
            E = w.real(f"E{i}", T + 1, S, T, P)
            w.assume(E[0] == 0.0)
            other = (tt[None, :] != tt[:, None])[:, None, :, None]
            ct, xx = (np.swapaxes(a, 0, 1)[:, :, None, None] for a in (c.C0, c.x))
            w.assume(E[1:] == E[:-1] + w.ite(other, m.f(ct, xx, c.pts[None, ..., 0], dd[None]), 0.0))
        else:
            E = np.zeros((T + 1, S, T, P))
            for k in range(T):
                E[k + 1] = E[k] + np.where((tt != k)[None, :, None], m.f(c.C0[:, k][:, None, None], c.x[:, k][:, None, None], c.pts[..., 0], dd), 0.0)
        V = before + m.g(c.amb, E[T])
        ends[n] = E[T]

        def state1(k, m=m, E=E, before=before):
            return ([("wind speed", lambda: wake_res[0], before)] if wake_res else []) + [("effects", lambda: m.wdeltas[FV.WS], E[k])]

        def state2(k, m=m, E=E, before=before, V=V):
            return ([("wind speed", lambda: wake_res[0], w.ite((tt < k)[None, :, None], V, before))] if wake_res else []) + [("effects", lambda: m.wdeltas[FV.WS], E[T])]

        w.loop(f"contributions{i}", T, state1, containers=[c.fd, c.store, m.__dict__])
        w.loop(f"final{i}", T, state2, containers=[c.fd, c.store, m.__dict__])
        before = V
    out = FarmWakesCalculation().calculate(c.algo, c.md, c.fd)
    R = np.einsum("stp,p->st", c.algo.rotor_model.q(before, c.wgt), c.rw)
    w.is_true("outputs", set(out) == {FV.REWS, FV.CT})
    w.eq("inflow of each turbine", out[FV.REWS], R)
    w.eq("thrust of each turbine", out[FV.CT], c.ctrl.h(R))
    w.eq("ambient results unchanged", amb_in, amb0)
    for n, m in c.wm.items():
        w.is_true("effects created once", m.created == 1)
        w.eq("each wake once", m.wdeltas[FV.WS], ends[n])
    w.eq("positions unchanged", c.fd[FV.X], c.x)


@contract("P22", [DW + "point_wakes_calc.PointWakesCalculation." + m for m in ("calculate", "output_point_vars", "initialize")], params=dict(models=[0, 1, 2], given=[False, True], one=[False, True]), samples=30)
def point_wakes(w, models, given, one):
    """Point results are the ambient values plus, for each wake model, the effects of all turbines (or of the chosen one), each once; other
    variables, the ambient values during the evaluation and the turbines stay unchanged."""
    from foxes.algorithms.downwind.models import PointWakesCalculation

    np = w.np
    c = setting(w, models, True)
    T, S = c.T, c.S
    N = w.dim("N", lo=2)
    pts, amb, wd, tke = w.real("pts", S, N, 1, 3), w.real("ambient", S, N, 1, lo=0.0, hi=20.0), w.real("wd", S, N, 1, lo=0.0, hi=360.0), w.real("tke", S, N, 1)
    td = tdata(w, pts, w.weights("tw1", 1), WS=w.snap(amb), WD=w.snap(wd))
    c.algo.states = NS(output_point_vars=lambda algo: [FV.WS, FV.WD])
    m0 = PointWakesCalculation(wake_models=list(c.wm.values()) if given else None)
    if given:
        c.algo.wake_models = dict(c.wm, other=Wakes(w, "other"))
        c.algo.ground_models = c.algo.wake_models
    m0.initialize(c.algo, 0)
    oi = w.integer("oi", lo=0, lt=T) if one else None
    want = amb
    zero = 0.0 * pts[..., 0]
    ends = {}
    for i, (n, m) in enumerate(c.wm.items()):
        if one:
            ends[n] = m.f(c.C0[:, oi][:, None, None], c.x[:, oi][:, None, None], pts[..., 0], zero)
        elif w.symbolic:
            E = w.real(f"E{i}", T + 1, S, N, 1)
            w.assume(E[0] == 0.0)
            ct, xx = (np.swapaxes(a, 0, 1)[:, :, None, None] for a in (c.C0, c.x))
            w.assume(E[1:] == E[:-1] + m.f(ct, xx, pts[None, ..., 0], zero[None]))
            ends[n] = E[T]
        else:
            E = np.zeros((T + 1, S, N, 1))
            for k in range(T):
                E[k + 1] = E[k] + m.f(c.C0[:, k][:, None, None], c.x[:, k][:, None, None], pts[..., 0], zero)
            ends[n] = E[T]
        if not one:
            w.loop(f"turbines{i}", T, lambda k, m=m, E=E: [("effects", lambda: m.wdeltas[FV.WS], E[k])], containers=[c.fd, td, m.__dict__])
        want = want + m.g(amb, ends[n])
    out = m0.calculate(c.algo, c.md, c.fd, td, downwind_index=oi)
    w.is_true("variables", set(out) == {FV.WS, FV.WD})
    w.eq("wind speed", out[FV.WS], want)
    w.eq("stored wind speed", td[FV.WS], want)
    w.eq("other variables", out[FV.WD], wd)
    w.eq("points unchanged", td[FC.TARGETS], pts)
    for v, a in (("X", c.x), ("CT", c.C0), ("REWS", c.R0)):
        w.eq(f"turbine {v} unchanged", c.fd[getattr(FV, v)], a)
    for m in c.wm.values():
        w.is_true("effects created once", m.created == 1)
