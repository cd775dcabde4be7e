"""P15: looking up a variable returns the values of the first source that holds it, entry by entry."""

from dv.core import contract
from contracts.fix import NS
import foxes.constants as FC
import foxes.variables as FV

MODEL = "foxes.core.model.Model.get_data"
DIMS = {"turbine": (FC.STATE, FC.TURBINE), "target": (FC.STATE, FC.TARGET), "tpoint": (FC.STATE, FC.TARGET, FC.TPOINT)}
TARGETS = {"turbine": FC.STATE_TURBINE, "target": FC.STATE_TARGET, "tpoint": FC.STATE_TARGET_TPOINT}


class Sources:
    """The four data sources, each holding variable "v" in the given form (or not at all)."""

    def __init__(self, w, target, s=None, m=None, f=False, t=None, index=None, sizes=None):
        from foxes.core import FData, MData, TData
        from foxes.core.model import Model

        np = w.np
        self.w, self.target = w, target
        self.S, self.T, self.N, self.P = sizes if sizes else (w.dim("S", lo=2), w.dim("T", lo=2), w.dim("N", lo=2), w.dim("P", lo=2))
        S, T, N, P = self.S, self.T, self.N, self.P
        size = {FC.STATE: S, FC.TURBINE: T, FC.TARGET: N, FC.TPOINT: P}
        self.dims = DIMS[target]
        self.shp = tuple(size[d] for d in self.dims)
        self.index = w.integer("downwind_index", lo=0, lt=T) if index else None
        self.data = {}

        model = type("SomeModel", (Model,), dict(output_farm_vars=lambda self, algo: []))()
        if s is not None:
            shape = {"none": None, "scalar": (), "state": (S,), "column": (S,) + (1,) * (len(self.shp) - 1), "full": self.shp}[s]
            a = None if s == "none" else 3.25 if s == "scalar" else w.real("v_self", *shape) if s != "column" else w.real("v_self", S).reshape(S, *shape[1:])
            model.v = a if s in ("none", "scalar") else w.snap(a)
            self.data["s"] = a
        self.model = model

        md, dd = {FC.STATE: np.arange(S)}, {FC.STATE: (FC.STATE,)}
        if m is not None:
            dd["v"] = {"state": (FC.STATE,), "turbine": (FC.STATE, FC.TURBINE), "only turbine": (FC.TURBINE,), "full": self.dims, "other": ("foo",)}[m]
            self.data["m"] = w.real("v_mdata", *[size.get(d, P) for d in dd["v"]])
            md["v"] = w.snap(self.data["m"])
        self.mdata = MData(md, dd, loop_dims=[FC.STATE], states_i0=0)

        self.x = w.real("x", S, T)
        fd, dd = {FV.X: w.snap(self.x)}, {FV.X: (FC.STATE, FC.TURBINE)}
        if f:
            self.data["f"] = w.real("v_fdata", S, T)
            fd["v"], dd["v"] = w.snap(self.data["f"]), (FC.STATE, FC.TURBINE)
        self.fdata = FData(fd, dd, loop_dims=[FC.STATE])

        td, dd = {}, {}
        if t is not None:
            self.data["t"] = w.real("v_tdata", S, N, P) if t == "full" else w.real("v_tdata", S, N).reshape(S, N, 1)
            td["v"], dd["v"] = w.snap(self.data["t"]), DIMS["tpoint"]
        self.tdata = None if target == "turbine" else TData.from_tpoints(w.real("points", S, N, P, 3), w.weights("tw", P), data=td, dims=dd)
        self.forms = dict(s=s, m=m, f=f, t=t)

        from foxes.models.wake_frames import RotorWD

        self.algo = NS(name="algo", wake_frame=RotorWD(), n_turbines=T)

    def up(self, a):
        """a brought to the number of dimensions of the target"""
        return a if isinstance(a, float) else a[(Ellipsis,) + (None,) * (len(self.dims) - len(a.shape))]

    def value(self, lookup):
        """The value by specification, None if no source holds it in a fitting form."""
        d, i, near = self.data, self.index, self.target != "turbine"
        for s in lookup:
            form = self.forms.get(s)
            if s == "s" and form not in (None, "none"):
                return self.up(d["s"])
            if s == "m" and form is not None:
                if form in ("state", "full"):
                    return self.up(d["m"])
                if form == "turbine" and i is not None:
                    return self.up(d["m"][:, i])
                if form == "turbine" and not near:
                    return d["m"]
                if form == "only turbine" and i is not None:
                    return self.w.np.zeros((1,) * len(self.dims)) + d["m"][i]
            if s == "f" and self.forms["f"]:
                if not near:
                    return d["f"]
                if i is not None:
                    return self.up(d["f"][:, i])
            if s == "t" and form is not None and self.target == "tpoint":
                return d["t"]
            if s == "w" and self.forms["f"] and near and i is not None:
                return self.up(d["f"][:, i])
        return None

    def get(self, lookup, **kw):
        return self.model.get_data("v", TARGETS[self.target], lookup=lookup, mdata=self.mdata, fdata=self.fdata, tdata=self.tdata, downwind_index=self.index, algo=self.algo, **kw)

    def unchanged(self):
        w, src = self.w, dict(m=self.mdata, f=self.fdata, t=self.tdata)
        for s, a in self.data.items():
            if not isinstance(a, float) and a is not None and (s == "s" or src[s] is not None):
                w.eq(f"source {s} unchanged", self.model.v if s == "s" else src[s]["v"], a)
        w.eq("other data unchanged", self.fdata[FV.X], self.x)


CASES = {
    "self scalar": dict(s="scalar", m="state", f=True, t="full"),
    "self states": dict(s="state", f=True),
    "self column": dict(s="column", f=True, t="full"),
    "self all": dict(s="full", m="full", f=True),
    "self None": dict(s="none", m="state", f=True, t="full"),
    "model states": dict(m="state", f=True),
    "model turbines": dict(m="turbine", f=True),
    "model only turbines": dict(m="only turbine", f=True, t="full"),
    "model all": dict(m="full", f=True, t="full"),
    "model other": dict(m="other", f=True, t="full"),
    "farm": dict(f=True),
    "points": dict(t="full"),
    "points column": dict(f=True, t="column"),
    "none": dict(),
}


@contract("P15", [MODEL, "foxes.core.wake_frame.WakeFrame.get_wake_modelling_data"],
          params=dict(target=["turbine", "target", "tpoint", "target of turbine", "tpoint of turbine"], case=list(CASES)), samples=6)
def lookup_order(w, target, case):
    """The first source in lookup order that holds the variable in a fitting form provides the values; without any an error, or None if that is accepted."""
    c = Sources(w, target.split()[0], index=target.endswith("of turbine"), **CASES[case])
    zero = w.np.zeros(c.shp)
    for order in ("smfp", "s", "m", "f", "t", "w", "ws", "sf", "fs", "wfs", "tmfsw", "msw", "fmts"):
        want = c.value(order)
        if want is None:
            w.raises(f"{order}: not found", ValueError, lambda: c.get(order))
            w.is_true(f"{order}: None accepted", c.get(order, accept_none=True) is None)
            continue
        got = c.get(order)
        w.is_true(f"{order}: dimensions", len(got.shape) == len(c.shp))
        w.eq(f"{order}: values", got + zero, want + zero)
        up = c.get(order, upcast=True)
        w.is_true(f"{order}: upcast shape", tuple(up.shape) == tuple(c.shp))
        w.eq(f"{order}: upcast values", up, want + zero)
    c.unchanged()


SELECTIONS = ("mask", "mask of states", "tuple", "tuple of states", "tuple all")


@contract("P15", [MODEL], params=dict(target=["turbine", "target of turbine", "tpoint of turbine"], source=["scalar", "state", "full"], sel=list(SELECTIONS), upcast=[False, True]), samples=12)
def selected(w, target, source, sel, upcast):
    """A selection picks the same entries as it would from the full array of requested dimensions, whatever the dimensions of the stored data."""
    np = w.np
    c = Sources(w, target.split()[0], index=target.endswith("of turbine"), s=source, f=True)
    S, n = c.S, len(c.shp)
    if sel == "mask":
        s = w.boolean("sel", *c.shp[:2])
    elif sel == "mask of states":
        s = w.boolean("sel", S)
    elif sel == "tuple":
        K = w.dim("K")
        s = (w.integer("i", K, lo=0, lt=S), w.integer("j", K, lo=0, lt=c.shp[1]))
    elif sel == "tuple of states":
        s = (w.boolean("sel", S), slice(None))
    else:
        s = (slice(None), slice(None))
    for order in ("s", "w") if n == 2 and target == "target of turbine" or n == 3 else ("s", "f"):
        full = c.value(order) + np.zeros(c.shp)
        e = full[s]
        got = c.get(order, selection=s, upcast=upcast)
        if upcast:
            w.is_true(f"{order}: shape", len(got.shape) == len(e.shape) if w.symbolic else got.shape == e.shape)
        w.eq(f"{order}: selected values", got if upcast else got + 0.0 * e, e)
    c.unchanged()


@contract("P15", [MODEL], params=dict(case=["target turbine, index", "unknown target", "too many dimensions", "wrong size of self", "wrong size of states", "wrong size of model data", "missing values"]), samples=10)
def rejected(w, case):
    """Requests and data that do not fit together are errors, not silently broadcast."""
    np = w.np
    near = case.startswith("wrong")
    c = Sources(w, "target" if near else "turbine", s="scalar" if near else "full", m="full", f=True, index=not near and "index" in case, sizes=tuple(w.dim(n, lo=3) for n in "STNP"))
    get = lambda t, **k: c.model.get_data("v", t, **dict(dict(lookup="smf", mdata=c.mdata, fdata=c.fdata, tdata=c.tdata, algo=c.algo), **k))
    if case == "target turbine, index":
        w.raises("index with turbine target", ValueError, lambda: get(FC.STATE_TURBINE, downwind_index=c.index))
    elif case == "unknown target":
        w.raises("unknown target", KeyError, lambda: get("turbines"))
    elif case == "too many dimensions":
        c.model.v = np.zeros((c.S, c.T, 2))
        w.raises("too many dimensions", ValueError, lambda: get(FC.STATE_TURBINE))
    elif case == "wrong size of self":
        c.model.v = np.zeros((c.S, c.N + 1))
        w.raises("wrong size", ValueError, lambda: get(FC.STATE_TARGET))
    elif case == "wrong size of states":
        c.model.v = np.zeros((c.S + 1,))
        w.raises("wrong size", ValueError, lambda: get(FC.STATE_TARGET))
    elif case == "missing values":
        c.model.v = np.full(c.shp, np.nan)
        w.raises("no values", ValueError, lambda: get(FC.STATE_TURBINE, accept_nan=False))
        w.is_true("accepted", get(FC.STATE_TURBINE) is not None)
        some = w.real("some", *c.shp)
        c.model.v = some
        w.eq("values", get(FC.STATE_TURBINE, accept_nan=False), some)
    else:
        c.model.v = None
        c.mdata["v"] = np.zeros((c.S, c.N + 1))
        w.raises("wrong size", ValueError, lambda: get(FC.STATE_TARGET))


@contract("P15", [MODEL], params=dict(target=["target", "tpoint"], points=["one", "many"], algo=["chunks", "sequential", "first iteration"], case=["values", "wrong index", "no index"]), samples=30, max_paths=128)
def other_states(w, target, points, algo, case):
    """With wakes that originate from earlier states, each entry is the value of the wake-causing turbine in the state in which the wake
    originated: from the previous iteration before the chunk, else from the farm data of the chunk."""
    from foxes.algorithms.sequential import Sequential

    np = w.np
    seq = algo == "sequential"
    S = 1 if seq else w.dim("S", lo=2)
    P = w.dim("P", lo=2) if points == "many" else 1
    c = Sources(w, target, m=None, f=True, index=True, sizes=(S, w.dim("T", lo=2), w.dim("N", lo=2), P))
    I0 = w.integer("i0", lo=0, hi=5)
    M = I0 + w.dim("M")
    i, N = c.index, c.N
    sts = w.integer("sts", S, N, P, lo=0, lt=I0 + S)
    if points == "many":
        w.mean_within("tw", 0, I0 + S - 1)
    prev = w.real("previous", M, c.T)
    c.tdata[FC.STATE_SOURCE_ORDERI] = i
    c.tdata.add(FC.STATES_SEL, w.snap(sts), DIMS["tpoint"])
    c.fdata.add(FC.STATE, np.arange(S), (FC.STATE,))
    frd = dict(v=NS(to_numpy=lambda: prev)) if algo != "first iteration" else None
    if seq:
        a = type("Seq", (Sequential,), dict(__init__=lambda self: None, states=NS(counter=I0), farm_results_downwind=frd, wake_frame=c.algo.wake_frame, n_turbines=c.T, name="seq"))()
    else:
        a = NS(farm_results_downwind=frd, **c.algo.__dict__)
    from foxes.core import MData

    md = MData({FC.STATE: np.arange(S)}, {FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE], states_i0=I0)
    get = lambda i: c.model.get_data("v", TARGETS[target], lookup="w", mdata=md, fdata=c.fdata, tdata=c.tdata, downwind_index=i, algo=a)
    if case == "wrong index":
        return w.raises("other turbine", ValueError, lambda: get(w.ite(i == 0, 1, i - 1)))
    if case == "no index":
        c.model.v = 1.0
        return w.raises("no turbine", KeyError, lambda: c.model.get_data("v", TARGETS[target], lookup="s", mdata=md, fdata=c.fdata, tdata=c.tdata, downwind_index=None, algo=a))
    got = get(i)
    if target == "target":
        at = sts[:, :, 0] if points == 'one' else np.floor(np.einsum("stp,p->st", sts + 0.0, c.tdata[FC.TWEIGHTS]) + 0.5)
        at = at if points == 'one' else at.astype(int)
    else:
        at = sts
    w.is_true("shape", tuple(got.shape) == tuple(c.shp))
    f = c.data["f"]
    if not w.symbolic:
        e = np.zeros(c.shp)
        for ix in np.ndindex(*c.shp):
            s = at[ix]
            e[ix] = f[s - I0, i] if s >= I0 else prev[s, i] if frd is not None else f[ix[0], i]
        w.eq("values", got, e)
    else:
        def value(*ix):
            s = at[ix]
            now = f[np.minimum(np.maximum(s - I0, 0), S - 1), i]
            return got[ix] == w.ite(s >= I0, now, prev[np.minimum(np.maximum(s, 0), M - 1), i] if frd is not None else f[ix[0], i])

        w.forall("values", c.shp, value)
    c.unchanged()


@contract("P15", ["foxes.core.wake_model.WakeK." + m for m in ("__init__", "__call__", "repr", "is_kTI", "all_none", "use_amb_ti")],
          params=dict(kind=["k", "ka", "ka kb", "variable", "ka amb", "ka amb given", "ka given", "ka given other"], target=["target", "tpoint"], sel=[False, True]), samples=15)
def wake_growth(w, kind, target, sel):
    """The wake growth rate is the given constant, ka * TI + kb with the turbulence intensity of the wake-causing turbine (or the given one),
    or the turbine's own variable; nothing of one call remains for the next."""
    from foxes.core.wake_model import WakeK

    np = w.np
    c = Sources(w, target, index=True)
    S, T, i = c.S, c.T, c.index
    vals = {v: w.real(v, S, T, lo=0.0, hi=0.5) for v in ("TI", "AMB_TI", "K")}
    for v, a in vals.items():
        c.fdata.add(getattr(FV, v), w.snap(a), (FC.STATE, FC.TURBINE))
    k, ka, kb = (w.real(n, lo=0.0, hi=1.0) for n in ("k", "ka", "kb"))
    w.assume(ka > 0.0)
    given = w.real("given_ti", *c.shp, lo=0.0, hi=0.5)
    kw, call, want = dict(
        [("k", (dict(k=k), {}, k)), ("ka", (dict(ka=ka), {}, ka * vals["TI"])), ("ka kb", (dict(ka=ka, kb=kb), {}, ka * vals["TI"] + kb)), ("variable", ({}, {}, vals["K"])),
         ("ka amb", (dict(ka=ka, kb=kb, ti_var=FV.AMB_TI), dict(ti=given), ka * vals["AMB_TI"] + kb)),
         ("ka amb given", (dict(ka=ka, ti_var=FV.AMB_TI), dict(amb_ti=given), None)), ("ka given", (dict(ka=ka, kb=kb), dict(ti=given), None)),
         ("ka given other", (dict(ka=ka, kb=kb), dict(amb_ti=given), ka * vals["TI"] + kb))])[kind]
    if want is None:
        want = ka * given + (kb if kind == "ka given" else 0.0)
    elif kind != "k":
        want = c.up(want[:, i])
    want = want + np.zeros(c.shp)
    if kind == "k":
        w.raises("k and ka", ValueError, lambda: WakeK(k=k, ka=ka))
        w.raises("k and kb", ValueError, lambda: WakeK(k=k, kb=kb))
        w.raises("only kb", ValueError, lambda: WakeK(kb=kb))
        w.raises("ka=0 and kb", ValueError, lambda: WakeK(ka=0, kb=kb))
    m = WakeK(**kw)
    w.is_true("description", m.is_kTI == ("ka" in kw) and m.all_none == (not kw) and m.use_amb_ti == ("amb" in kind))
    s = w.boolean("sel", *c.shp[:2]) if sel else None
    get = lambda **k: m(TARGETS[target], algo=c.algo, fdata=c.fdata, tdata=c.tdata, downwind_index=i, selection=s, **k)
    w.raises("unknown keyword", TypeError, lambda: get(nothing=1))
    for n in ("first", "second"):
        r = get(**call)
        e = want[s] if sel else want
        w.eq(f"{n} call", r + 0.0 * e, e)
        w.is_true(f"{n} call leaves nothing", getattr(m, FV.K) is None)
    other = WakeK(**kw)
    w.eq("another object", other(TARGETS[target], algo=c.algo, fdata=c.fdata, tdata=c.tdata, downwind_index=i, **call) + np.zeros(c.shp), want)
    for v, a in vals.items():
        w.eq(f"{v} unchanged", c.fdata[getattr(FV, v)], a)
    w.eq("given unchanged", given, given)


@contract("P15", ["foxes.models.wake_frames.seq_dynamic_wakes.SeqDynamicWakes.get_wake_modelling_data"], params=dict(points=["one", "many"], case=["point", "target", "other turbine", "other target"]), samples=30)
def sequential_wake_data(w, points, case):
    """In sequential runs the data of the wake-causing turbine is that of the state in which the wake element left the turbine."""
    from foxes.models.wake_frames import SeqDynamicWakes

    np = w.np
    P = w.dim("P", lo=2) if points == "many" else 1
    c = Sources(w, "target" if case == "target" else "tpoint", f=True, index=True, sizes=(1, w.dim("T", lo=2), w.dim("N", lo=2), P))
    n = w.dim("M")
    counter = w.integer("counter", lo=0, lt=n)
    i, N = c.index, c.N
    sts = w.integer("sts", 1, N, P, lo=0, lt=counter + 1)
    prev = w.real("previous", n, c.T)
    stored = w.snap(prev)
    c.tdata[FC.STATE_SOURCE_ORDERI] = i
    c.tdata.add(FC.STATES_SEL, w.snap(sts), DIMS["tpoint"])
    algo = NS(counter=counter, farm_results_downwind=dict(v=NS(to_numpy=lambda: stored)))
    frame = SeqDynamicWakes()
    get = lambda i, t: frame.get_wake_modelling_data(algo, "v", i, c.fdata, c.tdata, t)
    if case == "other turbine":
        return w.raises("other turbine", ValueError, lambda: get(w.ite(i == 0, 1, i - 1), FC.STATE_TARGET_TPOINT))
    if case == "other target":
        return w.raises("other target", ValueError, lambda: get(i, FC.STATE_TURBINE))
    r = get(i, TARGETS[c.target])
    f = c.data["f"]
    e = np.where(sts[0] == counter, f[0, i], prev[sts[0], i])[None]
    if case == "target":
        e = e[:, :, 0] if points == "one" else np.einsum("stp,p->st", e, c.tdata[FC.TWEIGHTS])
    w.eq("values", r, e)
    w.eq("farm data unchanged", c.fdata["v"], f)
    if case == "point":
        w.eq("without index data: own state", SeqDynamicWakes().get_wake_modelling_data(algo, "v", i, c.fdata, Sources_tdata(w, c), FC.STATE_TARGET_TPOINT), f[:, i, None, None])


def Sources_tdata(w, c):
    from foxes.core import TData

    return TData.from_tpoints(w.real("points2", 1, c.N, c.P, 3), w.weights("tw2", c.P))
