"""P16: the state, turbine and point containers keep values, names and dimensions in step."""

from dv.core import contract
from contracts.fix import NS
import foxes.constants as FC
import foxes.variables as FV

DATA = "foxes.core.data."
ST, STP, PT = (FC.STATE, FC.TURBINE), (FC.STATE, FC.TARGET, FC.TPOINT), (FC.TPOINT,)


def one(n):
    return isinstance(n, int) and n == 1


class Box:
    """A container of the given kind with one entry per typical set of dimensions; columns: entries of size one along a dimension."""

    def __init__(self, w, kind, columns=True):
        from foxes.core import FData, MData, TData

        np = w.np
        self.w, self.kind = w, kind
        self.S, self.T, self.N, self.P, self.H = (w.dim(n, lo=2) for n in "STNPH")
        self.I0 = w.integer("i0", lo=0, hi=9)
        S, T, N, P, H = self.S, self.T, self.N, self.P, self.H
        self.size = {FC.STATE: S, FC.TURBINE: T, FC.TARGET: N, FC.TPOINT: P, "height": H, FC.XYH: 3}
        if kind == "mdata":
            spec = dict(state=(FC.STATE,), table=("height",), profile=(FC.STATE, "height"), other=("height", FC.STATE))
            sizes = {}
        elif kind == "fdata":
            spec = dict(a=ST, b=ST, vec=ST + (FC.XYH,))
            sizes = {"column": (S, 1)}
        else:
            spec = {FC.TARGETS: STP + (FC.XYH,), FC.TWEIGHTS: PT, "a": STP, "b": STP}
            sizes = {"column": (S, N, 1), "one target": (S, 1, P)}
        self.dims = dict(spec, **{n: {"column": ST if kind == "fdata" else STP, "one target": STP}[n] for n in (sizes if columns else ())})
        self.val, self.shape = {}, {}
        for n, d in self.dims.items():
            shp = sizes.get(n, tuple(self.size[c] for c in d))
            self.shape[n] = shp
            if n == FC.TWEIGHTS:
                self.val[n] = w.weights("tw", P)
            else:
                self.val[n] = w.real(n.replace(" ", "_"), *[x for x in shp if not one(x)]).reshape(shp)
        loop = {"mdata": [FC.STATE], "fdata": [FC.STATE], "tdata": [FC.STATE, FC.TARGET]}[kind]
        cls = {"mdata": MData, "fdata": FData, "tdata": TData}[kind]
        self.cls, self.loop = cls, loop
        self.make = lambda order=None, **k: cls({n: w.snap(self.val[n]) for n in (order or self.val)}, {n: self.dims[n] for n in self.val}, loop_dims=list(loop), states_i0=self.I0, **k)
        self.d = self.make()

    def check(self, d, val=None, dims=None, tag=""):
        w = self.w
        val, dims = val or self.val, dims or self.dims
        index = set(c for x in list(dims.values()) + list(self.dims.values()) for c in x)
        w.is_true(f"{tag}names", set(val) <= set(d.keys()) and set(d.keys()) - set(val) <= index)
        w.is_true(f"{tag}each name has dimensions", set(d.dims) == set(d.keys()))
        for n, a in val.items():
            w.is_true(f"{tag}dimensions of {n}", tuple(d.dims[n]) == tuple(dims[n]))
            w.eq(f"{tag}values of {n}", d[n], a)


@contract("P16", [DATA + c for c in ("Data.__init__", "Data._run_entry_checks", "Data._auto_update", "Data.add", "FData._run_entry_checks", "FData._auto_update", "TData._run_entry_checks", "TData._auto_update",
                                     "Data.n_states", "Data.n_turbines", "TData.n_targets", "TData.n_tpoints", "Data.states_i0", "TData.targets_i0")],
          params=dict(kind=["mdata", "fdata", "tdata"], order=["as listed", "reversed"]), samples=20)
def content(w, kind, order):
    """A container holds what was put in: values, dimensions, the size of each dimension and a counter for each dimension without labels."""
    np = w.np
    c = Box(w, kind)
    names = list(c.val)
    d = c.d
    if order == "reversed":
        first = [FC.TARGETS, FC.TWEIGHTS] if kind == "tdata" else [names[0]]
        d = c.make(first)
        for n in [n for n in reversed(names) if n not in first]:
            d.add(n, w.snap(c.val[n]), c.dims[n])
    c.check(d)
    used = set(x for y in c.dims.values() for x in y)
    w.is_true("sizes for all dimensions", set(d.sizes) == used)
    for x in used:
        w.ensure(f"size of {x}", d.sizes[x] == c.size[x])
        if x not in c.val:
            w.is_true(f"dimension of {x}", tuple(d.dims[x]) == (x,))
            w.eq(f"counter of {x}", d[x], np.arange(c.size[x]))
    w.ensure("number of states", d.n_states == c.S)
    w.ensure("state counter", d.states_i0(counter=True) == c.I0)
    w.ensure("first state", d.states_i0() == (c.val["state"][0] if kind == "mdata" else 0))
    if kind == "fdata":
        w.ensure("number of turbines", d.n_turbines == c.T)
    else:
        w.is_true("no turbines", d.n_turbines is None)
    if kind == "tdata":
        w.ensure("number of targets", d.n_targets == c.N)
        w.ensure("number of points", d.n_tpoints == c.P)
        w.ensure("first target", d.targets_i0() == 0)
        w.eq("mean over points", d.tpoint_mean("a"), np.einsum("stp,p->st", c.val["a"], c.val[FC.TWEIGHTS]))
        w.eq("mean over points of targets", d.tpoint_mean(FC.TARGETS), np.einsum("stpx,p->stx", c.val[FC.TARGETS], c.val[FC.TWEIGHTS]))


@contract("P16", [DATA + "Data.add", DATA + "Data._run_entry_checks"], params=dict(case=["states", "turbines", "height", "targets", "points", "missing dimension", "farm dims", "farm order", "farm short", "point dims", "point short", "weights", "targets dims",
                                                                                 "construct", "before targets", "more dimensions"]), samples=10)
def inconsistent(w, case):
    """Sizes that disagree along a shared dimension, and dimensions that do not fit the data, are rejected."""
    np = w.np
    kind = {"states": "mdata", "height": "mdata", "construct": "mdata", "more dimensions": "mdata", "missing dimension": "mdata", "turbines": "fdata", "farm dims": "fdata", "farm order": "fdata", "farm short": "fdata"}.get(case, "tdata")
    c = Box(w, kind, columns=False)
    d, S, T, N, P, H = c.d, c.S, c.T, c.N, c.P, c.H
    bad = {
        "states": lambda: d.add("x", np.zeros((S + 1, H)), (FC.STATE, "height")),
        "height": lambda: d.add("x", np.zeros((S, H + 1)), (FC.STATE, "height")),
        "turbines": lambda: d.add("x", np.zeros((S, T + 1)), ST),
        "targets": lambda: d.add("x", np.zeros((S, N + 1, P)), STP),
        "points": lambda: d.add("x", np.zeros((S, N, P + 1)), STP),
        "missing dimension": lambda: d.add("x", np.zeros((S, H)), (FC.STATE,)),
        "more dimensions": lambda: d.add("x", np.zeros((S,)), (FC.STATE, "height")),
        "farm dims": lambda: d.add("x", np.zeros((S, 3)), (FC.STATE, FC.XYH)),
        "farm order": lambda: d.add("x", np.zeros((T, S)), (FC.TURBINE, FC.STATE)),
        "farm short": lambda: d.add("x", np.zeros((S,)), (FC.STATE,)),
        "point dims": lambda: d.add("x", np.zeros((N, S, P)), (FC.TARGET, FC.STATE, FC.TPOINT)),
        "point short": lambda: d.add("x", np.zeros((S, N)), (FC.STATE, FC.TARGET)),
        "weights": lambda: d.add(FC.TWEIGHTS, np.zeros((P + 1,)), PT),
        "targets dims": lambda: d.add(FC.TARGETS, np.zeros((N, S, P, 3)), (FC.TARGET, FC.STATE, FC.TPOINT, FC.XYH)),
        "construct": lambda: c.cls({"x": np.zeros((S, H)), "y": np.zeros((S, H + 1))}, {"x": (FC.STATE, "height"), "y": (FC.STATE, "height")}, loop_dims=[FC.STATE]),
        "before targets": lambda: c.cls({"x": np.zeros((S, N, P))}, {"x": STP}, loop_dims=[FC.STATE, FC.TARGET]),
    }[case]
    w.raises("rejected", (ValueError, KeyError, IndexError), bad)


@contract("P16", [DATA + "Data._run_entry_checks"], params=dict(case=["state", "state and target", "target", "none"]), samples=10)
def extra_dimensions(w, case):
    """Loop dimensions of size one that an entry does not have are removed from its data."""
    from foxes.core.data import Data

    np = w.np
    S, N, P = w.dim("S", lo=2), w.dim("N", lo=2), w.dim("P", lo=2)
    x = w.real("x", *{"state": (P,), "state and target": (P,), "target": (S, P), "none": (N, P)}[case])
    shp = {"state": (1, P), "state and target": (1, 1, P), "target": (S, 1, P), "none": (1, N, P)}[case]
    dims = {"state": ("p",), "state and target": ("p",), "target": (FC.STATE, "p"), "none": (FC.TARGET, "p")}[case]
    d = Data({"x": x.reshape(shp)}, {"x": dims}, loop_dims=[FC.STATE, FC.TARGET])
    w.eq("values", d["x"], x)
    for n, s in zip(dims, x.shape):
        w.ensure(f"size of {n}", d.sizes[n] == s)


@contract("P16", [DATA + "Data._auto_update"], params=dict(way=["together", "one by one", "existing"]), samples=15)
def positions(w, way):
    """Positions x, y and height are stored once: as columns of one array, views of which are the single coordinates."""
    from foxes.core import FData

    np = w.np
    S, T = w.dim("S", lo=2), w.dim("T", lo=2)
    v = {n: w.real(n, S, T) for n in "XYH"}
    k = lambda n: getattr(FV, n)
    if way == "together":
        d = FData({k(n): w.snap(a) for n, a in v.items()}, {k(n): ST for n in v}, loop_dims=[FC.STATE])
    elif way == "one by one":
        d = FData({FV.D: w.real("D", S, T)}, {FV.D: ST}, loop_dims=[FC.STATE])
        for n, a in v.items():
            d.add(k(n), w.snap(a), ST)
    else:
        d = FData({FV.TXYH: np.stack([v["X"], v["Y"], v["H"]], axis=-1)}, {FV.TXYH: ST + (FC.XYH,)}, loop_dims=[FC.STATE])
    w.eq("positions", d[FV.TXYH], np.stack([v["X"], v["Y"], v["H"]], axis=-1))
    w.is_true("dimensions", tuple(d.dims[FV.TXYH]) == ST + (FC.XYH,))
    if way != "existing":
        new = w.real("new", S, T)
        d[FV.TXYH][..., 1] = new
        for n, a in dict(v, Y=new).items():
            w.eq(n, d[k(n)], a)
        d[k("H")][:] = 2.0
        w.eq("height through the column", d[FV.TXYH][..., 2], 2.0 + np.zeros((S, T)))


def a_slice(w, how, n, name):
    np = w.np
    if how in ("range", "first", "last"):
        j = w.integer(f"{name}_j", lo=1, lt=n + 1)
        i = w.integer(f"{name}_i", lo=0, lt=n if how == "last" else j)
        return {"range": slice(i, j), "first": slice(None, j), "last": slice(i, None)}[how]
    return {"all": lambda: slice(None), "one": lambda: (lambda i: slice(i, i + 1))(w.integer(f"{name}_i", lo=0, lt=n))}[how]()


@contract("P16", [DATA + "Data.get_slice", "foxes.core.data.Data.states_i0"], params=dict(kind=["mdata", "fdata", "tdata"], along=["states", "second", "both"], how=["range", "first", "last", "all", "one"]), samples=25)
def slices(w, kind, along, how):
    """A slice holds exactly the selected entries of the variables with the sliced dimensions and everything else as it is."""
    np = w.np
    c = Box(w, kind)
    second = {"mdata": "height", "fdata": FC.TURBINE, "tdata": FC.TARGET}[kind]
    on = {"states": [FC.STATE], "second": [second], "both": [FC.STATE, second]}[along]
    s = {n: a_slice(w, how, c.size[n], n) for n in on}
    r = c.d.get_slice(on if len(on) > 1 else on[0], [s[n] for n in on] if len(on) > 1 else s[on[0]], name="part")
    w.is_true("type", type(r) is c.cls and r.name == "part" and list(r.loop_dims) == c.loop)
    def part(a, dims):
        return a[tuple(s[n] if n in s and not one(a.shape[i]) else slice(None) for i, n in enumerate(dims))]

    want = {n: part(a, c.dims[n]) for n, a in c.val.items()}
    c.check(r, want)
    for n in set(x for y in c.dims.values() for x in y):
        e = part(np.arange(c.size[n]), (n,))
        w.ensure(f"size of {n}", r.sizes[n] == e.shape[0])
        if n not in c.val:
            w.eq(f"labels of {n}", r[n], e)
    if FC.STATE in on:
        w.ensure("state counter", r.states_i0(counter=True) == c.I0 + np.arange(c.S)[s[FC.STATE]][0])
    c.check(c.d, tag="original ")
    r2 = c.d.get_slice([], [])
    c.check(r2, tag="unsliced ")


@contract("P16", [DATA + "Data.get_slice"], samples=20)
def renamed(w):
    """Dimensions are renamed as requested."""
    c = Box(w, "mdata")
    s = a_slice(w, "range", c.S, "s")
    r = c.d.get_slice([FC.STATE], [s], dim_map={"height": "level"})
    c.check(r, {n: a[tuple(s if x == FC.STATE else slice(None) for x in c.dims[n])] for n, a in c.val.items()}, {n: tuple("level" if x == "height" else x for x in d) for n, d in c.dims.items()})


@contract("P16", [DATA + c for c in ("Data.from_dataset", "FData.from_dataset", "TData.from_dataset")],
          params=dict(what=["mdata", "fdata", "fdata with mdata", "tdata", "tdata with mdata", "tdata of targets", "tdata of targets with mdata"], states=["all", "chunk"], labels=[False, True], copy=[False, True]), samples=6)
def from_dataset(w, what, states, labels, copy):
    """A container made for a chunk of a data set holds exactly the chunk's part of each variable, and a copy of it if requested."""
    from foxes.core import MData

    np = w.np
    kind, mdata, targets = what.split()[0], "with mdata" in what, "chunk" if "of targets" in what else "all"
    c = Box(w, kind, columns=False)
    data, coords = dict(c.val), {}
    if labels:
        coords[FC.STATE] = w.real("labels", c.S)
        if kind == "tdata":
            coords[FC.TARGET] = w.real("target_labels", c.N)
    if kind == "mdata":
        coords["height"] = w.real("heights", c.H)
        data[FV.WEIGHT] = w.real("weight", c.S)
        c.dims[FV.WEIGHT] = (FC.STATE,)
        coords.setdefault(FC.STATE, data["state"]) if "state" in data and labels else None
        data.pop("state")
    s = a_slice(w, "range", c.S, "s") if states == "chunk" else None
    t = a_slice(w, "range", c.N, "t") if targets == "chunk" else None
    ds = w.dataset(coords, {n: (c.dims[n], a) for n, a in data.items() if n != "other"})
    kw = dict(s_states=s, loop_dims=list(c.loop), states_i0=c.I0, copy=copy)
    chunk = lambda a: a if s is None else a[s]
    more = w.real("more", c.S)
    nS = chunk(more).shape[0]
    calls = []

    def callback(dd, dm):
        calls.append(1)
        if kind == "fdata":
            dd["added"] = np.zeros((nS, c.T))
            dm["added"] = ST

    if mdata:
        # the states of the chunk come with the model data
        md = MData({FC.STATE: chunk(more)}, {FC.STATE: (FC.STATE,)}, loop_dims=[FC.STATE])
        kw.update(mdata=md)
    if kind == "tdata" and targets == "chunk":
        kw["s_targets"] = t
    r = c.cls.from_dataset(ds, callback=callback, **kw)
    w.is_true("callback", len(calls) == 1)
    want, dims = {}, {}
    for n, a in list(coords.items()) + [(n, a) for n, a in data.items() if n != "other"]:
        d = (n,) if n in coords else c.dims[n]
        if d and d[0] == FC.STATE:
            a = chunk(a)
        if t is not None and FC.TARGET in d:
            a = a[t] if d[0] == FC.TARGET else a[:, t]
        if n == FV.WEIGHT:
            a, d = a[:, None], ST
        want[n], dims[n] = a, d
    if kind == "fdata":
        want["added"], dims["added"] = np.zeros((nS, c.T)), ST
    if FC.STATE not in want and kind != "mdata":
        want[FC.STATE] = chunk(more) if mdata else np.arange(c.S)[s] if s is not None else np.arange(c.S)
        dims[FC.STATE] = (FC.STATE,)
    if FC.STATE not in want:
        want[FC.STATE], dims[FC.STATE] = (np.arange(c.S)[s] if s is not None else np.arange(c.S)), (FC.STATE,)
    if t is not None and FC.TARGET not in want:
        want[FC.TARGET], dims[FC.TARGET] = np.arange(c.N)[t], (FC.TARGET,)
    c.check(r, want, dims)
    w.ensure("state counter", r.states_i0(counter=True) == c.I0)
    n = {"mdata": "profile", "fdata": "a", "tdata": "a"}[kind]
    if copy and t is None:
        r[n][:] = -1.0
        w.eq("data set unchanged", ds[n].to_numpy(), c.val[n])


@contract("P16", [DATA + "TData.from_points", DATA + "TData.from_tpoints"], params=dict(kind=["points", "tpoints"]), samples=20)
def point_data(w, kind):
    """Point containers made from points hold them with unit weight, or the given weights, and the requested empty variables."""
    from foxes.core import TData

    np = w.np
    S, N = w.dim("S", lo=2), w.dim("N", lo=2)
    P = 1 if kind == "points" else w.dim("P", lo=2)
    pts = w.real("p", *((S, N, 3) if P == 1 and kind == "points" else (S, N, P, 3)))
    a = w.real("a", S, N, P)
    kw = dict(data={"a": w.snap(a)}, dims={"a": STP}, variables=["u", "v"], states_i0=4)
    if kind == "points":
        d, tw, full = TData.from_points(w.snap(pts), **kw), np.ones((1,)), pts[:, :, None, :]
        w.raises("points of wrong shape", ValueError, lambda: TData.from_points(np.zeros((S, N, 2))))
        w.raises("points with too many dimensions", ValueError, lambda: TData.from_points(np.zeros((S, N, 1, 3))))
    else:
        tw = w.weights("tw", P)
        d, full = TData.from_tpoints(w.snap(pts), w.snap(tw), **kw), pts
        w.raises("points of wrong shape", ValueError, lambda: TData.from_tpoints(np.zeros((S, N, P, 2)), tw))
        w.raises("points with too few dimensions", ValueError, lambda: TData.from_tpoints(np.zeros((S, N, 3)), tw))
    w.eq("points", d[FC.TARGETS], full)
    w.eq("weights", d[FC.TWEIGHTS], tw)
    w.eq("data", d["a"], a)
    w.ensure("counts", w.And(d.n_states == S, d.n_targets == N, d.n_tpoints == P))
    w.is_true("no states without labels" , d.states_i0(counter=True) == 4)
    for v in "uv":
        w.is_true(f"dimensions of {v}", tuple(d.dims[v]) == STP)
        w.forall(f"{v} is empty", (S, N, P), lambda *ix: np.isnan(d[v][ix]))
    w.is_true("separate variables", d["u"] is not d["v"])
