"""P12: turbine models act on exactly their own turbines."""

from itertools import permutations

from dv.core import contract
from .fix import NS, fdata, mdata, store_algo

FCN = "foxes.core.farm_controller.FarmController"
FDL = "foxes.core.farm_data_model.FarmDataModelList"
TB = "foxes.core.turbine.Turbine"
IT = "foxes.algorithms.iterative.models.sort_model_data.SortModelData"

# turbine lists; a star marks a selection of states, L and M are model lists, p and q act before the rotor evaluation
SETUPS = {
    "chain": (["T1", "a", "b"], ["T1", "b", "c*"], ["a*", "c"]),
    "stages": (["p*", "T1", "a*"], ["q", "p", "T2", "a"]),
    "late": (["T1", "a*", "p"], ["a", "q*", "T2"]),
    "lists": (["L*", "T1"], ["b", "c*", "T1"], ["T1", "a"]),
    "mixed": (["M*", "T1"], ["T1", "a*"]),
    "again": (["a*", "T1", "a"], ["T2", "b*"]),
    "all": (["a*", "T1"], ["a*", "T2", "b"]),
}
SETUPS["chain"][2].append("T2")
MEMBERS = dict(L=["b", "c"], M=["p", "b"])
PRE = ("p", "q")


def expand(names):
    """[(model, position in the list)]"""
    return [(m, i) for i, n in enumerate(names) for m in MEMBERS.get(n.rstrip("*"), [n.rstrip("*")])]


def models(V, fun):
    from foxes.core import TurbineModel, TurbineType, FarmDataModelList

    def calc(self, algo, mdata, fdata, st_sel, gain=None):
        x = fdata[V]
        x[st_sel] = fun(self, x[st_sel], gain)
        return {V: x}

    class Model(TurbineModel):
        def output_farm_vars(self, algo):
            return [V]

        calculate = calc

    class Type(TurbineType):
        def output_farm_vars(self, algo):
            return [V]

        def needs_rews2(self):
            return False

        def needs_rews3(self):
            return False

        calculate = calc

    tm = {n: Model(pre_rotor=n in PRE) for n in ("a", "b", "c", "p", "q")}
    tt = dict(T1=Type(D=100.0, H=100.0), T2=Type(D=100.0, H=100.0))
    for n, m in list(tm.items()) + list(tt.items()):
        m.key = n
    for n, ms in MEMBERS.items():
        tm[n] = FarmDataModelList([tm[m] for m in ms])
    return tm, tt


def farm_algo(w, lists, ssels, S, fun):
    import foxes.variables as FV
    from foxes.core import Turbine

    tm, tt = models(FV.K, fun)
    trbs = []
    for names, ss in zip(lists, ssels):
        t = Turbine([0.0, 0.0], turbine_models=[n.rstrip("*") for n in names[:1]], models_state_sel=ss[:1])
        for n, s in zip(names[1:], ss[1:]):
            t.add_model(n.rstrip("*"), s)
        t.name = f"T{len(trbs)}"
        trbs.append(t)
    stored = {}
    return stored, store_algo(n_states=S, n_turbines=len(lists), farm=NS(turbines=trbs, turbine_names=[t.name for t in trbs]),
                              mbook=NS(turbine_types=tt, turbine_models=tm), store_model_data=lambda m, d, f=False: stored.__setitem__(id(m), d))


@contract("P12", [FCN + ".initialize", FCN + ".collect_models", FCN + ".find_turbine_types", FCN + "._analyze_models", FCN + ".load_data", FCN + ".calculate", FDL + ".calculate", TB + ".add_model"],
          params=[dict(setup=s, stage=g) for s in SETUPS for g in ("pre", "post", "index")], samples=25, max_paths=256)
def models_run_in_order(w, setup, stage):
    """At each state every turbine's value is changed by exactly the models it lists for that state, in the listed order,
    with the parameters set for them; before the rotor evaluation only by the models chosen for that."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.farm_controllers import BasicFarmController

    np = w.np
    lists = SETUPS[setup]
    S, T = w.dim("S", lo=2), len(lists)
    fs = {m: w.ufun("model_" + m, kind=k) for k, m in enumerate(("a", "b", "c", "p", "q", "T1", "T2"))}
    ssels = [[w.boolean(f"sel_{t}_{i}", S) if n.endswith("*") else None for i, n in enumerate(names)] for t, names in enumerate(lists)]
    gain = w.real("gain", lo=0.0, hi=1.0)
    stored, algo = farm_algo(w, lists, ssels, S, lambda m, x, g: fs[m.key](x, 0.0 if g is None else g))
    other, ctrl = BasicFarmController(), BasicFarmController()
    other.set_pars("b", {}, dict(gain=2.0), {})
    ctrl.set_pars("a", {}, dict(gain=gain), {})
    ctrl.initialize(algo)
    idata = stored[id(ctrl)]
    dims, sels = idata["data_vars"][FC.TMODEL_SELS]
    w.is_true("selection dims", tuple(dims) == (FC.STATE, FC.TURBINE, FC.TMODELS))
    w.is_true("model names", list(idata["coords"][FC.TMODELS]) == ctrl.turbine_model_names)
    w.is_true("stages", all(m.pre_rotor for m in ctrl.pre_rotor_models.models) and not any(m.pre_rotor for m in ctrl.post_rotor_models.models))
    x = w.real("x", S, T)
    md, fd = mdata(w, S), fdata(w, S, T, K=w.snap(x))
    if stage == "pre":
        order = np.arange(T)[None, :] + np.zeros((S, T), dtype=int)
        md.add(FC.TMODEL_SELS, sels, dims)
    else:
        # sorted into downwind order: entry j of a state belongs to turbine order[:, j]
        order = w.integer("order", S, T, lo=0, lt=T)
        md.add(FC.TMODEL_SELS, sels[np.arange(S)[:, None], order], dims)
    j = w.integer("j", lo=0, lt=T) if stage == "index" else None
    out = ctrl.calculate(algo, md, fd, pre_rotor=stage == "pre", **({} if j is None else dict(downwind_index=j)))
    e = []
    for t, names in enumerate(lists):
        y = x
        for m, i in expand(names):
            if (m in PRE) == (stage == "pre"):
                z = fs[m](y, gain if m == "a" else 0.0)
                y = z if ssels[t][i] is None else np.where(ssels[t][i][:, None], z, y)
        e.append(y)
    exp = e[0]
    for t in range(1, T):
        exp = np.where(order == t, e[t], exp)
    if j is not None:
        exp = np.where(np.arange(T)[None, :] == j, exp, x)
    w.eq("values", fd[FV.K], exp)
    w.is_true("output", all(out[v] is fd[v] for v in out))


def lists_of(T="T1", pool="abc"):
    out = []
    for r in range(len(pool) + 1):
        for p in permutations((T,) + tuple(pool), r + 1):
            if T in p:
                out.append(list(p))
    return out


def consistent(lists):
    """Is there an order of all models that agrees with all lists?"""
    lists = [list(x) for x in lists]
    while any(lists):
        for x in lists:
            if x and not any(x[0] in y[1:] for y in lists):
                m = x[0]
                lists = [y[1:] if y and y[0] == m else y for y in lists]
                break
        else:
            return False
    return True


def run_lists(w, lists, ssels=None, S=2, repeat=False):
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.models.farm_controllers import BasicFarmController

    np = w.np
    num = {m: k for k, m in enumerate(("a", "b", "c", "p", "q", "T1", "T2", "L", "M"), start=1)}
    ssels = [[None] * len(x) for x in lists] if ssels is None else ssels
    stored, algo = farm_algo(w, lists, ssels, S, lambda m, x, g: 11 * x + num[m.key])
    ctrl = BasicFarmController()
    try:
        ctrl.initialize(algo)
    except ValueError:
        return None, None
    md, fd = mdata(w, S), fdata(w, S, len(lists), K=np.zeros((S, len(lists))))
    idata = stored[id(ctrl)]
    dims, sels = idata["data_vars"][FC.TMODEL_SELS]
    md.add(FC.TMODEL_SELS, sels, dims)
    ctrl.calculate(algo, md, fd, pre_rotor=True)
    ctrl.calculate(algo, md, fd, pre_rotor=False)
    e = np.zeros((S, len(lists)))
    for t, names in enumerate(lists):
        for pre in (True, False):
            for m, i in expand(names):
                if (m in PRE) == pre:
                    sel = np.ones(S, dtype=bool) if ssels[t][i] is None else ssels[t][i]
                    e[sel, t] = 11 * e[sel, t] + num[m]
    return fd[FV.K], e


@contract("P12", [FCN + ".collect_models", FCN + "._analyze_models", FCN + ".calculate"], mode="bounded", samples=1,
          bound="all 2401 pairs of model lists that contain the turbine type and any of three models in any order")
def all_pairs_of_lists(w):
    """Model lists that agree with each other are applied in their order, contradicting ones are rejected."""
    ls = lists_of()
    wrong, rejected = [], 0
    for x in ls:
        for y in ls:
            k, e = run_lists(w, (x, y), S=1)
            if k is None:
                rejected += 1
                if consistent((x, y)):
                    wrong.append(("rejected", x, y))
            elif not consistent((x, y)) or not (k == e).all():
                wrong.append(("applied", x, y))
    w.is_true("some rejected", rejected > 0)
    w.is_true(f"all right {wrong[:1]}" if wrong else "all right", not wrong)


@contract("P12", [FCN + ".collect_models", FCN + "._analyze_models", FCN + ".calculate"], mode="bounded", samples=150,
          bound="random farms of up to 5 turbines with up to 6 models each and up to 4 states")
def random_lists(w):
    """As above, for larger farms with model lists, pre-rotor models and state selections."""
    np = w.np
    S, T = w.dim("S"), w.dim("T", hi=5)
    ranks = w.perm("rank", 8)
    pool = ["a", "b", "c", "p", "q", "T1", "T2", "L"]
    lists, ssels = [], []
    for t in range(T):
        use = w.boolean(f"use_{t}", 8)
        two = bool(w.boolean(f"two_{t}"))
        names = [pool[r] for r in ranks if use[r] and pool[r] not in ("T1", "T2")]
        if "L" in names:
            names = [n for n in names if n not in ("b", "c")]
        names.insert(int(w.integer(f"at_{t}", lo=0, hi=len(names))), "T2" if two else "T1")
        lists.append(names)
        ssels.append([np.asarray(w.boolean(f"s_{t}_{i}", S)) if w.boolean(f"has_{t}_{i}") else None for i in range(len(names))])
    k, e = run_lists(w, lists, ssels, S)
    flat = [[m for m, _ in expand(x)] for x in lists]
    ok = consistent([[m for m in x if m in PRE] for x in flat]) and consistent([[m for m in x if m not in PRE] for x in flat])
    w.is_true("rejected exactly if contradicting", (k is not None) == ok)
    if k is not None:
        w.eq("values", k, e)


@contract("P12", [FCN + ".find_turbine_types", FCN + ".collect_models"], mode="bounded", samples=1, bound="one farm per kind of mistake")
def wrong_lists_are_rejected(w):
    """A missing or second turbine type and unknown models are errors."""
    for bad, exc in ((["a"], ValueError), (["T1", "T2"], TypeError), (["T1", "unknown"], KeyError)):
        def run(bad=bad):
            from foxes.models.farm_controllers import BasicFarmController

            _, algo = farm_algo(w, (["T1"], bad), ([None], [None] * len(bad)), 2, None)
            BasicFarmController().initialize(algo)

        w.raises(f"{bad}", exc, run)
    ls = (["T1", "a", "b"], ["b", "a", "T1"])
    w.is_true("contradicting lists", run_lists(w, ls)[0] is None)


@contract("P12", IT + ".calculate", params=dict(first=[False, True]))
def sort_model_data(w, first):
    """Per-turbine model data is sorted into downwind order, data of states or turbines alone is not."""
    import foxes.constants as FC
    import foxes.variables as FV
    from foxes.algorithms.iterative.models import SortModelData

    np = w.np
    S, T = w.dim("S", lo=2), w.dim("T", lo=2)
    order = w.perm("order", S, T)
    fd = fdata(w, S, T)
    fd.add(FV.ORDER, order, (FC.STATE, FC.TURBINE))
    fd.add(FV.ORDER_SSEL, np.arange(S)[:, None] + np.zeros((S, T), dtype=int), (FC.STATE, FC.TURBINE))
    d, b, s, t = w.real("d", S, T), w.boolean("b", S, T, 2), w.real("s", S), w.real("t", T)
    if first:
        d = np.where(np.arange(T)[None, :] == 0, d[0, 0], d)
    md = mdata(w, S)
    md.add("d", w.snap(d), (FC.STATE, FC.TURBINE))
    md.add("b", w.snap(b), (FC.STATE, FC.TURBINE, FC.TMODELS))
    md.add("s", w.snap(s), (FC.STATE,))
    md.add("t", w.snap(t), (FC.TURBINE,))
    SortModelData().calculate(NS(), md, fd)
    ss = np.arange(S)[:, None]
    w.eq("states, turbines", md["d"], d[ss, order])
    w.ensure("states, turbines, models", md["b"] == b[ss, order])
    w.eq("states", md["s"], s)
    w.eq("turbines", md["t"], t)


@contract("P12", [FCN + ".calculate", FCN + ".load_data", IT + ".calculate", "foxes.algorithms.downwind.models.init_farm_data.InitFarmData.calculate"], params=dict(algo=["Downwind", "Iterative"]),
          samples=6, mode="bounded", bound="farms of 3 to 6 turbines with wakes, 8 states in chunks, whole algorithm runs")
def whole_runs(w, algo):
    """In the results of a run each turbine shows the effects of its own models at its own selected states."""
    import pandas as pd
    import foxes
    import foxes.variables as FV
    from foxes.core import TurbineModel

    np = w.np
    T, S = w.dim("T", lo=3, hi=6), 8
    num = dict(a=1.0, b=2.0, c=3.0, p=4.0, q=5.0)

    class Setter(TurbineModel):
        def __init__(self, value, **kw):
            super().__init__(**kw)
            self.value = value

        def output_farm_vars(self, algo):
            return [FV.K, FV.KB]

        def calculate(self, algo, mdata, fdata, st_sel):
            v = FV.KB if self.pre_rotor else FV.K
            self.ensure_variables(algo, mdata, fdata)
            fdata[v][st_sel] = self.value
            return {x: fdata[x] for x in (FV.K, FV.KB)}

    mbook = foxes.ModelBook()
    for n, v in num.items():
        mbook.turbine_models[n] = Setter(v, pre_rotor=n in PRE)
    ranks = w.perm("rank", 5)
    pool = ["a", "b", "c", "p", "q"]
    xy = w.real("xy", T, 2, lo=-900.0, hi=900.0)
    e = {v: np.full((S, T), np.nan) for v in (FV.K, FV.KB)}
    farm = foxes.WindFarm()
    for t in range(T):
        use = w.boolean(f"use_{t}", 5)
        trb = foxes.Turbine(xy=xy[t], turbine_models=["NREL5MW"] if w.boolean(f"type_{t}") else ["DTU10MW"])
        for n in [pool[r] for r in ranks if use[r]]:
            sel = w.boolean(f"sel_{t}_{n}", S) if w.boolean(f"some_{t}_{n}") else None
            trb.add_model(n, sel)
            e[FV.KB if n in PRE else FV.K][np.ones(S, dtype=bool) if sel is None else sel, t] = num[n]
        farm.add_turbine(trb, verbosity=0)
    states = foxes.input.states.StatesTable(pd.DataFrame(dict(ws=9.0, wd=np.linspace(0.0, 330.0, S), ti=0.08)), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                                            var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti"}, fixed_vars={FV.RHO: 1.225})
    out = [FV.K, FV.KB, FV.CT, FV.REWS, FV.ORDER]
    with foxes.Engine.new("numpy", chunk_size_states=3, verbosity=0):
        kw = dict(mod_cutin=dict(modify_ct=False, modify_P=False)) if algo == "Iterative" else {}
        a = getattr(foxes.algorithms, algo)(farm, states, ["Jensen_linear_k007"], mbook=mbook, verbosity=0, **kw)
        r = a.calc_farm(outputs=out)
    for v in e:
        d = r[v].to_numpy() if v in r else np.full((S, T), np.nan)
        w.is_true(f"{v} set where listed", bool((np.isnan(d) == np.isnan(e[v])).all()))
        w.eq(v, np.nan_to_num(d), np.nan_to_num(e[v]))
