"""P23: iterations stop when, and only when, the results no longer change."""

from dv.core import contract
from contracts.fix import NS, fdata, mdata
import foxes.constants as FC
import foxes.variables as FV

CV = "foxes.algorithms.iterative.models.convergence."
VARS = dict(one=[FV.REWS], two=[FV.REWS, FV.CT], direction=[FV.WD], yaw=[FV.YAW, FV.TI], named=["my direction", FV.WD], default=[FV.REWS, FV.TI, FV.CT])


def results(vals):
    return {v: NS(to_numpy=lambda a=a: a) for v, a in vals.items()}


def setting(w, variables):
    S, T = w.dim("S", lo=2), w.dim("T", lo=2)
    full = lambda p, v: w.real(f"{p}_{v}".replace(" ", "_"), S, T, lo=0.0, hi=360.0, special=(0.0, 359.0, 1.0))
    old = {v: full("old", v) for v in variables}
    near = w.real("step", lo=-1.0, hi=1.0, special=(0.0, 1e-7, 1e-8))
    new = {v: full("new", v) for v in variables} if w.symbolic else {v: (a + near * w.real(f"d_{v}".replace(" ", "_"), S, T, lo=-1.0, hi=1.0)) % 360.0 for v, a in old.items()}
    return S, T, old, new


def change(w, v, wd_vars, a, b):
    """The change of a value; directions change along the shorter way."""
    d = abs(b - a)
    if v in wd_vars:
        return w.ite(d > 180.0, 360.0 - d, d)
    return d


@contract("P23", [CV + "ConvVarDelta.__init__", CV + "ConvVarDelta.check_converged", CV + "ConvVarDelta.get_deltas", CV + "DefaultConv.__init__"], params=dict(variables=list(VARS)), samples=60)
def variable_changes(w, variables):
    """Converged means exactly: every monitored variable changed by at most its limit in all states and turbines; the first results are never converged."""
    from foxes.algorithms.iterative.models import ConvVarDelta, DefaultConv

    np = w.np
    names = VARS[variables]
    S, T, old, new = setting(w, names)
    if variables == "default":
        c = DefaultConv()
        lim = {FV.REWS: 1e-6, FV.TI: 1e-7, FV.CT: 1e-7}
    else:
        lim = {v: w.real("limit_" + v.replace(" ", "_"), lo=0.0, hi=1.0) for v in names}
        c = ConvVarDelta(dict(lim), wd_vars=["my direction"] if variables == "named" else None, name="crit")
    wd = ["my direction"] if variables == "named" else [FV.WD, FV.AMB_WD, FV.YAW, FV.AMB_YAW]
    if any(v in wd for v in names):
        for a in list(old.values()) + list(new.values()):
            w.assume(a >= 0.0)
            w.assume(a < 360.0)
    w.is_true("nothing yet", c.get_deltas() == {})
    first = c.check_converged(None, None, results(new))
    w.is_true("first iteration is not converged", first is False or first == False)
    r = c.check_converged(None, results(old), results(new))
    ch = {v: change(w, v, wd, old[v], new[v]) for v in names}
    if w.any(np.asarray(r)[None] if w.symbolic else [r]):
        for v in names:
            w.le(f"{v} within its limit", ch[v], lim[v] + 0.0 * ch[v])
        w.is_true("all changes reported", list(c.get_deltas()) == names)
    else:
        big = [ch[v] > lim[v] for v in names]
        some = big[0]
        for b in big[1:]:
            some = some | b
        w.is_true("a change exceeds its limit", w.any(some))
    for v, d in c.get_deltas().items():
        w.le(f"{v}: reported change is the largest", ch[v], d + 0.0 * ch[v])
        w.is_true(f"{v}: reported change occurs", w.any(abs(ch[v] - d) <= 1e-9))
    for v in names:
        w.eq(f"old {v} unchanged", results(old)[v].to_numpy(), old[v])


@contract("P23", [CV + m for m in ("ConvCritList.__init__", "ConvCritList.check_converged", "ConvCritList.add_crit", "ConvCritList.get_deltas")], params=dict(n=[0, 1, 2, 3], added=[0, 1]), samples=10)
def criteria_list(w, n, added):
    """A list of criteria is met exactly if each of them is, reports the first one that is not, and is not shared with other lists."""
    from foxes.algorithms.iterative.models.convergence import ConvCritList

    seen = []

    class Crit:
        def __init__(self, i):
            self.ok, self.i = w.boolean(f"ok{i}"), i

        def check_converged(self, algo, prev, res, verbosity):
            seen.append((self.i, algo, prev, res))
            return self.ok

        def get_deltas(self):
            return {"crit": self.i}

    crits = [Crit(i) for i in range(n + added)]
    c = ConvCritList(crits[:n]) if n else ConvCritList()
    for x in crits[n:]:
        c.add_crit(x)
    w.is_true("nothing before the check", c.get_deltas() == {})
    r = c.check_converged("algo", "prev", "res")
    w.ensure("all criteria", r == (w.And(True, *[x.ok for x in crits])))
    w.is_true("results passed on", all(s[1:] == ("algo", "prev", "res") for s in seen))
    if r:
        w.is_true("each was asked", [s[0] for s in seen] == list(range(n + added)))
        w.is_true("no failure", c.get_deltas() == {})
    else:
        k = len(seen) - 1
        w.ensure("first failure reported", w.And(w.Not(crits[k].ok), *[x.ok for x in crits[:k]]))
        w.is_true("its deltas", c.get_deltas() == {"crit": k})
    w.is_true("other lists are empty", ConvCritList().crits == [])


@contract("P23", ["foxes.algorithms.iterative.iterative.Iterative." + m for m in ("calc_farm", "farm_results_downwind", "iterations", "final_iteration")],
          mode="bounded", bound="every sequence of converged and blocked iterations, for at most 4 iterations after the first one", params=dict(max_it=[0, 1, 2, 3, 4], crit=[True, False], order=[False, True]), samples=1)
def iterations(w, max_it, crit, order):
    """The loop ends at the first iteration that is converged and not blocked, or after the allowed number of iterations; each iteration receives the
    results of the one before, and one final run with the requested outputs provides the results."""
    import itertools

    N = max_it + 1
    for pattern in itertools.product([False, True], repeat=2 * N):
        one_sequence(w, max_it, crit, order, pattern[:N], pattern[N:])


def one_sequence(w, max_it, crit, order, conv, block):
    from foxes.algorithms.iterative import Iterative
    from foxes.algorithms.downwind.downwind import Downwind

    N = max_it + 1
    runs, checks = [], []

    def one_run(self, outputs=None, finalize=True, **kw):
        runs.append((self.iterations, self.final_iteration, outputs, finalize, kw, self.farm_results_downwind))
        return f"results {len(runs)}"

    w.patch(Downwind, "calc_farm", one_run)

    class Crit:
        def check_converged(self, algo, prev, res, verbosity=0):
            checks.append((algo.iterations, prev, res))
            return conv[algo.iterations]

    a = object.__new__(Iterative)
    finals = []
    a.__dict__.update(max_it=max_it, conv_crit=Crit() if crit else None, verbosity=-1, name="iterative", _mlist0=NS(models=[NS(finalize=lambda *k: finals.append("model"))]), _calc_pars0=[])
    w.patch(Iterative, "print", lambda self, *k, **v: None)
    w.patch(Iterative, "eval_conv_block", lambda self: block[self.iterations])
    w.patch(Iterative, "finalize", lambda self, *k: finals.append("algo"))
    w.patch(Iterative, "sub_models", lambda self: [])
    out = a.calc_farm(outputs=["x"], calc_parameters={"p": 1}, ret_dwnd_order=order)
    n = len(runs) - 1
    w.is_true("at least one, at most the allowed number", 1 <= n <= N)
    w.is_true("numbered", [r[0] for r in runs] == list(range(n)) + [n - 1])
    w.is_true("previous results", [r[5] for r in runs[:-1]] == [None] + [f"results {i}" for i in range(1, n)])
    w.is_true("only the last run is final", [r[1] for r in runs] == [False] * n + [True])
    w.is_true("outputs", [r[2] for r in runs] == [None] * n + [["x"]] and all(r[4] == {"calc_parameters": {"p": 1}} and r[3] is False for r in runs))
    done = [w.And(conv[i], w.Not(block[i])) if crit else False for i in range(N)]
    for i in range(n - 1):
        w.ensure(f"iteration {i} was not the last", w.Not(done[i]))
    if n < N:
        w.ensure("stopped since converged", done[n - 1])
    w.is_true("compared with the previous iteration", all(c == (c[0], f"results {c[0]}" if c[0] else None, f"results {c[0] + 1}") for c in checks))
    w.is_true("result", out == ((f"results {n + 1}", f"results {n}") if order else f"results {n + 1}"))
    w.is_true("finalised once", finals == ["algo", "model"])


@contract("P23", ["foxes.algorithms.iterative.models.urelax.URelax." + m for m in ("calculate", "output_farm_vars")], params=dict(previous=[True, False]), samples=20)
def under_relaxation(w, previous):
    """Under-relaxed variables are the weighted mean of the previous iteration's value for the same state and the new one."""
    from foxes.algorithms.iterative.models import URelax
    from foxes.core import FData

    np = w.np
    S, T = w.dim("S", lo=2), w.dim("T", lo=2)
    I0 = w.dim("before")
    M = I0 + S + w.dim("after")
    x, y = w.real("rews", S, T), w.real("ct", S, T)
    px, py = w.real("old_rews", M, T), w.real("old_ct", M, T)
    u = w.real("u", lo=0.0, hi=1.0)
    fd = FData({FC.STATE: np.arange(S), FV.REWS: w.snap(x), FV.CT: w.snap(y)}, {FC.STATE: (FC.STATE,), FV.REWS: (FC.STATE, FC.TURBINE), FV.CT: (FC.STATE, FC.TURBINE)}, loop_dims=[FC.STATE], states_i0=I0)
    algo = NS(name="algo", farm_results_downwind=results({FV.REWS: px, FV.CT: py}) if previous else None)
    m = URelax(**{FV.REWS: u, FV.CT: 0.25})
    w.is_true("variables", m.output_farm_vars(algo) == [FV.REWS, FV.CT])
    r = m.calculate(algo, None, fd)
    w.is_true("results", set(r) == {FV.REWS, FV.CT})
    old = lambda p: p[I0 : I0 + S]
    w.eq("first variable", r[FV.REWS], u * old(px) + (1 - u) * x if previous else x)
    w.eq("second variable", r[FV.CT], 0.25 * old(py) + 0.75 * y if previous else y)
    w.eq("farm data unchanged", fd[FV.REWS], x)
