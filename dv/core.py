"""Contracts, path enumeration, replay, and the result records."""

import hashlib
import inspect
import itertools
import sys
import time
import traceback
import warnings
import numpy as np

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from . import sym as S
from .world import ConcreteWorld, SymWorld, Patched, Discard, Violation, ContractError

CONTRACTS = {}


def load_foxes():
    """Import every foxes module, so that all of them are seen by Patched."""
    import importlib
    import pkgutil

    import foxes

    for m in pkgutil.walk_packages(foxes.__path__, "foxes."):
        if m.name.split(".")[-1] in ("__main__", "ray", "mpi") or ".data." in m.name:
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


class Contract:
    def __init__(self, prop, name, fn, targets, params, mode, samples, timeout, doc, bound, max_paths, assumes, budget, weight, sample_secs):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.targets = targets
        self.params = params
        self.mode = mode  # "proof" or "bounded"
        self.samples = samples
        self.timeout = timeout
        self.doc = doc
        self.bound = bound
        self.max_paths = max_paths
        self.assumes = assumes
        self.budget = budget
        self.weight = weight
        self.sample_secs = sample_secs

    def instances(self):
        if not self.params:
            return [{}]
        if isinstance(self.params, list):
            return [dict(p) for p in self.params]
        ks = list(self.params)
        return [dict(zip(ks, vs)) for vs in itertools.product(*[self.params[k] for k in ks])]


def contract(prop, targets, params=None, mode="proof", samples=40, timeout=8000, bound=None, max_paths=64, name=None,
             assumes=None, budget=240.0, weight=1.0, sample_secs=15.0):
    """Register a contract.  targets: dotted names of the foxes functions it specifies."""

    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, [targets] if isinstance(targets, str) else list(targets), params, mode,
                     samples, timeout, " ".join((fn.__doc__ or "").split()), bound, max_paths, assumes, budget, weight, sample_secs)
        CONTRACTS.setdefault(prop, []).append(c)
        return fn

    return deco


def pstr(p):
    return ",".join(f"{k}={v if not callable(v) else getattr(v, '__name__', v)}" for k, v in p.items())


def resolve(target):
    """Dotted name -> object (module.Class.method)"""
    import importlib

    parts = target.split(".")
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for p in parts[i:]:
            obj = inspect.getattr_static(obj, p) if inspect.isclass(obj) else getattr(obj, p)
            if isinstance(obj, (staticmethod, classmethod)):
                obj = obj.__func__
            if isinstance(obj, property):
                obj = obj.fget
        return obj
    raise ContractError(f"target {target} not found")


def source_of(target):
    try:
        obj = resolve(target)
        if inspect.ismodule(obj):
            src = inspect.getsource(obj)
        else:
            src = inspect.getsource(obj)
        return hashlib.sha256(src.encode()).hexdigest()[:12]
    except Exception as e:
        return f"unresolved: {type(e).__name__}"


class Coverage:
    """Records which foxes functions were executed."""

    def __enter__(self):
        self.seen = set()
        m = sys.monitoring
        self.tool = None
        for t in range(1, 6):
            if m.get_tool(t) is None:
                self.tool = t
                break
        if self.tool is None:
            return self
        m.use_tool_id(self.tool, "dv")

        def start(code, off):
            if "/foxes/" in code.co_filename:
                self.seen.add((code.co_filename.split("/foxes/", 1)[1], code.co_qualname))
            return m.DISABLE

        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        if self.tool is not None:
            m.set_events(self.tool, 0)
            m.register_callback(self.tool, m.events.PY_START, None)
            m.free_tool_id(self.tool)

    def functions(self):
        return sorted(f"{f}:{q}" for f, q in self.seen if "<" not in q)


def sym_ctx(timeout, seed):
    c = S.Ctx(timeout_ms=timeout, seed=seed)
    return c


def run_symbolic(con, params, seed=1, budget=240.0, timeout=None):
    """Enumerate all paths of one contract instance -> dict"""
    load_foxes()
    t0 = time.time()
    c = sym_ctx(timeout or con.timeout, seed)
    S.set_ctx(c)
    todo = [[]]
    failures = []
    paths = 0
    infeasible = 0
    inputs = None
    unsupported = []
    try:
        with Patched(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            while todo:
                if time.time() - t0 > budget or paths + infeasible > con.max_paths:
                    unsupported.append("path or time budget exhausted")
                    break
                prefix = todo.pop()
                c.start_path(prefix)
                c.perms = {}
                c.perms_keep = []
                w = SymWorld()
                n_ob = len(c.obligations)
                try:
                    con.fn(w, **params)
                    paths += 1
                    if w.n_ensured == 0:
                        unsupported.append("a path without any obligation")
                    if c.check_sat(c.pc) == S.z3.unsat:
                        paths -= 1
                        infeasible += 1
                except S.Infeasible:
                    infeasible += 1
                except S.AbortPath:
                    paths += 1
                except S.Unsupported as e:
                    # only relevant when the path is feasible
                    if c.check_sat(c.pc) == S.z3.unsat:
                        infeasible += 1
                    else:
                        unsupported.append(f"{e} at {_where()}")
                except (Exception,) as e:
                    feas = c.check_sat(c.pc, timeout=4000)
                    if feas == S.z3.unsat:
                        infeasible += 1
                    else:
                        paths += 1
                        ob = S.Obligation("no-exception", False, "eval", 0.0,
                                          detail=f"{type(e).__name__}: {e} at {_where()}", model=None)
                        ob.path = "".join("T" if d else "F" for d, _ in c.trace)
                        ob.values = _path_model(c)
                        c.obligations.append(ob)
                finally:
                    w.undo()
                for ob in c.obligations[n_ob:]:
                    if not ob.ok:
                        ob.values = getattr(ob, "values", None) or model_values(c, ob.model)
                        ob.model = None
                    else:
                        ob.model = None
                todo.extend(c.pending)
                if sum(1 for o in c.obligations if not o.ok) >= 3 or len(unsupported) >= 2:
                    break
    finally:
        S.set_ctx(None)
    if paths == 0 and not unsupported:
        unsupported.append("no feasible path: the assumptions are contradictory")
    return dict(
        contract=con.name, params=pstr(params), paths=paths, infeasible=infeasible,
        obligations=[dict(name=o.name, ok=o.ok, backend=o.backend, secs=round(o.secs, 4), path=o.path,
                          detail=o.detail, values=getattr(o, "values", None)) for o in c.obligations],
        unsupported=unsupported, secs=time.time() - t0, solver_secs=c.solver_secs,
    )


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    fx = [f for f in fr if "/foxes/" in f.filename] or fr[-3:]
    inner = fr[-1]
    return f"{fx[-1].filename.split('/repo/')[-1]}:{fx[-1].lineno} ({fx[-1].line}) [{inner.filename.split('/')[-1]}:{inner.lineno}]"


def _path_model(c):
    s = S.z3.Solver()
    s.set("timeout", 4000)
    fs = list(c.pc)
    s.add(*fs, *c.close(fs, rounds=2))
    if s.check() == S.z3.sat:
        return model_values(c, s.model())
    return None


def model_values(c, model, cap=6):
    """Input values of a z3 model, for the replay on the real code."""
    if model is None:
        return None
    z3 = S.z3
    vals = {}
    sizes = {}
    try:
        for n, rec in c.inputs.items():
            if rec[0] == "dim":
                v = model.eval(rec[1], model_completion=True).as_long()
                if v > cap:
                    return {"_too_large": True}
                vals[n] = v
        for n, rec in c.inputs.items():
            if rec[0] != "arr":
                continue
            _, axes, f, k = rec
            shp = []
            for ax in axes:
                m = 1
                for a in ax.atoms:
                    m *= a.size if a.concrete else model.eval(a.size, model_completion=True).as_long()
                shp.append(m)
            out = np.zeros(shp, dtype={"f": float, "i": int, "b": bool}[k])
            for pos in np.ndindex(*shp):
                if isinstance(f, z3.FuncDeclRef):
                    args = []
                    for ax, p in zip(axes, pos):
                        rem = p
                        ixs = []
                        for a in reversed(ax.atoms):
                            m = a.size if a.concrete else model.eval(a.size, model_completion=True).as_long()
                            ixs.append(rem % m)
                            rem //= m
                        args += [z3.IntVal(x) for x in reversed(ixs)]
                    t = model.eval(f(*args), model_completion=True)
                else:
                    t = model.eval(f, model_completion=True)
                if z3.is_algebraic_value(t):
                    t = t.approx(20)
                if k == "b":
                    out[pos] = z3.is_true(t)
                else:
                    out[pos] = float(S.frac_of(t)) if k == "f" else int(S.frac_of(t))
            vals[n] = out.tolist()
    except Exception:
        return None
    return vals


def run_concrete(con, params, seed, values=None):
    """-> (status, detail, inputs); status in ok, discard, violation"""
    w = ConcreteWorld(seed=seed, values=values)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            con.fn(w, **params)
        return "ok", w.n_ensured, w.inputs
    except Discard as e:
        return "discard", str(e), w.inputs
    except Violation as e:
        return "violation", f"{e.name}: {e.detail}", w.inputs
    except Exception as e:
        return "violation", f"no-exception: {type(e).__name__}: {e} at {_where()}", w.inputs
    finally:
        w.undo()


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return str(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)
