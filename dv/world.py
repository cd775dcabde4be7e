"""The two readings of a contract.

A contract is one Python function over a World.  In the SymWorld inputs are
unbounded symbolic arrays, the real foxes function is executed symbolically and
every `ensure` becomes a proof obligation.  In the ConcreteWorld the very same
contract is evaluated on sampled (or model) inputs with real numpy; this is used
for replaying counterexamples and as a sanity check of the verifier.
"""

import builtins
import math
import sys
import types
import numpy as np

TOL = 1e-8


class Discard(Exception):
    """The sampled input does not satisfy the precondition."""


class Violation(Exception):
    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name = name
        self.detail = detail


class ContractError(Exception):
    pass


# =====================================================================  concrete
class ConcreteWorld:
    symbolic = False

    def __init__(self, seed=0, values=None, tol=TOL):
        self.rng = np.random.default_rng(seed)
        self.np = np
        self.inputs = {}
        self.values = values or {}
        self.tol = tol
        self.n_ensured = 0
        self.violations = []

    # ---- inputs
    def _given(self, name):
        return self.values.get(name) if self.values else None

    def dim(self, name, lo=1, hi=4):
        v = self._given(name)
        if v is None:
            v = int(self.rng.integers(lo, hi + 1))
        self.inputs[name] = int(v)
        return int(v)

    def _shape(self, dims):
        return tuple(int(d) for d in dims)

    def real(self, name, *dims, lo=None, hi=None, gt=None, lt=None, special=(), where=None, gen=None):
        shp = self._shape(dims)
        v = self._given(name)
        if v is not None:
            x = np.array(v, dtype=float).reshape(shp)
            if lo is not None and np.any(x < lo) or hi is not None and np.any(x > hi) \
                    or gt is not None and np.any(x <= gt) or lt is not None and np.any(x >= lt):
                raise Discard(name)
        elif gen is not None:
            x = np.array(gen(self.rng, shp), dtype=float).reshape(shp)
        else:
            a = lo if lo is not None else gt
            b = hi if hi is not None else lt
            if a is None and b is None:
                a, b = -10.0, 10.0
            elif a is None:
                a = b - 20.0
            elif b is None:
                b = a + 20.0
            n = int(np.prod(shp)) if shp else 1
            mode = self.rng.integers(0, 5)
            if mode == 0:
                x = self.rng.uniform(a, b, n)
            elif mode == 1:
                # coarse dyadic grid, so that ties occur
                x = a + (b - a) * self.rng.integers(0, 9, n) / 8.0
            elif mode == 2:
                x = np.full(n, a + (b - a) * self.rng.integers(0, 9) / 8.0)
            else:
                x = self.rng.uniform(a, b, n)
                sp = list(special)
                if lo is not None:
                    sp.append(lo)
                if hi is not None:
                    sp.append(hi)
                sp = [s for s in sp if (lo is None or s >= lo) and (hi is None or s <= hi) and (gt is None or s > gt) and (lt is None or s < lt)]
                if sp:
                    pick = self.rng.random(n) < 0.4
                    x = np.where(pick, self.rng.choice(np.array(sp, dtype=float), n), x)
            eps = (b - a) * 1e-6
            if gt is not None:
                x = np.where(x <= gt, gt + eps + (b - a) / 16, x)
            if lt is not None:
                x = np.where(x >= lt, lt - eps - (b - a) / 16, x)
            x = x.reshape(shp)
        if where is not None:
            for pos in np.ndindex(*shp):
                if not builtins.bool(where(x[pos], *pos)):
                    raise Discard(name)
        self.inputs[name] = x.copy()
        return x if shp else float(x)

    def integer(self, name, *dims, lo=0, hi=None, lt=None):
        shp = self._shape(dims)
        v = self._given(name)
        top = lt if lt is not None else (hi + 1 if hi is not None else lo + 8)
        if v is not None:
            x = np.array(v, dtype=int).reshape(shp)
            if np.any(x < lo) or np.any(x >= top):
                raise Discard(name)
        else:
            if int(top) <= lo:
                raise Discard(name)
            x = self.rng.integers(lo, int(top), shp)
        self.inputs[name] = np.array(x)
        return x if shp else int(x)

    def boolean(self, name, *dims):
        shp = self._shape(dims)
        v = self._given(name)
        if v is not None:
            x = np.array(v, dtype=bool).reshape(shp)
        else:
            p = self.rng.choice([0.0, 0.3, 0.7, 1.0])
            x = self.rng.random(shp) < p
        self.inputs[name] = np.array(x)
        return x if shp else bool(x)

    def perm(self, name, *dims):
        shp = self._shape(dims)
        v = self._given(name)
        if v is not None:
            x = np.array(v, dtype=int).reshape(shp)
            if not np.all(np.sort(x, axis=-1) == np.arange(shp[-1])):
                raise Discard(name)
        else:
            x = np.argsort(self.rng.random(shp), axis=-1)
        self.inputs[name] = x.copy()
        return x

    def inverse(self, p):
        return np.argsort(p, axis=-1)

    def increasing(self, name, n, lo=0.0, hi=10.0, strict=True):
        v = self._given(name)
        if v is not None:
            x = np.array(v, dtype=float).reshape((n,))
            if np.any(np.diff(x) <= 0):
                raise Discard(name)
        else:
            x = np.sort(self.rng.choice(np.arange(1, 8 * n + 1), n, replace=False)) * (hi - lo) / (8.0 * n + 1) + lo
        self.inputs[name] = x.copy()
        return x

    # ---- logic
    def assume(self, cond):
        if not np.all(cond):
            raise Discard("assume")

    assume_all = assume

    def ensure(self, name, cond, defined=True):
        self.n_ensured += 1
        ok = np.asarray(cond)
        if not np.all(ok):
            raise Violation(name, f"fails at {np.argwhere(~np.atleast_1d(ok))[:3].tolist()}")

    def _tol(self, a, b):
        with np.errstate(all="ignore"):
            return self.tol * (1.0 + np.abs(a) + np.abs(b))

    def eq(self, name, a, b, defined=True):
        self.n_ensured += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all="ignore"):
            ok = np.abs(a - b) <= self._tol(a, b)
        if not defined:
            ok = ok | (a == b)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            aa, bb = np.broadcast_arrays(np.atleast_1d(a), np.atleast_1d(b))
            raise Violation(name, f"at {bad}: {aa[tuple(bad)]!r} != {bb[tuple(bad)]!r}")

    def le(self, name, a, b):
        self.n_ensured += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all="ignore"):
            ok = a <= b + self._tol(a, b)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            aa, bb = np.broadcast_arrays(np.atleast_1d(a), np.atleast_1d(b))
            raise Violation(name, f"at {bad}: {aa[tuple(bad)]!r} > {bb[tuple(bad)]!r}")

    def eq_where(self, name, cond, a, b):
        """a == b wherever cond holds"""
        self.n_ensured += 1
        cond, a, b = np.broadcast_arrays(cond, np.asarray(a, float), np.asarray(b, float))
        with np.errstate(all="ignore"):
            ok = ~cond | (np.abs(a - b) <= self._tol(a, b))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            raise Violation(name, f"at {bad}: {np.atleast_1d(a)[tuple(bad)]!r} != {np.atleast_1d(b)[tuple(bad)]!r}")

    def le_where(self, name, cond, a, b):
        self.n_ensured += 1
        cond, a, b = np.broadcast_arrays(cond, np.asarray(a, float), np.asarray(b, float))
        with np.errstate(all="ignore"):
            ok = ~cond | (a <= b + self._tol(a, b))
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            raise Violation(name, f"at {bad}: {np.atleast_1d(a)[tuple(bad)]!r} > {np.atleast_1d(b)[tuple(bad)]!r}")

    def angle_eq(self, name, a, b, period):
        """a == b modulo the period"""
        self.n_ensured += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        with np.errstate(all="ignore"):
            d = np.mod(a - b + period / 2, period) - period / 2
            ok = np.abs(d) <= 1e-7 * period
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[0].tolist()
            raise Violation(name, f"at {bad}: {np.atleast_1d(a)[tuple(bad)]!r} != {np.atleast_1d(b)[tuple(bad)]!r} mod {period}")

    def lemma(self, name, cond, defined=True):
        self.ensure(name, cond)

    def lemma_le(self, name, a, b):
        self.le(name, a, b)

    def lemma_eq(self, name, a, b):
        self.eq(name, a, b)

    def forall(self, name, dims, fn, eq=False):
        """fn(indices...) -> condition (or pair to be compared if eq)"""
        self.n_ensured += 1
        for ix in np.ndindex(*self._shape(dims)):
            r = fn(*ix)
            if eq:
                g, a, b = r if len(r) == 3 else (True,) + tuple(r)
                if g and not abs(a - b) <= self._tol(a, b):
                    raise Violation(name, f"at {ix}: {a!r} != {b!r}")
            elif not np.all(r):
                raise Violation(name, f"fails at {ix}")

    def forall_lemma(self, name, dims, fn):
        self.forall(name, dims, fn)

    def approx_le(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a <= b + self._tol(a, b)

    def approx_eq(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return np.abs(a - b) <= self._tol(a, b)

    def implies(self, a, b):
        return np.logical_or(np.logical_not(a), b)

    def And(self, *xs):
        r = True
        for x in xs:
            r = np.logical_and(r, x)
        return r

    def Or(self, *xs):
        r = False
        for x in xs:
            r = np.logical_or(r, x)
        return r

    def Not(self, a):
        return np.logical_not(a)

    def ite(self, c, a, b):
        return np.where(c, a, b)

    def is_true(self, name, x):
        """A plain Python fact (types, keys, call records)."""
        self.n_ensured += 1
        if not bool(x):
            raise Violation(name, "is false")

    def raises(self, name, exc, fn):
        self.n_ensured += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            raise Violation(name, f"raised {type(e).__name__} instead of {exc}")
        raise Violation(name, "no exception was raised")

    def snap(self, a):
        return np.array(a, copy=True)

    def mean_within(self, *a):
        pass

    def sum_positive(self, *a, **k):
        pass

    def weights(self, name, n):
        """Non-negative weights that sum to one."""
        v = self._given(name)
        if v is not None:
            x = np.array(v, dtype=float).reshape((n,))
            if abs(x.sum() - 1) > 1e-9 or np.any(x < 0):
                raise Discard(name)
        else:
            x = self.rng.integers(1, 5, n).astype(float)
            x /= x.sum()
        self.inputs[name] = x.copy()
        return x

    def array(self, x):
        return np.asarray(x)

    float64 = np.float64

    def frame(self, cols, index=None):
        """A pandas table with the given columns."""
        import pandas as pd

        return pd.DataFrame({k: np.array(v) for k, v in cols.items()}, index=None if index is None else np.array(index))

    def dataset(self, coords, data):
        """An xarray data set; data: name -> (dims, values)."""
        import xarray as xr

        return xr.Dataset(coords={k: np.asarray(v) for k, v in coords.items()}, data_vars={k: (d, np.array(v)) for k, (d, v) in data.items()})

    def pandas(self, module):
        """Lets tables that the module creates hold symbolic columns."""

    def ufun(self, name, lo=None, hi=None, concrete=None, kind="f"):
        """An arbitrary function of its (real) arguments: the assumed contract of a callee."""
        h = sum(ord(c) * (i + 3) for i, c in enumerate(name)) % 97 / 13.0

        def fn(*args):
            if concrete is not None:
                return concrete(*args)
            a, b = (-3.0 if lo is None else lo), (4.0 if hi is None else hi)
            ph = h
            for i, x in enumerate(args):
                ph = ph + (0.37 + 0.61 * i + h / 10) * np.asarray(x, dtype=float)
            return a + (b - a) * (0.5 + 0.5 * np.sin(ph))

        return fn

    def any(self, x):
        return bool(np.any(x))

    def seq(self, name, n, item, state=None, containers=()):
        from .loop import LoopSpec

        return LoopSpec(self, name, n, state or (lambda k: []), containers, item)

    def loop(self, name, n, state, containers=(), keep=False):
        pass

    def patch(self, obj, name, value):
        """Replace a callee by its contract stub; undone after the run."""
        self._patches = getattr(self, "_patches", [])
        self._patches.append((obj, name, obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, name)))
        setattr(obj, name, value)

    def undo(self):
        for obj, name, old in reversed(getattr(self, "_patches", [])):
            if old is _MISSING:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self._patches = []


_MISSING = object()


# =====================================================================  symbolic
class SymWorld:
    symbolic = True

    def __init__(self):
        from . import npshim
        from .sym import ctx

        self.np = npshim.SHIM
        self.c = ctx()
        self.inputs = self.c.inputs
        self.n_ensured = 0
        self._patches = []

    patch = ConcreteWorld.patch
    undo = ConcreteWorld.undo

    # ---- inputs
    def dim(self, name, lo=1, hi=None):
        import z3
        from .sym import SV
        from .arr import Axis, Atom

        n = z3.Int(f"n_{name}")
        at = Atom(n, name)
        ax = Axis((at,))
        self.c.assume(n >= lo)
        d = SV(n, axis=ax)
        self.inputs[name] = ("dim", n)
        return d

    def _decl(self, name, dims, sort):
        import z3
        from .arr import Axis

        axes = [Axis.of(d) for d in dims]
        nargs = sum(len(a.atoms) for a in axes)
        if nargs == 0:
            return axes, z3.Const(name, sort), None
        f = z3.Function(name, *([z3.IntSort()] * nargs), sort)
        return axes, None, f

    def _input(self, name, dims, sort, k, fact):
        from .sym import SV, lift
        from .arr import SArr

        axes, cst, f = self._decl(name, dims, sort)
        self.inputs[name] = ("arr", axes, cst if f is None else f, k)
        if f is None:
            for g in fact(cst):
                self.c.assume(g)
            if not axes:
                return SV(cst)
            return SArr.new(axes, k, lambda idx: cst)
        self.c.add_fact(f, lambda *args: [lift(x) for x in fact(f(*args), *args)])
        return SArr.new(axes, k, lambda idx: f(*[t for ix in idx for t in ix]))

    def real(self, name, *dims, lo=None, hi=None, gt=None, lt=None, special=(), where=None, gen=None):
        import z3
        from .sym import lift, to_real, SV

        def fact(x, *ix):
            out = []
            if lo is not None:
                out.append(x >= to_real(lift(lo)))
            if hi is not None:
                out.append(x <= to_real(lift(hi)))
            if gt is not None:
                out.append(x > to_real(lift(gt)))
            if lt is not None:
                out.append(x < to_real(lift(lt)))
            if where is not None:
                out.append(lift(where(SV(x), *[SV(i) for i in ix])))
            return out

        return self._input(name, dims, z3.RealSort(), "f", fact)

    def integer(self, name, *dims, lo=0, hi=None, lt=None):
        import z3
        from .sym import lift

        def fact(x, *ix):
            out = [x >= lift(lo)]
            if hi is not None:
                out.append(x <= lift(hi))
            if lt is not None:
                out.append(x < lift(lt))
            return out

        return self._input(name, dims, z3.IntSort(), "i", fact)

    def boolean(self, name, *dims):
        import z3

        return self._input(name, dims, z3.BoolSort(), "b", lambda x, *ix: [])

    def perm(self, name, *dims):
        """A permutation along the last axis."""
        import z3
        from .arr import SArr, Axis

        axes = [Axis.of(d) for d in dims]
        nargs = sum(len(a.atoms) for a in axes)
        sig = [z3.IntSort()] * nargs + [z3.IntSort()]
        f, g = z3.Function(name, *sig), z3.Function(name + "_inv", *sig)
        n = axes[-1].atoms[0].term()
        ap = nargs - 1
        self.c.perms[f.get_id()] = (ap, g)
        self.c.perms[g.get_id()] = (ap, f)
        self.c.perms_keep.append((f, g))

        def mk(a, b):
            def fact(*args):
                k = args[ap]
                r = a(*args)
                back = list(args)
                back[ap] = r
                return [z3.Implies(z3.And(k >= 0, k < n), z3.And(r >= 0, r < n, b(*back) == k))]

            return fact

        self.c.add_fact(f, mk(f, g))
        self.c.add_fact(g, mk(g, f))
        self.inputs[name] = ("arr", axes, f, "i")
        p = SArr.new(axes, "i", lambda idx: f(*[t for ix in idx for t in ix]))
        p._inverse = SArr.new(axes, "i", lambda idx: g(*[t for ix in idx for t in ix]))
        return p

    def inverse(self, p):
        return p._inverse.copy()

    def increasing(self, name, n, lo=0.0, hi=None, strict=True):
        """A strictly increasing grid."""
        import z3
        from .sym import lift, to_real

        def fact(x, i):
            return [x >= to_real(lift(lo))] if lo is not None else []

        r = self._input(name, (n,), z3.RealSort(), "f", fact)
        decl = self.inputs[name][2]

        def pair(a, b):
            i, j = a[0], b[0]
            x, y = decl(i), decl(j)
            return [z3.Implies(i < j, x < y), z3.Implies(j < i, y < x)]

        if isinstance(decl, z3.FuncDeclRef):
            self.c.add_pair_fact(decl, pair)
        return r

    def weights(self, name, n):
        import z3
        from .npshim import bound_var
        from .arr import Axis

        x = self.real(name, n, lo=0.0)
        ax = Axis.of(n)
        if ax.concrete:
            from .npshim import np_sum

            self.c.assume(np_sum(x) == 1)
        else:
            decl = self.inputs[name][2]

            def sumfact(s, b, bvs, axes):
                if z3.is_app(b) and b.decl().eq(decl):
                    return [s == 1]

            self.c.sumfacts.append(sumfact)
        return x

    def mean_within(self, name, lo, hi):
        """Means with the weights of this name: they are within [lo, hi], or one of the averaged values is not."""
        import z3
        from .sym import in_range, lift, t_and, to_real

        decl = self.inputs[name][2]
        lo, hi = (to_real(lift(x)) for x in (lo, hi))

        def sumfact(s, b, bvs, axes):
            if not (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL):
                return []
            fs, stack = [], [b]
            while stack:
                e = stack.pop()
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
                    stack.extend(e.children())
                else:
                    fs.append(e)
            ws = [f for f in fs if z3.is_app(f) and f.decl().eq(decl)]
            if len(ws) != 1 or len(bvs) != 1 or not ws[0].arg(0).eq(bvs[0]) or any(ax.mask is not None for ax in axes):
                return []
            r = z3.RealVal(1)
            for f in fs:
                if f is not ws[0]:
                    r = r * to_real(f)
            out = []
            for bad in (lambda t: t < lo, lambda t: t > hi):
                sk = z3.Int(self.c.uid("outside"))
                rng = t_and(*[in_range(sk, a) for ax in axes for a in ax.atoms])
                out.append(z3.Or(z3.Not(bad(s)), z3.And(rng, bad(z3.substitute(r, (bvs[0], sk))))))
            return out

        self.c.sumfacts.append(sumfact)

    def sum_nonneg(self, *_):
        pass

    # ---- logic
    def _cond_terms(self, cond):
        """cond (array or scalar) at fresh indices -> list of (guard, term)"""
        import z3
        from .sym import lift, to_bool, SV, t_and
        from .arr import SArr, as_sarr
        import itertools

        if isinstance(cond, (bool, np.bool_, SV)):
            return [(z3.BoolVal(True), to_bool(lift(cond)))]
        a = as_sarr(cond)
        opts = []
        for ax in a.axes:
            if ax.concrete:
                opts.append(list(ax.enum()))
            else:
                opts.append([ax.fresh("k")])
        out = []
        for ix in itertools.product(*opts):
            g = t_and(*[ax.guard(i) for ax, i in zip(a.axes, ix) if not ax.concrete])
            out.append((g, to_bool(a.at(tuple(ix)))))
        return out

    def assume(self, cond):
        import z3
        from .sym import t_implies, lift, to_bool, SV
        from .arr import SArr, as_sarr

        if isinstance(cond, (bool, np.bool_, SV)):
            self.c.assume(to_bool(lift(cond)))
            return
        a = as_sarr(cond)
        f = a.snap()
        flat = [at for ax in a.axes for at in ax.atoms]
        cuts, p = [], 0
        for ax in a.axes:
            cuts.append((p, p + len(ax.atoms)))
            p += len(ax.atoms)
        axes = list(a.axes)

        def fn(*fl):
            from .sym import t_and
            idx = tuple(tuple(fl[u:v]) for u, v in cuts)
            g = t_and(*[ax.guard(ix) for ax, ix in zip(axes, idx)])
            return t_implies(g, to_bool(f(idx)))

        if flat:
            self.c.add_universal(flat, fn)
        else:
            self.c.assume(fn())

    assume_all = assume

    def ensure(self, name, cond, defined=True):
        from .sym import t_implies, t_and, defined as dfn
        from .sym import z3

        self.n_ensured += 1
        terms = self._cond_terms(cond)
        ok = True
        for i, (g, t) in enumerate(terms):
            nm = name if len(terms) == 1 else f"{name}[{i}]"
            goal = t_implies(g, t_and(t, dfn(t)) if defined else t)
            ok = self.c.prove(nm, goal) and ok
        return ok

    def _cmp(self, name, op, a, b, guard=None, defined=True):
        from .arr import elementwise
        from .sym import t_cmp, t_and, t_implies, to_real, defined as dfn, to_bool, t_or, FALSE, TRUE

        def fn(x, y, *g):
            x, y = to_real(x), to_real(y)
            r = t_cmp(op, x, y)
            if defined:
                r = t_and(r, dfn(x), dfn(y))
            if g:
                r = t_implies(to_bool(g[0]), r)
            return r

        args = (a, b) if guard is None else (a, b, guard)
        return self.ensure(name, elementwise(fn, args, "b"), defined=False)

    def eq(self, name, a, b, defined=True):
        return self._cmp(name, "eq", a, b, defined=defined)

    def le(self, name, a, b):
        return self._cmp(name, "le", a, b)

    def eq_where(self, name, cond, a, b):
        return self._cmp(name, "eq", a, b, guard=cond)

    def le_where(self, name, cond, a, b):
        return self._cmp(name, "le", a, b, guard=cond)

    def angle_eq(self, name, a, b, period):
        from .arr import elementwise
        from .sym import z3, t_and, to_real, defined as dfn

        q = z3.RealVal(str(period))

        def fn(x, y):
            x, y = to_real(x), to_real(y)
            k = z3.ToInt((x - y) / q + z3.RealVal("0.5"))
            return t_and(x - y == q * z3.ToReal(k), dfn(x), dfn(y))

        return self.ensure(name, elementwise(fn, (a, b), "b"), defined=False)

    def lemma(self, name, cond, defined=True):
        if self.ensure(name, cond, defined=defined):
            self.assume(cond)

    def lemma_le(self, name, a, b):
        if self.le(name, a, b):
            self.assume(self.np.less_equal(a, b))

    def lemma_eq(self, name, a, b):
        if self.eq(name, a, b):
            self.assume(self.np.equal(a, b))

    def _fresh_ix(self, dims):
        from .arr import Axis
        from .sym import SV, t_and
        import itertools

        axes = [Axis.of(d) for d in dims]
        opts = []
        for ax in axes:
            if ax.concrete and ax.int_size() <= 8:
                opts.append([(ix, k) for k, ix in enumerate(ax.enum())])
            else:
                ix = ax.fresh("q")
                opts.append([(ix, SV(ax.to_flat(ix)))])
        for combo in itertools.product(*opts):
            g = t_and(*[ax.guard(ix) for ax, (ix, _) in zip(axes, combo) if not ax.concrete])
            yield g, [v for _, v in combo]

    def forall(self, name, dims, fn, eq=False):
        from .sym import lift, t_implies, to_bool, t_and, t_cmp, to_real, defined as dfn

        self.n_ensured += 1
        ok = True
        for g, vals in self._fresh_ix(dims):
            old = self.c.push_guard(g)
            try:
                r = fn(*vals)
                if eq:
                    gg, a, b = r if len(r) == 3 else (True,) + tuple(r)
                    ta, tb = to_real(lift(a)), to_real(lift(b))
                    t = t_implies(to_bool(lift(gg)), t_and(t_cmp("eq", ta, tb), dfn(ta), dfn(tb)))
                else:
                    t = to_bool(lift(r))
                    t = t_and(t, dfn(t))
                ok = self.c.prove(name, t) and ok
            finally:
                self.c.pop_guard(old)
        return ok

    def forall_lemma(self, name, dims, fn):
        ok = self.forall(name, dims, fn)
        if ok:
            from .arr import Axis
            from .sym import SV, lift, t_implies, t_and, to_bool

            axes = [Axis.of(d) for d in dims]
            flat = [a for ax in axes for a in ax.atoms]

            def u(*fl):
                vals, p, g = [], 0, []
                for ax in axes:
                    ix = tuple(fl[p:p + len(ax.atoms)])
                    p += len(ax.atoms)
                    vals.append(SV(ax.to_flat(ix)))
                    g.append(ax.guard(ix))
                return t_implies(t_and(*g), to_bool(lift(fn(*vals))))

            self.c.add_universal(flat, u)

    def approx_le(self, a, b):
        return self.np.less_equal(a, b) if _isarr(a, b) else a <= b

    def approx_eq(self, a, b):
        return self.np.equal(a, b) if _isarr(a, b) else a == b

    def implies(self, a, b):
        return self.np.logical_or(self.np.logical_not(a), b)

    def And(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.np.logical_and(r, x)
        return r

    def Or(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.np.logical_or(r, x)
        return r

    def Not(self, a):
        return self.np.logical_not(a)

    def ite(self, c, a, b):
        return self.np.where(c, a, b)

    def is_true(self, name, x):
        from .sym import Obligation

        self.n_ensured += 1
        if hasattr(x, "t"):
            return self.ensure(name, x)
        ob = Obligation(name, bool(x), "eval", 0.0, detail=None if x else "false")
        ob.path = "".join("T" if d else "F" for d, _ in self.c.trace)
        self.c.obligations.append(ob)
        return bool(x)

    def raises(self, name, exc, fn):
        from .sym import Infeasible, Unsupported, AbortPath

        ok = False
        try:
            fn()
        except (Infeasible, Unsupported, AbortPath):
            raise
        except exc:
            ok = True
        except Exception:
            ok = False
        self.is_true(name, ok)

    def snap(self, a):
        return a.copy()

    def array(self, x):
        from .arr import as_sarr

        return as_sarr(x)

    class float64(np.float64):
        """numpy's float64 as a type, and the identity for symbolic numbers"""

        def __new__(cls, x=0.0):
            from .sym import SV

            return x if isinstance(x, SV) else np.float64(x)

    def frame(self, cols, index=None):
        from .frame import SymFrame

        return SymFrame(cols, index)

    def dataset(self, coords, data):
        from .frame import DataSet
        from .arr import as_sarr

        return DataSet(coords, {k: (d, as_sarr(v).copy()) for k, (d, v) in data.items()})

    def pandas(self, module):
        from .frame import PANDAS

        self.patch(module, "pd", PANDAS)

    def ufun(self, name, lo=None, hi=None, concrete=None, kind="f"):
        import z3
        from .arr import elementwise
        from .sym import to_real, lift

        F = {}

        def fn(*args):
            n = len(args)
            if n not in F:
                f = z3.Function(f"{name}!{n}", *([z3.RealSort()] * n), z3.RealSort())
                F[n] = f

                def fact(*ts):
                    x = f(*ts)
                    out = []
                    if lo is not None:
                        out.append(x >= to_real(lift(lo)))
                    if hi is not None:
                        out.append(x <= to_real(lift(hi)))
                    return out

                self.c.add_fact(f, fact)
            f = F[n]
            return elementwise(lambda *ts: f(*[to_real(t) for t in ts]), args, "f")

        return fn

    def any(self, x):
        return builtins.bool(self.np.any(x))

    def seq(self, name, n, item, state=None, containers=()):
        """A sequence of n elements; state(k): the arrays that a loop over it changes, after k iterations."""
        from .loop import LoopSpec

        return LoopSpec(self, name, n, state or (lambda k: []), containers, item)

    def loop(self, name, n, state, containers=(), keep=False):
        """The invariant of a loop over range(n)."""
        from .loop import LoopSpec

        spec = LoopSpec(self, name, n, state, containers)
        spec.keep = keep
        self.c.loops.append(spec)


def _isarr(*xs):
    return any(getattr(x, "_is_sarr", False) or isinstance(x, np.ndarray) for x in xs)


# =====================================================================  patching
def foxes_modules():
    return [m for n, m in list(sys.modules.items()) if (n == "foxes" or n.startswith("foxes.")) and isinstance(m, types.ModuleType)]


class Patched:
    """Puts the symbolic numpy and builtins into all foxes modules."""

    def __enter__(self):
        from . import npshim

        self.saved = []
        for m in foxes_modules():
            d = m.__dict__
            for k, v in list(d.items()):
                if v is np:
                    self.saved.append((d, k, v))
                    d[k] = npshim.SHIM
                elif v is np.linalg:
                    self.saved.append((d, k, v))
                    d[k] = npshim.SHIM.linalg
                elif isinstance(v, (np.ufunc, types.BuiltinFunctionType, types.FunctionType)) and getattr(v, "__module__", "") is not None \
                        and (isinstance(v, np.ufunc) or str(getattr(v, "__module__", "")).startswith("numpy")):
                    nm = v.__name__
                    if nm in npshim.IMPL:
                        self.saved.append((d, k, v))
                        d[k] = npshim._wrap(nm, v)
            for k, v in npshim.BUILTINS.items():
                if k not in d:
                    self.saved.append((d, k, _MISSING))
                    d[k] = v
            for k, v in npshim.BUILTIN_TYPES.items():
                if k not in d:
                    self.saved.append((d, k, _MISSING))
                    d[k] = v
        return self

    def __exit__(self, *exc):
        for d, k, v in reversed(self.saved):
            if v is _MISSING:
                d.pop(k, None)
            else:
                d[k] = v
        return False
