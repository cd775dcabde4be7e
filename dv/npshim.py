"""The numpy namespace seen by foxes code during symbolic execution."""

import builtins
import itertools
import numpy as _np
import z3

from .sym import *  # noqa
from . import sym as S
from .arr import *  # noqa
from .arr import SArr, Axis, Atom, Mask, elementwise, as_sarr, bc_axes, axis_map, same_axis, zero_ix, link_atoms, _deep_sym, bc_axis

IMPL = {}


def impl(*names):
    def deco(fn):
        for n in names:
            IMPL[n] = fn
        return fn

    return deco


def _ew(name, fn, k=None):
    def f(*args, out=None, where=None, dtype=None, casting=None, **kw):
        if where is not None and where is not True:
            raise Unsupported("ufunc where=")
        r = elementwise(fn, args, k)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r

    f.__name__ = name
    IMPL[name] = f
    return f


for _n, _f in {
    "add": np_add, "subtract": np_sub, "multiply": t_mul, "divide": t_div, "true_divide": t_div,
    "floor_divide": t_floordiv, "mod": t_mod, "remainder": t_mod, "power": t_pow, "float_power": t_pow,
    "minimum": t_min, "maximum": t_max, "sqrt": t_sqrt, "exp": t_exp, "log": t_log,
    "log10": lambda a: t_div(t_log(a), t_log(z3.RealVal(10))),
    "sin": t_sin, "cos": t_cos, "tan": t_tan, "arctan": t_atan, "arctan2": t_atan2,
    "arccos": t_acos, "arcsin": t_asin, "tanh": t_tanh, "deg2rad": t_deg2rad, "rad2deg": t_rad2deg,
    "radians": t_deg2rad, "degrees": t_rad2deg,
    "abs": t_abs, "absolute": t_abs, "fabs": t_abs, "negative": t_neg, "positive": lambda a: a,
    "sign": t_sign, "floor": t_floor, "ceil": lambda a: t_neg(t_floor(t_neg(to_real(a)))),
    "square": lambda a: t_mul(a, a), "reciprocal": lambda a: t_div(z3.RealVal(1), a),
    "hypot": lambda a, b: t_sqrt(t_add(t_mul(a, a), t_mul(b, b))),
    "fmin": t_min, "fmax": t_max,
    "trunc": lambda a: to_real(t_toint(a)),
    "cbrt": lambda a: z3.If(a >= 0, POW(a, z3.RealVal("1/3")), -POW(-a, z3.RealVal("1/3"))),
}.items():
    _ew(_n, _f)
for _n, _f in {
    "logical_and": t_and, "logical_or": t_or, "logical_not": t_not,
    "logical_xor": lambda a, b: t_not(S._iff(to_bool(a), to_bool(b))),
    "bitwise_and": t_bitand, "bitwise_or": t_bitor, "invert": t_not,
    "less": lambda a, b: t_cmp("lt", a, b), "less_equal": lambda a, b: t_cmp("le", a, b),
    "greater": lambda a, b: t_cmp("gt", a, b), "greater_equal": lambda a, b: t_cmp("ge", a, b),
    "equal": lambda a, b: t_cmp("eq", a, b), "not_equal": lambda a, b: t_cmp("ne", a, b),
    "isnan": lambda a: t_not(defined_num(to_real(a))),
    "isfinite": lambda a: defined(to_real(a)),
    "isinf": lambda a: t_or(t_cmp("eq", to_real(a), INF), t_cmp("eq", to_real(a), -INF)) if not defined_trivially(to_real(a)) else FALSE,
}.items():
    _ew(_n, _f, "b")


@impl("nan_to_num")
def np_nan_to_num(a, copy=True, nan=0.0, **kw):
    return elementwise(lambda t: t_if(defined_num(to_real(t)), t, lift(float(nan))), (a,))


@impl("clip")
def np_clip(a, a_min=None, a_max=None, **kw):
    r = a
    if a_min is not None:
        r = IMPL["maximum"](r, a_min)
    if a_max is not None:
        r = IMPL["minimum"](r, a_max)
    return r


@impl("where")
def np_where(c, *ab):
    if not ab:
        return np_nonzero(c)
    a, b = ab
    return elementwise(lambda c_, a_, b_: t_if(c_, a_, b_), (c, a, b))


@impl("nonzero")
def np_nonzero(c):
    """For each axis the indices of the true elements."""
    c = as_sarr(c)
    if c.k != "b" or not c.ndim:
        raise Unsupported("indices of the true elements of a non-boolean array")
    arrs = c._index_arrays([(0, c)])
    out = []
    for (p, axes, fn), a in zip(arrs, c.axes):

        def get(idx, fn=fn, a=a):
            ix = fn(idx)
            return ix[0] if len(ix) == 1 else a.to_flat(ix)

        out.append(SArr.new(axes, "i", get))
    return tuple(out)


@impl("isclose")
def np_isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    return elementwise(lambda x, y: t_cmp("le", t_abs(t_sub(x, y)), t_add(real_of(atol), t_mul(real_of(rtol), t_abs(y)))), (a, b), "b")


@impl("allclose")
def np_allclose(a, b, **kw):
    return np_all(np_isclose(a, b, **kw))


@impl("array_equal")
def np_array_equal(a, b):
    return np_all(elementwise(lambda x, y: t_cmp("eq", x, y), (a, b), "b"))


# ------------------------------------------------------------------ creation
def _kind(dtype, default="f"):
    if dtype is None:
        return default
    k = _np.dtype(dtype).kind
    return {"u": "i"}.get(k, k)


def _axes_of(shape):
    if isinstance(shape, (int, _np.integer, SV)):
        shape = (shape,)
    if isinstance(shape, SArr):
        shape = tuple(shape)
    return [Axis.of(s) for s in shape]


def _const(v, k):
    t = cast(lift(v), k)
    return lambda idx: t


@impl("zeros", "empty")
def np_zeros(shape, dtype=None, order=None, **kw):
    k = _kind(dtype)
    return SArr.new(_axes_of(shape), k, _const(0, k))


@impl("ones")
def np_ones(shape, dtype=None, **kw):
    k = _kind(dtype)
    return SArr.new(_axes_of(shape), k, _const(1, k))


@impl("full")
def np_full(shape, fill_value, dtype=None, **kw):
    if dtype is None:
        if is_sym(fill_value) or isinstance(fill_value, _np.ndarray):
            k = as_sarr(fill_value).k
        else:
            k = kind(lift(fill_value))
    else:
        k = _kind(dtype)
    out = SArr.new(_axes_of(shape), k, _const(0, k))
    out[...] = fill_value
    return out


def _like(a):
    return as_sarr(a)


@impl("zeros_like", "empty_like")
def np_zeros_like(a, dtype=None, shape=None, **kw):
    a = _like(a)
    k = _kind(dtype, a.k)
    return SArr.new(a.axes if shape is None else _axes_of(shape), k, _const(0, k))


@impl("ones_like")
def np_ones_like(a, dtype=None, **kw):
    a = _like(a)
    k = _kind(dtype, a.k)
    return SArr.new(a.axes, k, _const(1, k))


@impl("full_like")
def np_full_like(a, fill_value, dtype=None, **kw):
    a = _like(a)
    k = _kind(dtype, a.k)
    out = SArr.new(a.axes, k, _const(0, k))
    out[...] = fill_value
    return out


@impl("array", "asarray", "asanyarray", "ascontiguousarray")
def np_array(a, dtype=None, copy=None, **kw):
    if isinstance(a, SArr) and dtype is None and copy in (None, False):
        return a
    r = as_sarr(a)
    if dtype is not None and _kind(dtype) != r.k:
        return r.astype(dtype)
    return r.copy() if r is a else r


def _asarray_shares(a, dtype=None, **kw):
    r = as_sarr(a)
    if dtype is not None and _kind(dtype) != r.k:
        return r.astype(dtype)
    return r


IMPL["asarray"] = _asarray_shares
IMPL["asanyarray"] = _asarray_shares


def _np_array_copying(a, dtype=None, copy=True, **kw):
    r = as_sarr(a)
    if dtype is not None and _kind(dtype) != r.k:
        return r.astype(dtype)
    return r.copy() if isinstance(a, SArr) and copy is not False else r


IMPL["array"] = _np_array_copying


@impl("copy")
def np_copy(a, **kw):
    return as_sarr(a).copy()


@impl("arange")
def np_arange(*args, dtype=None, **kw):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    else:
        start, stop, step = (list(args) + [1])[:3]
    if not any(is_sym(x) for x in (start, stop, step)):
        return as_sarr(_np.arange(start, stop, step, dtype=dtype))
    if not (isinstance(step, int) and step == 1):
        raise Unsupported("np.arange with symbolic step")
    if not is_sym(start) and start == 0:
        ax = Axis.of(stop)
        if len(ax.atoms) > 1 or ax.mask is not None:
            ax = Axis((Atom(stop.t),))
    else:
        n = z3.simplify(t_sub(lift(stop), lift(start)))
        ctx().must(t_cmp("ge", n, z3.IntVal(0)), "arange length")
        ax = Axis.of(SV(n))
    s0 = lift(start)
    k = _kind(dtype, "i")

    def fn(idx):
        i = idx[0][0] if idx[0] else z3.IntVal(0)
        return cast(t_add(i, s0), k)

    return SArr.new([ax], k, fn)


@impl("linspace")
def np_linspace(a, b, num=50, endpoint=True, dtype=None, **kw):
    ax = Axis.of(num)
    n = lift(num)
    den = to_real(t_sub(n, z3.IntVal(1))) if endpoint else to_real(n)
    a, b = to_real(lift(a)), to_real(lift(b))
    if is_num(z3.simplify(den)) and frac_of(z3.simplify(den)) == 0:
        return SArr.new([ax], "f", lambda idx: a)

    def fn(idx):
        i = to_real(ax.to_flat(idx[0]))
        return t_add(a, t_div(t_mul(t_sub(b, a), i), den))

    return SArr.new([ax], "f", fn)


@impl("eye", "identity")
def np_eye(n, **kw):
    return as_sarr(_np.eye(int(n)))


# ------------------------------------------------------------------ joining
@impl("concatenate")
def np_concatenate(arrs, axis=0, **kw):
    arrs = [as_sarr(a) for a in arrs]
    if axis is None:
        arrs = [a.reshape(-1) for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    axis %= nd
    k = "f" if any(a.k == "f" for a in arrs) else ("i" if any(a.k == "i" for a in arrs) else "b")
    other = []
    maps = [[None] * nd for _ in arrs]
    for p in range(nd):
        if p == axis:
            other.append(None)
            continue
        ax = arrs[0].axes[p]
        for a in arrs:
            if ax.unit and not a.axes[p].unit:
                ax = a.axes[p]
        for i, a in enumerate(arrs):
            b = a.axes[p]
            if not (b is ax or same_axis(ax, b)):
                ctx().must(ax.size_term() == b.size_term(), "concatenate dimensions")
            maps[i][p] = axis_map(ax, b)
        other.append(ax)
    if all(a.axes[axis].concrete for a in arrs):
        sizes = [a.axes[axis].int_size() for a in arrs]
        new = Axis.of(sum(sizes))
        offs = [z3.IntVal(x) for x in itertools.accumulate([0] + sizes)]
    else:
        sizes = [a.axes[axis] for a in arrs]
        nonempty = [a for a in sizes if not (a.concrete and a.int_size() == 0)]
        if len(nonempty) == 1:
            i0 = sizes.index(nonempty[0])
            a = arrs[i0]
            return a.copy() if a.k == k else a.astype({"f": float, "i": int, "b": bool}[k])
        if any(a.mask is not None for a in sizes):
            raise Unsupported("concatenate of masked axes")
        offs = [z3.IntVal(0)]
        for a in sizes:
            offs.append(z3.simplify(t_add(offs[-1], a.size_term())))
        new = Axis.of(SV(offs[-1]))
    snaps = [a.snap() for a in arrs]

    def fn(idx):
        f = new.to_flat(idx[axis])
        r = None
        for i in reversed(range(len(arrs))):
            a = arrs[i].axes[axis]
            loc = z3.simplify(t_sub(f, offs[i]))
            if is_num(loc):
                c = frac_of(loc)
                if c < 0 or (a.concrete and c >= a.int_size()):
                    continue
            full = tuple(a.from_flat(loc) if p == axis else maps[i][p](idx[p]) for p in range(nd))
            v = cast(snaps[i](full), k)
            r = v if r is None else t_if(t_cmp("lt", f, offs[i + 1]), v, r)
        return r

    axes = [new if p == axis else other[p] for p in range(nd)]
    return SArr.new(axes, k, fn)


@impl("append")
def np_append(a, b, axis=None):
    return np_concatenate([a, b], axis=axis)


@impl("stack")
def np_stack(arrs, axis=0, **kw):
    arrs = [as_sarr(a) for a in arrs]
    nd = arrs[0].ndim + 1
    axis %= nd
    ex = [a[tuple([slice(None)] * axis + [None])] if a.ndim else as_sarr(a.item())[None] for a in arrs]
    return np_concatenate(ex, axis=axis)


@impl("hstack")
def np_hstack(arrs):
    return np_concatenate(arrs, axis=0 if as_sarr(arrs[0]).ndim == 1 else 1)


@impl("vstack")
def np_vstack(arrs):
    return np_concatenate([a if as_sarr(a).ndim > 1 else as_sarr(a)[None, :] for a in arrs], axis=0)


@impl("column_stack")
def np_column_stack(arrs):
    return np_concatenate([as_sarr(a)[:, None] if as_sarr(a).ndim == 1 else a for a in arrs], axis=1)


@impl("dstack")
def np_dstack(arrs):
    return np_concatenate([as_sarr(a)[..., None] for a in arrs], axis=-1)


@impl("repeat")
def np_repeat(a, n, axis=None, _front=False):
    a = as_sarr(a)
    if axis is None:
        raise Unsupported("repeat without axis")
    axis %= a.ndim
    b = Axis.of(n)
    f = a.snap()
    if not a.axes[axis].unit:
        x = a.axes[axis]
        if x.mask is not None or not isinstance(n, (int, _np.integer, SV)):
            raise Unsupported("repeat of a masked axis")
        k = len(x.atoms)
        if _front:
            ax, cut = Axis(tuple(b.atoms) + tuple(x.atoms)), lambda ix: ix[len(b.atoms):]
        else:
            ax, cut = Axis(tuple(x.atoms) + tuple(b.atoms)), lambda ix: ix[:k]
        return SArr.new([ax if p == axis else y for p, y in enumerate(a.axes)], a.k,
                        lambda idx: f(tuple(cut(ix) if p == axis else ix for p, ix in enumerate(idx))))
    return SArr.new([b if p == axis else x for p, x in enumerate(a.axes)], a.k,
                    lambda idx: f(tuple(() if p == axis else ix for p, ix in enumerate(idx))))


@impl("tile")
def np_tile(a, reps):
    a = as_sarr(a)
    if not isinstance(reps, tuple):
        reps = (reps,)
    while a.ndim < len(reps):
        a = a[None]
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    for p, r in enumerate(reps):
        if not is_sym(r) and r == 1:
            continue
        a = np_repeat(a, r, axis=p, _front=True)
    return a


@impl("broadcast_to")
def np_broadcast_to(a, shape, **kw):
    out = np_zeros(shape, dtype=as_sarr(a).dtype)
    out[...] = a
    return out


@impl("broadcast_arrays")
def np_broadcast_arrays(*arrs):
    arrs = [as_sarr(a) for a in arrs]
    axes, maps = bc_axes([a.axes for a in arrs])
    return [SArr.new(axes, a.k, lambda idx, f=a.snap(), m=m: f(m(idx))) for a, m in zip(arrs, maps)]


# ------------------------------------------------------------------ shape
@impl("reshape")
def np_reshape(a, shape, **kw):
    return as_sarr(a).reshape(shape)


@impl("ravel")
def np_ravel(a, **kw):
    return as_sarr(a).reshape(-1)


@impl("transpose")
def np_transpose(a, axes=None):
    a = as_sarr(a)
    return a.transpose(*(axes or ()))


@impl("swapaxes")
def np_swapaxes(a, x, y):
    return as_sarr(a).swapaxes(x, y)


@impl("moveaxis")
def np_moveaxis(a, src, dst):
    a = as_sarr(a)
    src %= a.ndim
    dst %= a.ndim
    order = [i for i in range(a.ndim) if i != src]
    order.insert(dst, src)
    return a.transpose(*order)


@impl("squeeze")
def np_squeeze(a, axis=None):
    return as_sarr(a).squeeze(axis)


@impl("expand_dims")
def np_expand_dims(a, axis):
    a = as_sarr(a)
    axis %= a.ndim + 1
    return a[tuple([slice(None)] * axis + [None])]


@impl("atleast_1d")
def np_atleast_1d(a):
    a = as_sarr(a)
    return a if a.ndim else a[None]


@impl("shape")
def np_shape(a):
    return as_sarr(a).shape


@impl("ndim")
def np_ndim(a):
    return as_sarr(a).ndim


@impl("size")
def np_size(a):
    return as_sarr(a).size


@impl("flip")
def np_flip(a, axis=None):
    a = as_sarr(a)
    if axis is None:
        raise Unsupported("flip without axis")
    axis %= a.ndim
    return a[tuple([slice(None)] * axis + [slice(None, None, -1)])]


# ------------------------------------------------------------------ reductions
def _norm_axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return sorted(x % a.ndim for x in axis)
    return [axis % a.ndim]


def _reduce(a, axis, fold, keepdims=False, k=None):
    """fold(axes, body: ix tuple list -> term, guard) -> term"""
    a = as_sarr(a)
    red = _norm_axes(a, axis)
    rest = [p for p in range(a.ndim) if p not in red]
    f = a.snap()
    raxes = [a.axes[p] for p in red]
    nd = a.ndim

    def fn(idx):
        def body(ixs):
            full = [None] * nd
            for p, ix in zip(rest, idx):
                full[p] = ix
            for p, ix in zip(red, ixs):
                full[p] = ix
            return f(tuple(full))

        return fold(raxes, body)

    axes = [a.axes[p] for p in rest]
    kk = k or a.k
    r = SArr.new(axes, kk, lambda idx: cast(fn(idx), kk))
    if keepdims:
        items = tuple(None if p in red else slice(None) for p in range(nd))
        return r[items]
    if not axes:
        return SV(r.at(()))
    return r


def _enum(raxes):
    return itertools.product(*[list(ax.enum()) for ax in raxes])


def _all_concrete(raxes):
    return builtins.all(a.concrete for a in raxes)


def fold_sum(raxes, body):
    # split concrete and symbolic atoms
    conc = [ax for ax in raxes if ax.concrete]
    symb = [ax for ax in raxes if not ax.concrete]
    tot = z3.IntVal(0)
    for cix in itertools.product(*[list(ax.enum()) for ax in conc]):
        it = iter(cix)

        def assemble(six):
            jt = iter(six)
            it2 = iter(cix)
            return [next(it2) if ax.concrete else next(jt) for ax in raxes]

        if symb:
            t = sym_sum(symb, lambda six: body(assemble(six)))
        else:
            t = body(list(cix))
        if z3.is_bool(t):
            t = to_int(t)
        tot = t_add(tot, t)
    return tot


_bound = {}


def bound_var(atom):
    key = atom.uid
    if key not in _bound:
        _bound[key] = z3.Int(f"bv!{key}")
    return _bound[key]


def sym_sum(axes, body):
    """A sum over symbolic axes in a normal form over monomials."""
    ixs = [tuple(bound_var(a) for a in ax.atoms) for ax in axes]
    bvs = [v for ix in ixs for v in ix]
    t = body(ixs)
    if z3.is_bool(t):
        t = to_int(t)
    isint = z3.is_int(t)
    t = to_real(t)
    for ax, ix in zip(axes, ixs):
        if ax.mask is not None:
            t = t_if(ax.mask.fn(ix), t, z3.RealVal(0))
    n = z3.IntVal(1)
    for ax in axes:
        for a in ax.atoms:
            n = t_mul(n, a.term())
    res = z3.RealVal(0)
    for coef, free, bounded in monomials(t, bvs):
        if not bounded:
            s = to_real(n)
        else:
            b = bounded[0] if len(bounded) == 1 else prod_terms(bounded)
            s = sum_const(axes, bvs, b)
        term = s
        for x in free:
            term = t_mul(x, term)
        res = t_add(res, t_mul(coef, term))
    if is_square(t) and not z3.is_rational_value(res):
        ctx().assume(res >= 0)
    return res


def is_square(t):
    """Is t non-negative by its form? (a square, or a choice between such)"""
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        return t.num_args() == 2 and t.arg(0).eq(t.arg(1))
    if k == z3.Z3_OP_ITE:
        return all(is_square(x) or (z3.is_rational_value(x) and x.as_fraction() >= 0) for x in t.children()[1:])
    return False


def prod_terms(ts):
    ts = sorted(ts, key=lambda x: x.sexpr())
    r = ts[0]
    for x in ts[1:]:
        r = r * x
    return r


def sum_const(axes, bvs, b):
    key = (tuple(v.get_id() for v in bvs), b.get_id())
    c = ctx()
    hit = c.sumconsts.get(key)
    if hit is not None:
        return hit[0]
    s = z3.Real(c.uid("sum"))
    c.sumconsts[key] = (s, b, bvs, axes)
    for fn in c.sumfacts:
        for f in fn(s, b, bvs, axes) or ():
            c.assume(f)
            if z3.is_eq(f) and f.arg(0).get_id() == s.get_id() and z3.is_rational_value(f.arg(1)):
                c.sumconsts[key] = (f.arg(1), b, bvs, axes)
    return c.sumconsts[key][0]


def mentions(t, bvs):
    ids = {v.get_id() for v in bvs}
    stack, seen = [t], set()
    while stack:
        e = stack.pop()
        if e.get_id() in ids:
            return True
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        stack.extend(e.children())
    return False


_canon = {}
_CMP = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}
_POLY = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL)


def canon(t):
    """An equal term in a normal form: polynomials expanded and sorted, comparisons as polynomial <= 0, < 0 or = 0."""
    hit = _canon.get(t.get_id())
    if hit is not None:
        return hit[1]
    r = t
    if z3.is_app(t) and t.num_args() > 0:
        k, ch = t.decl().kind(), t.children()
        if k in _CMP and z3.is_arith(ch[0]):
            op = _CMP[k]
            d = ch[0] - ch[1] if op in ("le", "lt", "eq") else ch[1] - ch[0]
            lead, p = _canon_poly(d)
            zero = z3.RealVal(0) if z3.is_real(p) else z3.IntVal(0)
            if op == "eq" and lead < 0:
                lead, p = _canon_poly(-p)
            r = p == zero if op == "eq" else (p <= zero if op in ("le", "ge") else p < zero)
        elif k in _POLY and z3.is_arith(t):
            r = _canon_poly(t, scale=False)[1]
        else:
            cs = [canon(c) for c in ch]
            if any(a.get_id() != b.get_id() for a, b in zip(cs, ch)):
                r = z3.And(cs) if z3.is_and(t) else z3.Or(cs) if z3.is_or(t) else t.decl()(*cs)
    _canon[t.get_id()] = (t, r)
    return r


def _canon_poly(t, scale=True):
    from .backend import expand
    from fractions import Fraction

    real = z3.is_real(t)
    ms = {}
    for c, fs in expand(t):
        fs = sorted((canon(f) if z3.is_app(f) and f.decl().kind() not in _POLY else f for f in fs), key=lambda f: f.sexpr())
        key = tuple(f.get_id() for f in fs)
        ms.setdefault(key, [Fraction(0), fs])[0] += c
    lst = sorted(((c, fs) for c, fs in ms.values() if c != 0), key=lambda m: [f.sexpr() for f in m[1]], reverse=True)
    if not lst:
        return 1, (z3.RealVal(0) if real else z3.IntVal(0))
    lead = lst[0][0]
    if scale and real:
        lst = [(c / abs(lead), fs) for c, fs in lst]
    out = None
    for c, fs in lst:
        if real:
            m = z3.RealVal(c)
            fs = [z3.ToReal(f) if z3.is_int(f) else f for f in fs]
        else:
            m = z3.IntVal(int(c))
        m = None if c == 1 and fs else m
        for f in fs:
            m = f if m is None else m * f
        out = m if out is None else out + m
    return lead, out


def monomials(t, bvs):
    """[(coef term (number), [free factors], [bounded factors])]"""
    from .backend import expand

    out = {}
    order = []
    for coef, factors in expand(t):
        factors = [canon(f) if z3.is_app(f) and f.decl().kind() not in _POLY else f for f in factors]
        free = [f for f in factors if not mentions(f, bvs)]
        bnd = [f for f in factors if mentions(f, bvs)]
        out_key = (tuple(sorted(f.get_id() for f in free)), tuple(sorted(f.get_id() for f in bnd)))
        if out_key in out:
            out[out_key][0] += coef
        else:
            out[out_key] = [coef, free, bnd]
            order.append(out_key)
    return [(numval(out[k][0], "f"), out[k][1], out[k][2]) for k in order if out[k][0] != 0]


@impl("sum", "nansum")
def np_sum(a, axis=None, dtype=None, keepdims=False, **kw):
    a = as_sarr(a)
    if a.k == "b" and axis is None and not keepdims:
        r = _count_true(a)
        if r is not None:
            return r
    return _reduce(a, axis, fold_sum, keepdims, k="f" if a.k == "f" else "i")


def _count_true(a):
    """Number of true entries: the size of the axis selected by the mask."""
    atoms = [at for ax in a.axes for at in ax.atoms]
    if not atoms or builtins.any(ax.mask is not None for ax in a.axes):
        return None
    cuts, p = [], 0
    for ax in a.axes:
        cuts.append((p, p + len(ax.atoms)))
        p += len(ax.atoms)
    f = a.snap()
    fn = cached1(lambda fl: to_bool(f(tuple(tuple(fl[u:v]) for u, v in cuts))))
    body = z3.simplify(fn(tuple(bound_var(at) for at in atoms)))
    if z3.is_true(body) or z3.is_false(body) or _all_concrete(a.axes):
        return None
    key = ("count", tuple(at.uid for at in atoms), body.get_id())
    hit = ctx().sumconsts.get(key)
    if hit is None:
        ax = Axis(atoms, Mask(fn))
        hit = ctx().sumconsts[key] = (ax, body, None, None)
    return SV(hit[0].size_term(), axis=hit[0])


def _count(raxes):
    n = z3.IntVal(1)
    for ax in raxes:
        n = t_mul(n, ax.size_term())
    return n


@impl("mean")
def np_mean(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, lambda ax, b: t_div(fold_sum(ax, b), _count(ax)), keepdims, k="f")


@impl("average")
def np_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(a, axis)
    a, w = as_sarr(a), as_sarr(weights)
    if a.ndim != w.ndim:
        raise Unsupported("np.average with lower-dim weights")
    return np_sum(elementwise(t_mul, (a, w)), axis) / np_sum(w, axis)


@impl("std")
def np_std(a, axis=None, **kw):
    a = as_sarr(a)
    m = np_mean(a, axis, keepdims=True)
    d = a - m
    return IMPL["sqrt"](np_mean(d * d, axis))


@impl("var")
def np_var(a, axis=None, **kw):
    a = as_sarr(a)
    m = np_mean(a, axis, keepdims=True)
    d = a - m
    return np_mean(d * d, axis)


@impl("prod", "product")
def np_prod(a, axis=None, keepdims=False, **kw):
    if isinstance(a, (tuple, list)) and axis is None:
        r = 1
        for x in a:
            r = x * r if isinstance(x, SV) else r * x
        return r

    def fold(raxes, body):
        if not _all_concrete(raxes):
            raise Unsupported("product over a symbolic dimension")
        r = z3.IntVal(1)
        for ix in _enum(raxes):
            r = t_mul(r, body(list(ix)))
        return r

    return _reduce(a, axis, fold, keepdims)


@impl("cumsum")
def np_cumsum(a, axis=None, **kw):
    a = as_sarr(a)
    if axis is None:
        axis = 0
        a = a.reshape(-1)
    axis %= a.ndim
    if not a.axes[axis].concrete:
        raise Unsupported("cumsum over a symbolic dimension")
    n = a.axes[axis].int_size()
    parts = []
    tot = None
    for i in range(n):
        x = a[tuple([slice(None)] * axis + [i])]
        tot = x if tot is None else tot + x
        parts.append(tot)
    return np_stack(parts, axis=axis)


def _fresh_reduce(name, raxes, body, sort, make_facts):
    """A fresh constant with facts about all elements."""
    c = ctx()
    m = z3.Const(c.uid(name), sort)
    wit = [ax.fresh("w") for ax in raxes]
    make_facts(c, m, wit)
    return m


def _extremum(raxes, body, op):
    if _all_concrete(raxes):
        r = None
        for ix in _enum(raxes):
            t = body(list(ix))
            r = t if r is None else (t_min(r, t) if op == "min" else t_max(r, t))
        if r is None:
            raise ValueError("zero-size array to reduction operation")
        return r
    c = ctx()
    flat = [a for ax in raxes for a in ax.atoms]
    cuts = []
    p = 0
    for ax in raxes:
        cuts.append((p, p + len(ax.atoms)))
        p += len(ax.atoms)

    def of_flat(fl):
        return [tuple(fl[a:b]) for a, b in cuts]

    bvs = [bound_var(a) for a in flat]
    b = body(of_flat(bvs))
    key = ("ext", op, tuple(v.get_id() for v in bvs), b.get_id())
    hit = c.sumconsts.get(key)
    if hit is not None:
        return hit[0]
    m = z3.Const(c.uid(op), b.sort())
    c.sumconsts[key] = (m, b, bvs, None)
    wit = [ax.fresh("w") for ax in raxes]
    guard = lambda ixs: t_and(*[ax.guard(ix) for ax, ix in zip(raxes, ixs)])
    nonempty = t_and(*[t_cmp("gt", ax.size_term(), z3.IntVal(0)) for ax in raxes])
    if not c.entails(nonempty):
        if not c.decide(nonempty):
            raise ValueError("zero-size array to reduction operation")
    c.assume(t_and(guard(wit), m == body(wit)))
    cmpop = "ge" if op == "min" else "le"
    c.add_universal(flat, lambda *fl: t_implies(guard(of_flat(fl)), t_cmp(cmpop, body(of_flat(fl)), m)))
    return m


@impl("max", "amax", "nanmax")
def np_max(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, lambda ax, b: _extremum(ax, b, "max"), keepdims)


@impl("min", "amin", "nanmin")
def np_min(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, lambda ax, b: _extremum(ax, b, "min"), keepdims)


def _quant(raxes, body, op):
    """any / all"""
    neg = op == "all"
    if _all_concrete(raxes):
        ts = [to_bool(body(list(ix))) for ix in _enum(raxes)]
        return t_and(*ts) if neg else t_or(*ts)
    c = ctx()
    flat = [a for ax in raxes for a in ax.atoms]
    cuts = []
    p = 0
    for ax in raxes:
        cuts.append((p, p + len(ax.atoms)))
        p += len(ax.atoms)
    of_flat = lambda fl: [tuple(fl[a:b]) for a, b in cuts]
    bvs = [bound_var(a) for a in flat]
    guard = lambda ixs: t_and(*[ax.guard(ix) for ax, ix in zip(raxes, ixs)])
    e = to_bool(body(of_flat(bvs)))
    e = t_not(e) if neg else e
    b = z3.simplify(t_and(guard(of_flat(bvs)), e))
    if z3.is_false(b):
        return TRUE if neg else FALSE
    if z3.is_true(z3.simplify(e)) and all(ax.mask is None for ax in raxes):  # holds for every entry: depends on the size only
        t = z3.simplify(t_and(*[a.term() > 0 for a in flat]))
        return t_not(t) if neg else t
    key = ("any", tuple(v.get_id() for v in bvs), b.get_id())
    hit = c.sumconsts.get(key)
    if hit is not None:
        return t_not(hit[0]) if neg else hit[0]
    ex = z3.Bool(c.uid("any"))
    c.sumconsts[key] = (ex, b, bvs, None)

    def elem(ixs):
        t = to_bool(body(ixs))
        return t_and(guard(ixs), t_not(t) if neg else t)

    wit = [ax.fresh("w") for ax in raxes]
    c.assume(t_implies(ex, elem(wit)))
    c.add_universal(flat, lambda *fl: t_implies(t_not(ex), t_not(elem(of_flat(fl)))))
    zero = of_flat([z3.IntVal(0)] * len(flat))
    if all(ax.mask is None for ax in raxes):
        c.assume(t_implies(t_not(ex), t_not(elem(zero))))
    return t_not(ex) if neg else ex


@impl("any")
def np_any(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, lambda ax, b: _quant(ax, b, "any"), keepdims, k="b")


@impl("all")
def np_all(a, axis=None, keepdims=False, **kw):
    return _reduce(a, axis, lambda ax, b: _quant(ax, b, "all"), keepdims, k="b")


@impl("count_nonzero")
def np_count_nonzero(a, axis=None, **kw):
    a = as_sarr(a)
    return np_sum(elementwise(lambda t: to_int(to_bool(t)), (a,), "i"), axis=axis)


@impl("linalg.norm")
def np_norm(a, ord=None, axis=None, keepdims=False):
    a = as_sarr(a)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    if axis is None and a.ndim > 1:
        axis = tuple(range(a.ndim))
    s = np_sum(elementwise(lambda t: t_mul(to_real(t), to_real(t)), (a,)), axis=axis, keepdims=keepdims)
    return IMPL["sqrt"](s)


@impl("einsum")
def np_einsum(expr, *ops, **kw):
    if not isinstance(expr, str):
        raise Unsupported("einsum without subscripts")
    ops = [as_sarr(o) for o in ops]
    expr = expr.replace(" ", "")
    if "->" in expr:
        lhs, rhs = expr.split("->")
    else:
        lhs = expr
        letters = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    subs = lhs.split(",")
    if len(subs) != len(ops):
        raise ValueError("einsum operands")
    if "." in expr:
        # the dimensions of an ellipsis, aligned from the right
        free = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in expr]
        n = [o.ndim - len(s.replace("...", "")) if "..." in s else 0 for s, o in zip(subs, ops)]
        if builtins.min(n) < 0 or builtins.max(n) > len(free) or "->" not in expr:
            raise Unsupported("einsum ellipsis")
        names = "".join(free[: builtins.max(n)])
        subs = [s.replace("...", names[len(names) - k :]) for s, k in zip(subs, n)]
        rhs = rhs.replace("...", names)
    axes = {}
    maps = []
    for s, o in zip(subs, ops):
        if len(s) != o.ndim:
            raise ValueError("einstein sum subscripts string contains wrong number of subscripts")
        for c, ax in zip(s, o.axes):
            if c not in axes or (axes[c].unit and not ax.unit):
                axes[c] = ax
    for s, o in zip(subs, ops):
        maps.append([axis_map(axes[c], ax) for c, ax in zip(s, o.axes)])
    red = [c for c in axes if c not in rhs]
    snaps = [o.snap() for o in ops]
    k = "f" if builtins.any(o.k == "f" for o in ops) else "i"

    def elem(env):
        t = None
        for s, m, f in zip(subs, maps, snaps):
            v = f(tuple(mm(env[c]) for c, mm in zip(s, m)))
            if z3.is_bool(v):
                v = to_int(v)
            t = v if t is None else t_mul(t, v)
        return t

    def fn(idx):
        env = dict(zip(rhs, idx))
        if not red:
            return cast(elem(env), k)

        def body(ixs):
            e = dict(env)
            e.update(zip(red, ixs))
            return elem(e)

        return cast(fold_sum([axes[c] for c in red], body), k)

    out_axes = [axes[c] for c in rhs]
    r = SArr.new(out_axes, k, fn)
    return r if out_axes else SV(r.at(()))


@impl("dot", "matmul", "inner")
def np_dot(a, b, **kw):
    a, b = as_sarr(a), as_sarr(b)
    la = "abcdef"[:a.ndim]
    if b.ndim == 1:
        return np_einsum(f"{la},{la[-1]}->{la[:-1]}", a, b)
    lb = la[-1] + "xyz"[:b.ndim - 1]
    if b.ndim > 2:
        raise Unsupported("dot of higher-dim arrays")
    return np_einsum(f"{la},{lb}->{la[:-1]}{lb[1:]}", a, b)


@impl("outer")
def np_outer(a, b, **kw):
    return as_sarr(a)[:, None] * as_sarr(b)[None, :]


@impl("cross")
def np_cross(a, b, axis=-1, **kw):
    a, b = as_sarr(a), as_sarr(b)
    if axis != -1:
        raise Unsupported("cross axis")
    na, nb = a.axes[-1].int_size(), b.axes[-1].int_size()
    if na == 2 and nb == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    if na == 3 and nb == 3:
        return np_stack([
            a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
            a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
            a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0],
        ], axis=-1)
    raise Unsupported("cross of these dimensions")


@impl("cov")
def np_cov(*a, **k):
    raise Unsupported("np.cov")


# ------------------------------------------------------------------ sorting
@impl("argsort")
def np_argsort(a, axis=-1, **kw):
    a = as_sarr(a)
    axis %= a.ndim
    ax = a.axes[axis]
    if ax.unit:
        return SArr.new(a.axes, "i", lambda idx: z3.IntVal(0))
    if len(ax.atoms) != 1 or ax.mask is not None:
        raise Unsupported("argsort over a composite axis")
    c = ctx()
    f = a.snap()
    atom = ax.atoms[0]
    nargs = sum(len(x.atoms) for x in a.axes)
    apos = sum(len(x.atoms) for x in a.axes[:axis])
    sig = [z3.IntSort()] * nargs + [z3.IntSort()]
    name = c.uid("argsort")
    fo = z3.Function(name, *sig)
    fi = z3.Function(name + "inv", *sig)
    c.perms[fo.get_id()] = (apos, fi)
    c.perms_keep.append((fo, fi))
    n = atom.term()
    cuts = []
    p = 0
    for x in a.axes:
        cuts.append((p, p + len(x.atoms)))
        p += len(x.atoms)
    of_flat = lambda fl: tuple(tuple(fl[u:v]) for u, v in cuts)

    def put(args, t):
        args = list(args)
        args[apos] = t
        return args

    seen = []

    def fact_o(*args):
        k = args[apos]
        r = fo(*args)
        out = [z3.Implies(z3.And(k >= 0, k < n), z3.And(r >= 0, r < n, fi(*put(args, r)) == k))]
        vals = f(of_flat(put(args, r)))
        for other in seen:
            same = [x == y for i, (x, y) in enumerate(zip(args, other)) if i != apos]
            k2 = other[apos]
            v2 = f(of_flat(put(other, fo(*other))))
            rng = z3.And(k >= 0, k < n, k2 >= 0, k2 < n)
            out.append(z3.Implies(z3.And(*same, rng, k <= k2), t_cmp("le", vals, v2)))
            out.append(z3.Implies(z3.And(*same, rng, k2 <= k), t_cmp("le", v2, vals)))
        if not builtins.any(all_eq(args, o) for o in seen):
            seen.append(args)
        return out

    def fact_i(*args):
        t = args[apos]
        r = fi(*args)
        return [z3.Implies(z3.And(t >= 0, t < n), z3.And(r >= 0, r < n, fo(*put(args, r)) == t))]

    c.add_fact(fo, fact_o)
    c.add_fact(fi, fact_i)

    def fn(idx):
        return fo(*[t for ix in idx for t in ix])

    return SArr.new(a.axes, "i", fn)


def all_eq(a, b):
    return builtins.all(x.eq(y) for x, y in zip(a, b))


@impl("take_along_axis")
def np_take_along_axis(a, ind, axis):
    a, ind = as_sarr(a), as_sarr(ind)
    axis %= a.ndim
    if a.ndim != ind.ndim:
        raise ValueError("`indices` and `arr` must have the same number of dimensions")
    fa, fi = a.snap(), ind.snap()
    axes, maps = [], []
    for p in range(a.ndim):
        if p == axis:
            axes.append(ind.axes[p])
            maps.append((None, lambda ix: ix))
        else:
            r, ma, mi = bc_axis(a.axes[p], ind.axes[p])
            axes.append(r)
            maps.append((ma, mi))

    def fn(idx):
        iidx = tuple(m[1](ix) for m, ix in zip(maps, idx))
        t = fi(iidx)
        full = tuple(a._int_ix(a.axes[p], t) if p == axis else maps[p][0](idx[p]) for p in range(a.ndim))
        return fa(full)

    return SArr.new(axes, a.k, fn)


@impl("put_along_axis")
def np_put_along_axis(a, ind, values, axis):
    a, ind = as_sarr(a), as_sarr(ind)
    axis %= a.ndim
    items = []
    for p in range(a.ndim):
        if p == axis:
            items.append(ind)
        else:
            n = a.axes[p].dim()
            r = np_arange(n) if not isinstance(n, int) else as_sarr(_np.arange(n))
            items.append(r[tuple(slice(None) if q == p else None for q in range(a.ndim))])
    a[tuple(items)] = values


@impl("argmin")
def np_argmin(a, axis=None, **kw):
    return _argext(a, axis, "le")


@impl("argmax")
def np_argmax(a, axis=None, **kw):
    return _argext(a, axis, "ge")


def _argext(a, axis, cmpop):
    a = as_sarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("argmin without axis")
        axis = 0
    axis %= a.ndim
    f = a.snap()
    ax = a.axes[axis]

    def fold(raxes, body):
        if _all_concrete(raxes):
            best, bi = None, None
            for p, ix in enumerate(_enum(raxes)):
                t = body(list(ix))
                if best is None:
                    best, bi = t, z3.IntVal(0)
                else:
                    c = t_cmp("lt" if cmpop == "le" else "gt", t, best)
                    bi = t_if(c, z3.IntVal(p), bi)
                    best = t_if(c, t, best)
            return bi
        c = ctx()
        at = raxes[0].atoms[0]
        bv = bound_var(at)
        b = body([(bv,)])
        key = ("arg", cmpop, bv.get_id(), b.get_id())
        hit = c.sumconsts.get(key)
        if hit is not None:
            return hit[0]
        m = z3.Int(c.uid("arg"))
        c.sumconsts[key] = (m, b, bv, None)
        c.note_index(at, m)
        c.assume(in_range(m, at))
        c.add_universal([at], lambda j: t_and(t_cmp(cmpop, body([(m,)]), body([(j,)])),
                                              t_implies(t_cmp("lt", j, m), t_not(t_cmp("eq", body([(m,)]), body([(j,)]))))))
        return m

    return _reduce(a, axis, fold, k="i")


@impl("interp")
def np_interp(x, xp, fp, left=None, right=None, period=None):
    """Piecewise linear interpolation on a concrete number of nodes."""
    if period is not None:
        raise Unsupported("interp with period")
    xp, fp = as_sarr(xp), as_sarr(fp)
    if xp.axes[0].concrete:
        n = xp.axes[0].int_size()
        X = [lift(xp[i]) for i in range(n)]
        F = [to_real(lift(fp[i])) for i in range(n)]
        L = F[0] if left is None else to_real(lift(left))
        Rt = F[-1] if right is None else to_real(lift(right))

        def fn(t):
            t = to_real(t)
            r = Rt
            r = t_if(t_cmp("eq", t, X[-1]), F[-1], r)
            for i in reversed(range(n - 1)):
                seg = t_add(F[i], t_mul(t_div(t_sub(F[i + 1], F[i]), t_sub(X[i + 1], X[i])), t_sub(t, X[i])))
                r = t_if(t_cmp("lt", t, X[i + 1]), seg, r)
            return t_if(t_cmp("lt", t, X[0]), L, r)

        return elementwise(fn, (x,), "f")
    return interp_contract(x, xp, fp, left, right)


def interp_contract(x, xp, fp, left, right):
    """Contract of np.interp for an unbounded number of nodes.

    The result is L left of the first and R right of the last node, the node
    value at nodes, and between two neighbouring node values otherwise."""
    c = ctx()
    ax = xp.axes[0]
    at = ax.atoms[0]
    n = at.term()
    fx, ff = xp.snap(), fp.snap()
    X = lambda i: to_real(fx(((i,),)))
    F = lambda i: to_real(ff((axis_map(ax, fp.axes[0])((i,)),)))
    bv = bound_var(at)
    key = ("interp", X(bv).get_id(), F(bv).get_id())
    hit = c.sumconsts.get(key)
    if hit is None:
        g = z3.Function(c.uid("interp"), S.R, S.R)
        seg = z3.Function(c.uid("seg"), S.R, S.I)
        c.sumconsts[key] = ((g, seg), X(bv), F(bv), None)

        def fact(t):
            j = seg(t)
            v = g(t)
            lo, hi = X(z3.IntVal(0)), X(n - 1)
            inside = z3.And(t >= lo, t <= hi)
            c.note_index(at, j)
            return [
                z3.Implies(inside, z3.And(j >= 0, j < n - 1, X(j) <= t, t <= X(j + 1), X(j) < X(j + 1),
                                          v == F(j) + (F(j + 1) - F(j)) * (t - X(j)) / (X(j + 1) - X(j)),
                                          z3.Implies(F(j) <= F(j + 1), z3.And(F(j) <= v, v <= F(j + 1))),
                                          z3.Implies(F(j) >= F(j + 1), z3.And(F(j) >= v, v >= F(j + 1)))))
            ]

        c.add_fact(g, fact)
    g, seg = c.sumconsts[key][0]
    L = F(z3.IntVal(0)) if left is None else to_real(lift(left))
    Rt = F(n - 1) if right is None else to_real(lift(right))
    lo, hi = X(z3.IntVal(0)), X(n - 1)
    return elementwise(lambda t: t_if(t_cmp("lt", to_real(t), lo), L, t_if(t_cmp("gt", to_real(t), hi), Rt, g(to_real(t)))), (x,), "f")


@impl("isin", "in1d")
def np_isin(a, vals, **kw):
    vals = as_sarr(vals)
    ax = vals.axes
    if not builtins.all(x.concrete for x in ax):
        raise Unsupported("isin with symbolic values")
    vs = [vals.at(tuple(ix)) for ix in itertools.product(*[list(x.enum()) for x in ax])]
    return elementwise(lambda t: t_or(*[t_cmp("eq", t, v) for v in vs]), (a,), "b")


@impl("diff")
def np_diff(a, axis=-1, **kw):
    a = as_sarr(a)
    axis %= a.ndim
    pre = tuple([slice(None)] * axis)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


@impl("meshgrid")
def np_meshgrid(*xs, indexing="xy", **kw):
    xs = [as_sarr(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid")
    x, y = xs
    if indexing == "ij":
        return [np_broadcast_arrays(x[:, None], y[None, :])[0], np_broadcast_arrays(x[:, None], y[None, :])[1]]
    r = np_broadcast_arrays(x[None, :], y[:, None])
    return [r[0], r[1]]


@impl("unique", "sort", "histogram2d", "argwhere", "searchsorted", "digitize", "gradient", "percentile", "polyfit", "convolve")
def _unsup(*a, **k):
    raise Unsupported("numpy function without a model")


@impl("isscalar")
def np_isscalar(a):
    return isinstance(a, SV) or _np.isscalar(a)


@impl("issubdtype")
def np_issubdtype(a, b):
    return _np.issubdtype(a, b)


@impl("copyto")
def np_copyto(dst, src, where=True, **kw):
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


@impl("iscomplex")
def np_iscomplex(a):
    return elementwise(lambda t: FALSE, (a,), "b")


@impl("isreal")
def np_isreal(a):
    return elementwise(lambda t: TRUE, (a,), "b")


@impl("round", "around")
def np_round(a, *k, **kw):
    raise Unsupported("np.round")


@impl("trapz", "trapezoid")
def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = as_sarr(y)
    pre = tuple([slice(None)] * (axis % y.ndim))
    d = np_diff(x) if x is not None else dx
    return np_sum((y[pre + (slice(1, None),)] + y[pre + (slice(None, -1),)]) * 0.5 * d, axis=axis)


# ------------------------------------------------------------------ dispatch
def _symbolic_args(args, kw):
    return builtins.any(_deep_sym(a) for a in args) or builtins.any(_deep_sym(a) for a in kw.values())


def dispatch_ufunc(ufunc, method, args, kw):
    if method == "__call__":
        f = IMPL.get(ufunc.__name__)
        if f is None:
            raise Unsupported(f"ufunc {ufunc.__name__}")
        out = kw.pop("out", None)
        if out is not None:
            tgt = out[0] if isinstance(out, tuple) else out
            if isinstance(tgt, _np.ndarray):
                raise Unsupported("symbolic result written to a concrete array")
            r = f(*args, **kw)
            tgt[...] = r
            return tgt
        return f(*args, **kw)
    if method == "reduce":
        f = {"add": np_sum, "multiply": np_prod, "minimum": np_min, "maximum": np_max, "logical_and": np_all, "logical_or": np_any}.get(ufunc.__name__)
        if f is not None:
            return f(args[0], axis=kw.get("axis", 0), keepdims=kw.get("keepdims", False))
    raise Unsupported(f"ufunc method {ufunc.__name__}.{method}")


def dispatch_func(func, args, kw):
    name = func.__name__
    mod = getattr(func, "__module__", "")
    if "linalg" in mod:
        name = "linalg." + name
    f = IMPL.get(name)
    if f is None:
        raise Unsupported(f"numpy function {name}")
    return f(*args, **kw)


class _NDArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, SArr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_np.ndarray, SArr))


class ndarray(metaclass=_NDArrayMeta):
    pass


CREATORS = {"zeros", "ones", "full", "empty", "arange", "linspace", "array", "asarray", "eye", "identity",
            "zeros_like", "ones_like", "full_like", "empty_like", "concatenate", "append", "stack", "tile", "repeat"}
NUMERIC_CREATE = {"zeros", "ones", "full", "empty", "zeros_like", "ones_like", "full_like", "empty_like"}


def _dtype_ok(args, kw):
    dt = kw.get("dtype")
    if dt is not None:
        try:
            return _np.dtype(dt).kind in "fiub"
        except TypeError:
            return False
    return True


class LinalgShim:
    def __getattr__(self, name):
        real = getattr(_np.linalg, name)
        return _wrap("linalg." + name, real)


_wrapped = {}


def _wrap(name, real):
    key = name
    if key in _wrapped:
        return _wrapped[key]
    im = IMPL.get(name)

    def f(*args, **kw):
        args = tuple(_TYPEMAP.get(a, a) if isinstance(a, type) else a for a in args)
        if "dtype" in kw and isinstance(kw["dtype"], type):
            kw["dtype"] = _TYPEMAP.get(kw["dtype"], kw["dtype"])
        if _symbolic_args(args, kw):
            if im is None:
                raise Unsupported(f"numpy function {name}")
            return im(*args, **kw)
        if name in NUMERIC_CREATE and im is not None and _dtype_ok(args, kw):
            # arrays created by the code may receive symbolic values later
            try:
                if name.endswith("_like") and not isinstance(args[0], (list, tuple, _np.ndarray)):
                    return real(*args, **kw)
                if name.endswith("_like") and isinstance(args[0], _np.ndarray) and args[0].dtype.kind not in "fiub":
                    return real(*args, **kw)
                if name == "full" and not isinstance(args[1] if len(args) > 1 else kw.get("fill_value"), (int, float, bool, _np.number, _np.bool_, _np.ndarray, list)):
                    return real(*args, **kw)
                if _np.dtype(kw.get("dtype", args[1] if name in ("zeros", "ones", "empty") and len(args) > 1 else float)).kind not in "fiub":
                    return real(*args, **kw)
            except TypeError:
                return real(*args, **kw)
            return im(*args, **kw)
        return real(*args, **kw)

    f.__name__ = name
    _wrapped[key] = f
    return f


class NumpyShim:
    """Stands in for the numpy module in foxes modules."""

    linalg = LinalgShim()
    ndarray = ndarray
    _real = _np

    def __getattr__(self, name):
        real = getattr(_np, name)
        if isinstance(real, (type, float, int, str)) or real is None:
            return real
        if name in ("s_", "index_exp", "newaxis", "random", "testing", "errstate", "seterr", "datetime64", "timedelta64", "dtype", "char"):
            return real
        if callable(real):
            return _wrap(name, real)
        return real


SHIM = NumpyShim()


# ------------------------------------------------------------------ builtins
def sh_len(x):
    if isinstance(x, SArr):
        return x.sym_len()
    if hasattr(x, "_sym_len"):
        return x._sym_len()
    return len(x)


def sh_range(*args):
    if not builtins.any(isinstance(a, SV) for a in args):
        return range(*args)
    try:
        return range(*[a.__index__() if isinstance(a, SV) else a for a in args])
    except Unsupported:
        pass
    return ctx().sym_range(*args)


def sh_enumerate(x, start=0):
    from .loop import LoopSpec

    if isinstance(x, LoopSpec):
        return ((k + start, e) for k, e in x.run())
    return enumerate(x, start)


def sh_zip(*xs, **kw):
    from .loop import LoopSpec

    if builtins.any(isinstance(x, LoopSpec) for x in xs):
        raise Unsupported("zip of a symbolic sequence")
    return zip(*xs, **kw)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SV):
            return SV(t_toint(x.t), axis=x.axis)
        return int(x, *a)


class sh_int(metaclass=_IntMeta):
    pass


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.item()
        if isinstance(x, SV):
            return SV(to_real(x.t))
        return float(x)


class sh_float(metaclass=_FloatMeta):
    pass


def sh_min(*args, **kw):
    seq = args if len(args) > 1 else list(args[0])
    if builtins.any(isinstance(a, SV) for a in seq) and "key" not in kw:
        r = seq[0]
        for x in seq[1:]:
            r = SV(t_min(lift(r), lift(x)))
        return r
    return min(*args, **kw)


def sh_max(*args, **kw):
    seq = args if len(args) > 1 else list(args[0])
    if builtins.any(isinstance(a, SV) for a in seq) and "key" not in kw:
        r = seq[0]
        for x in seq[1:]:
            r = SV(t_max(lift(r), lift(x)))
        return r
    return max(*args, **kw)


def sh_sum(seq, start=0):
    r = start
    for x in seq:
        r = r + x
    return r


_TYPEMAP = {sh_int: int, sh_float: float, ndarray: _np.ndarray}
BUILTINS = {"len": sh_len, "range": sh_range, "enumerate": sh_enumerate, "zip": sh_zip, "min": sh_min, "max": sh_max, "sum": sh_sum}
BUILTIN_TYPES = {"int": sh_int, "float": sh_float}
