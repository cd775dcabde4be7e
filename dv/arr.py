"""Symbolic numpy arrays with unbounded (symbolic) dimensions.

An array is a view (index map) on a buffer; the buffer content is a total
function from index tuples to z3 terms, so nothing depends on the number of
elements.  In-place writes through views change the buffer, so numpy's aliasing
behaviour is part of the model.
"""

import itertools
import numpy as np
import z3

from .sym import *  # noqa
from . import sym as S

_uid = itertools.count()


class Atom:
    """An elementary index range 0..size-1; size is an int or a z3 Int term."""

    __slots__ = ("size", "uid", "parent", "children", "name", "maskconst")

    def __init__(self, size, name="", parent=None):
        self.size = size
        self.uid = next(_uid)
        self.parent = parent
        self.children = []
        self.name = name
        if parent is not None:
            parent[0].children.append((self, parent[1]))

    @property
    def concrete(self):
        return isinstance(self.size, int)

    def term(self):
        return z3.IntVal(self.size) if self.concrete else self.size


class Mask:
    __slots__ = ("fn", "uid")

    def __init__(self, fn):
        self.fn = fn
        self.uid = next(_uid)


class Axis:
    """A dimension: product of atoms, possibly restricted by a boolean mask."""

    __slots__ = ("atoms", "mask", "_count", "from_src")

    def __init__(self, atoms, mask=None):
        self.atoms = tuple(atoms)
        self.mask = mask
        self._count = None

    @staticmethod
    def of(n, name=""):
        if isinstance(n, (int, np.integer)):
            n = int(n)
            if n < 0:
                raise ValueError("negative dimensions are not allowed")
            return Axis(()) if n == 1 else Axis((Atom(n, name),))
        if isinstance(n, SV):
            if n.axis is not None:
                return n.axis
            t = z3.simplify(n.t)
            if is_num(t):
                return Axis.of(int(frac_of(t)), name)
            if not z3.is_int(t):
                raise TypeError("non-integer array size")
            return Axis((Atom(t, name),))
        raise Unsupported(f"array dimension {type(n).__name__}")

    def times(self, other):
        if self.mask is not None or other.mask is not None:
            if not other.atoms and other.mask is None:
                return self
            if not self.atoms and self.mask is None:
                return other
            return None
        return Axis(self.atoms + other.atoms)

    @property
    def unit(self):
        return not self.atoms and self.mask is None

    @property
    def concrete(self):
        return self.mask is None and all(a.concrete for a in self.atoms)

    def int_size(self):
        n = 1
        for a in self.atoms:
            n *= a.size
        return n

    def size_term(self):
        if self.mask is not None:
            if self._count is None:
                c = z3.Int(ctx().uid("count"))
                self._count = c
                n = z3.IntVal(1)
                for a in self.atoms:
                    n = t_mul(n, a.term())
                ctx().assume(z3.And(c >= 0, c <= n))
                # an empty selection has no selected element and vice versa
                wit = [z3.Int(ctx().uid("cw")) for _ in self.atoms]
                rng = t_and(*[in_range(w, a) for w, a in zip(wit, self.atoms)])
                for w, a in zip(wit, self.atoms):
                    ctx().note_index(a, w)
                ctx().assume(z3.Implies(c > 0, t_and(rng, self.mask.fn(tuple(wit)))))
                m = self.mask.fn
                ctx().add_universal(self.atoms, lambda *ix: t_implies(c == 0, t_not(m(tuple(ix)))))
            return self._count
        n = z3.IntVal(1)
        for a in self.atoms:
            n = t_mul(n, a.term())
        return n

    def dim(self):
        if self.concrete:
            return self.int_size()
        return SV(self.size_term(), axis=self)

    def fresh(self, base="i"):
        ix = []
        for a in self.atoms:
            t = z3.Int(ctx().uid(base + (a.name or "")))
            ctx().note_index(a, t)
            ix.append(t)
        return tuple(ix)

    def guard(self, ix):
        g = [in_range(t, a) for t, a in zip(ix, self.atoms)]
        if self.mask is not None:
            g.append(self.mask.fn(ix))
        return t_and(*g)

    def enum(self):
        """All concrete indices."""
        return itertools.product(*[[z3.IntVal(k) for k in range(a.size)] for a in self.atoms])

    def from_flat(self, t):
        """Index tuple for a flat integer term."""
        if not self.atoms:
            return ()
        if len(self.atoms) == 1:
            return (t,)
        out = []
        for a in reversed(self.atoms[1:]):
            out.append(z3.simplify(t_mod(t, a.term())))
            t = t_floordiv(t, a.term())
        out.append(z3.simplify(t))
        return tuple(reversed(out))

    def to_flat(self, ix):
        t = z3.IntVal(0)
        for x, a in zip(ix, self.atoms):
            t = t_add(t_mul(t, a.term()), x)
        return t


def same_atom(a, b):
    if a is b:
        return True
    if a.concrete and b.concrete:
        return a.size == b.size
    ta, tb = a.term(), b.term()
    if ta.eq(tb):
        return True
    return ctx().entails(ta == tb)


def same_axis(a, b):
    if a is b:
        return True
    if (a.mask is None) != (b.mask is None):
        return False
    if len(a.atoms) != len(b.atoms):
        return False
    for x, y in zip(a.atoms, b.atoms):
        if not same_atom(x, y):
            return False
    if a.mask is not None and a.mask is not b.mask:
        ix = a.fresh()
        m1, m2 = a.mask.fn(ix), b.mask.fn(ix)
        if m1.eq(m2):
            return True
        rng = t_and(*[in_range(t, q) for t, q in zip(ix, a.atoms)])
        return ctx().entails(t_implies(rng, m1 == m2))
    return True


def zero_ix(axis):
    return tuple(z3.IntVal(0) for _ in axis.atoms)


def bc_axis(a, b):
    """Broadcast two axes -> (axis, map for a, map for b)"""
    ident = lambda ix: ix
    if a.unit:
        return b, (lambda ix: ()), ident
    if b.unit:
        return a, ident, (lambda ix: ())
    if same_axis(a, b):
        for x, y in zip(a.atoms, b.atoms):
            link_atoms(x, y)
        return a, ident, ident
    ra = a.mask is None and ctx().entails(a.size_term() == 1)
    rb = b.mask is None and ctx().entails(b.size_term() == 1)
    if ra:
        return b, (lambda ix: zero_ix(a)), ident
    if rb:
        return a, ident, (lambda ix: zero_ix(b))
    if a.mask is None and b.mask is None:
        # composite against flat axes of the same size
        if a.concrete and b.concrete and a.int_size() == b.int_size():
            return a, ident, (lambda ix: b.from_flat(a.to_flat(ix)))
        if ctx().entails(a.size_term() == b.size_term()):
            if len(a.atoms) == 1:
                return b, (lambda ix: a.from_flat(b.to_flat(ix))), ident
            if len(b.atoms) == 1:
                return a, ident, (lambda ix: b.from_flat(a.to_flat(ix)))
            raise Unsupported("broadcast of differently factored axes")
    # may be unequal: numpy raises ValueError; let the path tell
    if a.mask is None and b.mask is None:
        if ctx().decide(a.size_term() == b.size_term()):
            return bc_axis(a, b)
        if ctx().decide(a.size_term() == 1):
            return bc_axis(a, b)
        if ctx().decide(b.size_term() == 1):
            return bc_axis(a, b)
    raise ValueError("operands could not be broadcast together (symbolic)")


def link_atoms(x, y):
    """Index terms of equal ranges are shared for fact instantiation."""
    if x is y or x.concrete or y.concrete:
        return
    if not any(c is y for c, _ in x.children):
        x.children.append((y, z3.IntVal(0)))
    if not any(c is x for c, _ in y.children):
        y.children.append((x, z3.IntVal(0)))


def bc_axes(lists):
    n = max(len(l) for l in lists)
    res = []
    maps = [[None] * n for _ in lists]
    for p in range(n):
        cur = Axis(())
        got = []
        for li, l in enumerate(lists):
            q = p - (n - len(l))
            if q < 0:
                continue
            new, mc, ml = bc_axis(cur, l[q])
            got = [(i, _compose(m, mc)) for i, m in got]
            got.append((li, ml))
            cur = new
        for i, m in got:
            maps[i][p] = m
        res.append(cur)
    fns = []
    for li, l in enumerate(lists):
        off = n - len(l)
        ms = maps[li][off:]
        fns.append(lambda idx, ms=ms, off=off: tuple(m(ix) for m, ix in zip(ms, idx[off:])))
    return res, fns


def _compose(f, g):
    return lambda ix: f(g(ix))


_mb = {}


def mentions_bound(t):
    """Does a bound variable (bv!..) occur in the term?"""
    k = t.get_id()
    hit = _mb.get(k)
    if hit is None:
        if z3.is_const(t):
            r = t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("bv!")
        else:
            r = any(mentions_bound(c) for c in t.children())
        hit = _mb[k] = (t, r)
    return hit[1]


class Buffer:
    __slots__ = ("val", "uid")

    def __init__(self, val):
        self.val = cached(val)
        self.uid = next(_uid)


def _key(idx):
    return tuple(t.get_id() for ax in idx for t in ax)


def cached(fn):
    cache = {}

    def val(idx):
        k = _key(idx)
        hit = cache.get(k)
        if hit is not None:
            return hit[1]
        r = fn(idx)
        cache[k] = (idx, r)
        return r

    return val


def _ident(idx):
    return idx


def _ident_inv(idx):
    return TRUE, idx


class SArr:
    _is_sarr = True
    __array_priority__ = 2000

    def __init__(self, axes, k, buf, vmap=_ident, inv=_ident_inv, owner=True):
        self.axes = list(axes)
        self.k = k
        self.buf = buf
        self.vmap = vmap
        self.inv = inv
        self.owner = owner

    # ------------------------------------------------------------ basics
    @staticmethod
    def new(axes, k, fn):
        return SArr(axes, k, Buffer(fn))

    def at(self, idx):
        return self.buf.val(self.vmap(idx))

    def snap(self):
        val, vmap = self.buf.val, self.vmap
        if vmap is _ident:
            return val
        return lambda idx: val(vmap(idx))

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.dim() for a in self.axes)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = d * n if isinstance(d, SV) else n * d
        return n

    @property
    def dtype(self):
        return np.dtype({"f": float, "i": int, "b": bool, "O": object}[self.k])

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.reshape(-1)

    @property
    def real(self):
        return self

    def item_term(self):
        if not all(a.concrete and a.int_size() == 1 for a in self.axes):
            raise Unsupported("item() of a larger array")
        return self.at(tuple(zero_ix(a) for a in self.axes))

    def item(self):
        return SV(self.item_term())

    def __len__(self):
        if not self.axes:
            raise TypeError("len() of unsized object")
        d = self.axes[0].dim()
        if isinstance(d, SV):
            q = z3.simplify(d.t)
            if is_num(q):
                return int(frac_of(q))
            raise Unsupported("len() of a symbolic dimension (patched len expected)")
        return d

    def sym_len(self):
        return self.axes[0].dim()

    def __iter__(self):
        if not self.axes:
            raise TypeError("iteration over a 0-d array")
        if not self.axes[0].concrete:
            raise Unsupported("iteration over a symbolic dimension")
        return iter([self[i] for i in range(self.axes[0].int_size())])

    def __bool__(self):
        return ctx().decide(to_bool(self.item_term()))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return self.item().__index__()

    def __array__(self, dtype=None, copy=None):
        if not all(a.concrete for a in self.axes):
            raise Unsupported("symbolic array converted to a numpy array")
        shp = [a.int_size() for a in self.axes]
        out = np.zeros(shp, dtype=dtype or self.dtype)
        for pos in itertools.product(*[range(n) for n in shp]):
            idx = tuple(a.from_flat(z3.IntVal(p)) for a, p in zip(self.axes, pos))
            t = z3.simplify(self.at(idx))
            if is_num(t):
                out[pos] = float(frac_of(t)) if self.k == "f" else int(frac_of(t))
            elif z3.is_true(t) or z3.is_false(t):
                out[pos] = z3.is_true(t)
            elif t.eq(NAN):
                out[pos] = np.nan
            else:
                raise Unsupported("symbolic array converted to a numpy array")
        return out

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from .npshim import dispatch_ufunc

        return dispatch_ufunc(ufunc, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npshim import dispatch_func

        return dispatch_func(func, args, kwargs)

    def __repr__(self):
        return f"SArr{tuple(str(d) if not isinstance(d, SV) else str(d.t) for d in self.shape)}:{self.k}"

    def __hash__(self):
        return id(self)

    def copy(self, order=None):
        r = SArr.new(self.axes, self.k, self.snap())
        on_copy = getattr(self, "on_copy", None)
        if on_copy is not None:
            on_copy(r)
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, **kw):
        if isinstance(dt, type) and dt.__name__ in ("sh_int", "sh_float"):
            dt = {"sh_int": int, "sh_float": float}[dt.__name__]
        k = np.dtype(dt).kind
        k = "i" if k in "iu" else k
        f = self.snap()
        return SArr.new(self.axes, k, lambda idx: cast(f(idx), k))

    def to_numpy(self):
        return self

    @property
    def values(self):
        return self

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    # ------------------------------------------------------------ indexing
    def _norm_item(self, item):
        if not isinstance(item, tuple):
            item = (item,)
        items = []
        for x in item:
            if isinstance(x, list):
                x = as_sarr(np.asarray(x)) if not any(is_sym(y) for y in x) else as_sarr(x)
            elif isinstance(x, np.ndarray):
                x = as_sarr(x) if x.ndim > 0 else x.item()
            elif isinstance(x, SArr) and x.ndim == 0:
                x = x.item()
            elif isinstance(x, SV) and z3.is_bool(x.t):
                raise Unsupported("indexing by a symbolic boolean scalar")
            elif isinstance(x, range):
                x = as_sarr(np.asarray(list(x)))
            items.append(x)

        def consumed(x):
            if x is None or x is Ellipsis:
                return 0
            if isinstance(x, SArr) and x.k == "b":
                return x.ndim
            return 1

        n = sum(consumed(x) for x in items)
        if n > self.ndim:
            raise IndexError("too many indices for array")
        ne = [i for i, x in enumerate(items) if x is Ellipsis]
        if len(ne) > 1:
            raise IndexError("an index can only have a single ellipsis")
        if not ne:
            items.append(Ellipsis)
            ne = [len(items) - 1]
        p = ne[0]
        items[p:p + 1] = [slice(None)] * (self.ndim - n)
        return items

    def __getitem__(self, item):
        if isinstance(item, str):
            raise IndexError("only integers, slices...")
        items = self._norm_item(item)
        adv = [x for x in items if isinstance(x, SArr)]
        if not adv:
            r = self._basic(items)
            if not r.axes and not any(x is Ellipsis for x in (item if isinstance(item, tuple) else (item,))):
                return r.item()
            return r
        base, places, info = self._split_adv(items)
        return base._gather(*info)

    def _split_adv(self, items):
        """Apply the basic part; keep full slices where advanced indices are."""
        # ints next to advanced indices belong to the advanced group for placement
        pos = 0
        basic = []
        advs = []  # (axis position in the basic view, index array)
        group_flags = []
        outpos = 0
        for x in items:
            if isinstance(x, SArr):
                nax = x.ndim if x.k == "b" else 1
                advs.append((outpos, x))
                basic += [slice(None)] * nax
                outpos += nax
                group_flags.append("a")
            elif x is None:
                basic.append(None)
                outpos += 1
                group_flags.append("s")
            elif isinstance(x, slice):
                basic.append(x)
                outpos += 1
                group_flags.append("s")
            else:
                basic.append(x)
                group_flags.append("i")
        # contiguity
        fl = "".join(group_flags)
        ai = [i for i, c in enumerate(fl) if c in "ai"] if "i" in fl else [i for i, c in enumerate(fl) if c == "a"]
        contiguous = (ai[-1] - ai[0] + 1) == len(ai)
        base = self._basic(basic)
        return base, None, (advs, contiguous)

    def _index_arrays(self, advs):
        """Turn masks into integer index functions; broadcast all of them."""
        arrs = []  # (axis position, axes, fn: idx -> index tuple of that axis)
        for p, x in advs:
            if x.k == "b":
                src_axs = [self.axes[p + j] for j in range(x.ndim)]
                axs, maps, to_src, from_src = [], [], [], []
                for a, b in zip(src_axs, x.axes):
                    _check_len(a, b)
                    if a.unit and not b.unit:
                        # the indexed axis has length one, and so has the mask's
                        axs.append(b)
                        maps.append(lambda ix: ix)
                        to_src.append(lambda ix: ())
                        from_src.append(lambda ix, b=b: zero_ix(b))
                    else:
                        axs.append(a)
                        maps.append(axis_map(a, b))
                        to_src.append(lambda ix: ix)
                        from_src.append(lambda ix: ix)
                xs = x.snap()
                atoms, cuts = [], []
                masks = []
                for a in axs:
                    cuts.append((len(atoms), len(atoms) + len(a.atoms)))
                    atoms += a.atoms
                    if a.mask is not None:
                        masks.append((cuts[-1], a.mask))

                def mfn(flat, xs=xs, cuts=cuts, maps=maps, masks=masks):
                    idx = tuple(m(tuple(flat[c0:c1])) for m, (c0, c1) in zip(maps, cuts))
                    g = [mm.fn(tuple(flat[c0:c1])) for (c0, c1), mm in masks]
                    return t_and(*g, xs(idx))

                max_ = Axis(atoms, Mask(cached1(mfn)))
                max_.from_src = from_src
                for j, (c0, c1) in enumerate(cuts):
                    arrs.append((p + j, [max_], lambda idx, c0=c0, c1=c1, ts=to_src[j]: ts(tuple(idx[0][c0:c1]))))
            elif x.k == "i":
                xs = x.snap()
                a = self.axes[p]
                arrs.append((p, x.axes, lambda idx, xs=xs, a=a: self._int_ix(a, xs(idx))))
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        return arrs

    def _int_ix(self, a, t):
        t = to_int(t)
        if a.mask is not None:
            raise Unsupported("integer index into a masked axis")
        if not a.atoms:
            return ()
        if is_num(t):
            k = int(frac_of(t))
            if k < 0:
                return a.from_flat(z3.simplify(t_add(a.size_term(), z3.IntVal(k))))
            return a.from_flat(z3.IntVal(k))
        n = a.size_term()
        if ctx().stats.get("nonneg", True):
            if len(a.atoms) == 1 and z3.is_app(t) and t.num_args() and not mentions_bound(t):
                ctx().note_index(a.atoms[0], t)
            return a.from_flat(t)
        return a.from_flat(t_if(t_cmp("lt", t, z3.IntVal(0)), t_add(t, n), t))

    def _gather(self, advs, contiguous):
        arrs = self._index_arrays(advs)
        axes, fns = bc_axes([a[1] for a in arrs])
        self._check_index_range(advs)
        advpos = sorted(a[0] for a in arrs)
        rest = [p for p in range(self.ndim) if p not in advpos]
        first = advpos[0]
        if not contiguous:
            npre = 0
        else:
            npre = len([p for p in rest if p < first])
        na = len(axes)
        src = self.snap()
        new_axes = [self.axes[p] for p in rest[:npre]] + list(axes) + [self.axes[p] for p in rest[npre:]]
        nd = self.ndim

        def fn(idx):
            full = [None] * nd
            for q, p in enumerate(rest[:npre]):
                full[p] = idx[q]
            ad = idx[npre:npre + na]
            for q, p in enumerate(rest[npre:]):
                full[p] = idx[npre + na + q]
            for (p, _, g), bf in zip(arrs, fns):
                full[p] = g(bf(ad))
            return src(tuple(full))

        return SArr.new(new_axes, self.k, fn)

    def _check_index_range(self, advs):
        for p, x in advs:
            if x.k != "i":
                continue
            a = self.axes[p]
            idx = tuple(q.fresh() for q in x.axes)
            t = x.at(idx)
            g = t_and(*[q.guard(ix) for q, ix in zip(x.axes, idx)])
            n = a.size_term()
            goal = t_implies(g, t_and(t_cmp("ge", t, t_neg(n)), t_cmp("lt", t, n)))
            goal = z3.simplify(goal)
            if not z3.is_true(goal):
                if not ctx().entails(goal):
                    raise Unsupported(f"index range not established: {str(t)[:100]}")

    def _basic(self, items):
        axes = []
        plan = []  # per source axis: ('keep', view position) or ('fix', ixtuple) or ('off', view position, start)
        p = 0
        for x in items:
            if x is None:
                axes.append(Axis(()))
                continue
            a = self.axes[p]
            if isinstance(x, slice):
                ax, st = slice_axis(a, x)
                axes.append(ax)
                plan.append(("keep", len(axes) - 1) if st is None else ("off", len(axes) - 1, st))
            elif isinstance(x, (int, np.integer, SV)) and not isinstance(x, bool):
                t = lift(x)
                if not z3.is_int(t):
                    t2 = z3.simplify(t)
                    raise IndexError("only integers are valid indices")
                plan.append(("fix", self._bounded_ix(a, t)))
            else:
                raise Unsupported(f"index of type {type(x).__name__}")
            p += 1
        old_map, old_inv = self.vmap, self.inv
        nv = len(axes)

        def vmap(idx):
            full = []
            for q in plan:
                if q[0] == "keep":
                    full.append(idx[q[1]])
                elif q[0] == "off":
                    full.append(q[2][0](idx[q[1]]))
                else:
                    full.append(q[1])
            return old_map(tuple(full))

        def inv(ridx):
            c, full = old_inv(ridx)
            view = [()] * nv
            conds = [c]
            for q, ix in zip(plan, full):
                if q[0] == "keep":
                    view[q[1]] = ix
                elif q[0] == "off":
                    cc, vx = q[2][1](ix)
                    conds.append(cc)
                    view[q[1]] = vx
                else:
                    for u, w in zip(ix, q[1]):
                        conds.append(t_cmp("eq", u, w))
            return t_and(*conds), tuple(view)

        return SArr(axes, self.k, self.buf, vmap, inv, owner=False)

    def _bounded_ix(self, a, t):
        if a.mask is not None:
            raise Unsupported("integer index into a masked axis")
        if is_num(t):
            k = int(frac_of(t))
            if a.concrete:
                n = a.int_size()
                if k < -n or k >= n:
                    raise IndexError(f"index {k} is out of bounds for axis with size {n}")
                return a.from_flat(z3.IntVal(k % n if n else 0))
            if k < 0:
                ctx().must(t_cmp("ge", a.size_term(), z3.IntVal(-k)), "negative index in range")
                r = a.from_flat(z3.simplify(t_add(a.size_term(), z3.IntVal(k))))
            else:
                if not ctx().entails(t_cmp("gt", a.size_term(), z3.IntVal(k))):
                    if not ctx().decide(t_cmp("gt", a.size_term(), z3.IntVal(k))):
                        raise IndexError("index out of bounds (symbolic)")
                r = a.from_flat(t)
        else:
            ctx().must(t_and(t_cmp("ge", t, z3.IntVal(0)), t_cmp("lt", t, a.size_term())), "index in range")
            r = a.from_flat(t)
        for x, at in zip(r, a.atoms):
            ctx().note_index(at, x)
        return r

    # ------------------------------------------------------------ writing
    def _write(self, cond_val):
        """cond_val: view idx -> (condition, term)"""
        old, inv = self.buf.val, self.inv
        k = self.k

        def val(ridx):
            c, vidx = inv(ridx)
            if z3.is_false(c):
                return old(ridx)
            c2, t = cond_val(vidx)
            c = t_and(c, c2)
            if z3.is_false(c):
                return old(ridx)
            t = cast(t, k)
            if z3.is_true(c):
                return t
            return t_if(c, t, old(ridx))

        self.buf.val = cached(val)
        log = ctx().wlog
        if log is not None:
            log[self.buf.uid] = self.buf

    def __setitem__(self, item, value):
        items = self._norm_item(item)
        adv = [x for x in items if isinstance(x, SArr)]
        if not isinstance(value, (SArr, SV)):
            value = as_sarr(value) if not isinstance(value, (int, float, bool, np.generic)) else SV(lift(value))
        if isinstance(value, SArr) and value.ndim == 0:
            value = value.item()
        if not adv:
            v = self._basic(items)
            v._assign(value)
            return
        base, _, (advs, contiguous) = self._split_adv(items)
        base._scatter(advs, contiguous, value)

    def _value_fn(self, axes, value):
        """value broadcast to axes: idx -> term"""
        if isinstance(value, SV):
            return lambda idx: value.t
        vax = list(value.axes)
        while len(vax) > len(axes):
            if not vax[0].unit:
                raise ValueError("could not broadcast input array")
            vax = vax[1:]
        drop = value.ndim - len(vax)
        maps = []
        off = len(axes) - len(vax)
        for a, b in zip(axes[off:], vax):
            maps.append(axis_map(a, b))
        f = value.snap()
        pre = tuple(() for _ in range(drop))
        return lambda idx: f(pre + tuple(m(ix) for m, ix in zip(maps, idx[off:])))

    def _assign(self, value):
        f = self._value_fn(self.axes, value)
        self._write(lambda vidx: (TRUE, f(vidx)))

    def _scatter(self, advs, contiguous, value):
        arrs = self._index_arrays(advs)
        if len(advs) == 1 and advs[0][1].k == "b":
            p, x = advs[0]
            nax = x.ndim
            maxis = arrs[0][1][0]
            rest_pre = list(range(p)) if contiguous else []
            rest_post = list(range(p + nax, self.ndim)) if contiguous else [q for q in range(self.ndim) if q < p or q >= p + nax]
            vaxes = [self.axes[q] for q in rest_pre] + [maxis] + [self.axes[q] for q in rest_post]
            f = self._value_fn(vaxes, value)

            def cv(vidx):
                flat = tuple(t for q in range(p, p + nax) for t in maxis.from_src[q - p](vidx[q]))
                c = maxis.mask.fn(flat)
                if z3.is_false(c):
                    return c, z3.IntVal(0)
                idx = tuple(vidx[q] for q in rest_pre) + (flat,) + tuple(vidx[q] for q in rest_post)
                return c, f(idx)

            self._write(cv)
            return
        # integer scatter
        axes, fns = bc_axes([a[1] for a in arrs])
        self._check_index_range(advs)
        advpos = [a[0] for a in arrs]
        rest = [q for q in range(self.ndim) if q not in advpos]
        first = min(advpos)
        npre = len([q for q in rest if q < first]) if contiguous else 0
        vaxes = [self.axes[q] for q in rest[:npre]] + list(axes) + [self.axes[q] for q in rest[npre:]]
        f = self._value_fn(vaxes, value)
        if all(a.concrete for a in axes):
            combos = [tuple(c) for c in itertools.product(*[list(a.enum()) for a in axes])]
            tgt = [[g(bf(c)) for (_, _, g), bf in zip(arrs, fns)] for c in combos]
            for c, tg in zip(combos, tgt):

                def cv(vidx, c=c, tg=tg):
                    conds = [t_cmp("eq", u, w) for q, ix in zip(advpos, tg) for u, w in zip(vidx[q], ix)]
                    idx = tuple(vidx[q] for q in rest[:npre]) + c + tuple(vidx[q] for q in rest[npre:])
                    return t_and(*conds), f(idx)

                self._write(cv)
            return
        # atoms of known size are expanded into a sequence of writes
        conc = [(ai, aj) for ai, a in enumerate(axes) for aj, t in enumerate(a.atoms) if t.concrete]
        late = any(axes[ai].atoms[aj].size > 1 and any(not t.concrete for b in axes[:ai] for t in b.atoms) or
                   axes[ai].atoms[aj].size > 1 and any(not t.concrete for t in axes[ai].atoms[:aj]) for ai, aj in conc)
        for vals in itertools.product(*[range(axes[ai].atoms[aj].size) for ai, aj in conc]):
            fixed = {h: z3.IntVal(v) for h, v in zip(conc, vals)}
            self._scatter_sym(arrs, axes, fns, advpos, rest, npre, f, fixed, late)

    def _scatter_sym(self, arrs, axes, fns, advpos, rest, npre, f, fixed, late):
        probe = tuple(tuple(fixed.get((ai, aj), t) for aj, t in enumerate(a.fresh())) for ai, a in enumerate(axes))
        flat_atoms = [(ai, aj) for ai, a in enumerate(axes) for aj in range(len(a.atoms)) if (ai, aj) not in fixed]
        probe_terms = {probe[ai][aj].get_id(): (ai, aj) for ai, aj in flat_atoms}
        solved = {}  # (ai, aj) -> function of target index tuple list
        deferred = []
        for (q, _, g), bf in zip(arrs, fns):
            ixs = g(bf(probe))
            for j, t in enumerate(ixs):
                hit = probe_terms.get(t.get_id())
                if hit is not None and hit not in solved:
                    solved[hit] = ("id", q, j)
                else:
                    deferred.append((q, j, t))
        conds_extra = []
        for q, j, t in deferred:
            if len(solved) == len(flat_atoms):
                break  # the remaining indices are conditions on the target
            perm = ctx().perms.get(t.decl().get_id()) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if perm is None:
                raise Unsupported(f"scatter with a general index array: {str(t)[:100]}")
            apos, inverse = perm
            target_atom = probe_terms.get(t.arg(apos).get_id())
            if target_atom is None or target_atom in solved:
                raise Unsupported("scatter with a general index array")
            others = []
            for i, c in enumerate(t.children()):
                if i != apos:
                    h = probe_terms.get(c.get_id())
                    if h is None or h not in solved or solved[h][0] != "id":
                        raise Unsupported("scatter with a general index array")
                    others.append(solved[h])
            solved[target_atom] = ("perm", q, j, inverse, apos, others)
        if len(solved) != len(flat_atoms):
            raise Unsupported("scatter with repeated targets")
        if late and any(x[0] != "id" for x in solved.values()):
            raise Unsupported("scatter whose order of writes is not established")

        def cv(vidx):
            vals = dict(fixed)
            for h, s in solved.items():
                if s[0] == "id":
                    vals[h] = vidx[s[1]][s[2]]
            for h, s in solved.items():
                if s[0] == "perm":
                    _, q, j, inverse, apos, others = s
                    args = [vidx[o[1]][o[2]] for o in others]
                    args.insert(apos, vidx[q][j])
                    vals[h] = inverse(*args)
            ad = tuple(tuple(vals[(ai, aj)] for aj in range(len(a.atoms))) for ai, a in enumerate(axes))
            conds = [a.guard(ix) for a, ix in zip(axes, ad)]
            for (q, _, g), bf in zip(arrs, fns):
                for u, w in zip(g(bf(ad)), vidx[q]):
                    conds.append(t_cmp("eq", u, w))
            idx = tuple(vidx[q] for q in rest[:npre]) + ad + tuple(vidx[q] for q in rest[npre:])
            return t_and(*conds), f(idx)

        self._write(cv)

    # ------------------------------------------------------------ shape ops
    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        if not perm or perm == (None,):
            perm = tuple(reversed(range(self.ndim)))
        perm = [p % self.ndim for p in perm]
        om, oi = self.vmap, self.inv
        n = self.ndim

        def vmap(idx):
            full = [None] * n
            for q, p in enumerate(perm):
                full[p] = idx[q]
            return om(tuple(full))

        def inv(ridx):
            c, full = oi(ridx)
            return c, tuple(full[p] for p in perm)

        return SArr([self.axes[p] for p in perm], self.k, self.buf, vmap, inv, owner=False)

    def swapaxes(self, a, b):
        perm = list(range(self.ndim))
        perm[a], perm[b] = perm[b], perm[a]
        return self.transpose(*perm)

    def squeeze(self, axis=None):
        if axis is None:
            axis = [i for i, a in enumerate(self.axes) if a.unit]
        elif not isinstance(axis, (tuple, list)):
            axis = [axis]
        axis = [a % self.ndim for a in axis]
        items = [0 if i in axis else slice(None) for i in range(self.ndim)]
        return self._basic(items)

    def ravel(self, order="C"):
        return self.reshape(-1)

    def flatten(self, order="C"):
        return self.reshape(-1).copy()

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    # ------------------------------------------------------------ reductions
    def sum(self, axis=None, **k):
        from . import npshim

        return npshim.np_sum(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        from . import npshim

        return npshim.np_mean(self, axis=axis, **k)

    def prod(self, axis=None, **k):
        from . import npshim

        return npshim.np_prod(self, axis=axis, **k)

    def min(self, axis=None, **k):
        from . import npshim

        return npshim.np_min(self, axis=axis, **k)

    def max(self, axis=None, **k):
        from . import npshim

        return npshim.np_max(self, axis=axis, **k)

    def any(self, axis=None, **k):
        from . import npshim

        return npshim.np_any(self, axis=axis, **k)

    def all(self, axis=None, **k):
        from . import npshim

        return npshim.np_all(self, axis=axis, **k)

    def argsort(self, axis=-1, **k):
        from . import npshim

        return npshim.np_argsort(self, axis=axis)

    def clip(self, a=None, b=None, **k):
        from . import npshim

        return npshim.np_clip(self, a, b)

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        from . import npshim

        return npshim.np_dot(self, o)


def cached1(fn):
    cache = {}

    def val(flat):
        k = tuple(t.get_id() for t in flat)
        hit = cache.get(k)
        if hit is not None:
            return hit[1]
        r = fn(flat)
        cache[k] = (flat, r)
        return r

    return val


def _check_len(a, b):
    """A boolean index has to match the indexed axis."""
    if a.unit and not b.unit and b.mask is None:
        if ctx().decide(b.size_term() == 1):
            return
        raise IndexError("boolean index did not match indexed array")
    if a.mask is None and b.mask is None:
        if a.concrete and b.concrete:
            if a.int_size() != b.int_size():
                raise IndexError("boolean index did not match indexed array")
            return
    axis_map(a, b)


def axis_map(a, b):
    """Index map from axis a to a (broadcastable) source axis b."""
    if b.unit:
        return lambda ix: ()
    if a is b or same_axis(a, b):
        for x, y in zip(a.atoms, b.atoms):
            link_atoms(x, y)
        return lambda ix: ix
    if b.mask is None and ctx().entails(b.size_term() == 1):
        return lambda ix: zero_ix(b)
    if a.mask is None and b.mask is None:
        if len(b.atoms) == 1 and ctx().entails(a.size_term() == b.size_term()):
            return lambda ix: b.from_flat(a.to_flat(ix))
        if len(a.atoms) <= 1 and ctx().entails(a.size_term() == b.size_term()):
            return lambda ix: b.from_flat(a.to_flat(ix))
        # may be unequal: numpy raises
        if ctx().decide(a.size_term() == b.size_term()):
            return axis_map(a, b)
        if ctx().decide(b.size_term() == 1):
            return axis_map(a, b)
    raise ValueError("could not broadcast input array (symbolic)")


def slice_axis(a, s):
    """-> (new axis, None or (fwd, inv))"""
    st, sp, step = s.start, s.stop, s.step
    if step is not None and not (isinstance(step, int) and step == 1):
        if a.concrete and isinstance(step, int):
            rng = range(a.int_size())[slice(_cint(st), _cint(sp), step)]
            new = Axis.of(len(rng))
            r0, rs = (rng.start, rng.step)

            def fwd(ix):
                k = ix[0] if ix else z3.IntVal(0)
                return a.from_flat(z3.simplify(t_add(z3.IntVal(r0), t_mul(z3.IntVal(rs), k))))

            def inv(ix):
                f = a.to_flat(ix)
                d = t_sub(f, z3.IntVal(r0))
                q = d / rs if rs > 0 else (-d) / (-rs)
                c = t_and(t_cmp("eq", t_mul(z3.IntVal(rs), q), d), t_cmp("ge", q, z3.IntVal(0)), t_cmp("lt", q, z3.IntVal(len(rng))))
                return z3.simplify(c), ((z3.simplify(q),) if new.atoms else ())

            return new, (fwd, inv)
        if st is None and sp is None and step == -1 and a.mask is None and len(a.atoms) == 1:
            n = a.size_term()
            f = lambda ix: (t_sub(t_sub(n, z3.IntVal(1)), ix[0]),)
            return a, (f, lambda ix: (TRUE, f(ix)))
        raise Unsupported("strided slice of a symbolic axis")
    if st is None and sp is None:
        return a, None
    if a.concrete:
        sc, pc_ = _cint_or_none(st), _cint_or_none(sp)
        if (st is None or sc is not None) and (sp is None or pc_ is not None):
            rng = range(a.int_size())[slice(sc, pc_)]
            if len(rng) == a.int_size():
                return a, None
            new = Axis.of(len(rng))
            o = rng.start

            def fwd(ix):
                k = ix[0] if ix else z3.IntVal(0)
                return a.from_flat(z3.simplify(t_add(k, z3.IntVal(o))))

            def inv(ix):
                f = a.to_flat(ix)
                k = z3.simplify(t_sub(f, z3.IntVal(o)))
                c = t_and(t_cmp("ge", k, z3.IntVal(0)), t_cmp("lt", k, z3.IntVal(len(rng))))
                return z3.simplify(c), ((k,) if new.atoms else ())

            return new, (fwd, inv)
    if a.mask is not None:
        raise Unsupported("slice of a masked axis")
    n = a.size_term()

    def bound(x, default):
        if x is None:
            return default
        t = lift(x)
        if not z3.is_int(t):
            raise TypeError("slice indices must be integers")
        if is_num(t):
            if frac_of(t) < 0:
                t = z3.simplify(t_add(n, t))
                if ctx().entails(t_cmp("ge", t, z3.IntVal(0))):
                    return t
                return t_max(t, z3.IntVal(0))
        if ctx().entails(t_and(t_cmp("ge", t, z3.IntVal(0)), t_cmp("le", t, n))):
            return t
        if ctx().entails(t_cmp("ge", t, n)):
            return n
        if ctx().entails(t_cmp("ge", t, z3.IntVal(0))):
            return t_min(t, n)
        if ctx().decide(t_cmp("lt", t, z3.IntVal(0))):
            return t_max(t_add(n, t), z3.IntVal(0))
        return t_min(t, n)

    t0 = z3.simplify(bound(st, z3.IntVal(0)))
    t1 = z3.simplify(bound(sp, n))
    if t1.eq(z3.simplify(n)) and is_num(t0) and frac_of(t0) == 0:
        return a, None
    ln = z3.simplify(t_sub(t1, t0))
    if not ctx().entails(t_cmp("ge", ln, z3.IntVal(0))):
        ln = t_max(ln, z3.IntVal(0))
    ln = z3.simplify(ln)
    if is_num(ln):
        at = Atom(int(frac_of(ln)), parent=(a.atoms[0], t0) if len(a.atoms) == 1 else None)
        new = Axis(()) if at.size == 1 else Axis((at,))
    else:
        at = Atom(ln, parent=(a.atoms[0], t0) if len(a.atoms) == 1 else None)
        new = Axis((at,))

    def fwd(ix):
        k = ix[0] if ix else z3.IntVal(0)
        return a.from_flat(t_add(k, t0))

    def inv(ix):
        k = t_sub(a.to_flat(ix), t0)
        return t_and(t_cmp("ge", k, z3.IntVal(0)), t_cmp("lt", k, ln)), ((k,) if new.atoms else ())

    return new, (fwd, inv)


def _cint(x):
    return None if x is None else int(x)


def _cint_or_none(x):
    if x is None:
        return None
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, SV):
        t = z3.simplify(x.t)
        return int(frac_of(t)) if is_num(t) else None
    return None


def reshape(x, shape):
    """Views that split or merge axes along existing boundaries."""
    shape = [s for s in shape]
    neg = [i for i, s in enumerate(shape) if isinstance(s, (int, np.integer)) and int(s) == -1]
    new_axes = [None if i in neg else Axis.of(s) for i, s in enumerate(shape)]
    masked = [a for a in x.axes if a.mask is not None]
    if masked:
        nonunit_old = [a for a in x.axes if not a.unit]
        if neg:
            known = [a for a in new_axes if a is not None and not a.unit]
            left = list(nonunit_old)
            for a in known:
                for b in left:
                    if b is a or (b.mask is a.mask and same_axis(b, a)):
                        left.remove(b)
                        break
            if len(left) != 1:
                raise Unsupported("reshape of masked axes")
            new_axes[neg[0]] = left[0]
        nonunit_new = [a for a in new_axes if not a.unit]
        if len(nonunit_new) == len(nonunit_old) and all(same_axis(a, b) for a, b in zip(nonunit_new, nonunit_old)):
            op = [i for i, a in enumerate(x.axes) if not a.unit]
            npz = [i for i, a in enumerate(new_axes) if not a.unit]
            return _reshape_view(x, new_axes, op, npz)
        raise Unsupported("reshape of masked axes")
    old_atoms = [(p, j, a) for p, ax in enumerate(x.axes) for j, a in enumerate(ax.atoms)]
    if neg:
        # determine the missing axis by consuming atoms from both ends
        q = neg[0]
        pre = [a for ax in new_axes[:q] for a in ax.atoms]
        post = [a for ax in new_axes[q + 1:] for a in ax.atoms]
        lst = [a for _, _, a in old_atoms]
        lo = _consume(lst, pre)
        hi = _consume(list(reversed(lst)), list(reversed(post)))
        if lo is None or hi is None:
            if all(a.concrete for a in lst) and all(a is None or a.concrete for a in new_axes):
                n = 1
                for a in lst:
                    n *= a.size
                m = 1
                for a in new_axes:
                    if a is not None:
                        m *= a.int_size()
                new_axes[q] = Axis.of(n // m)
            else:
                raise Unsupported("reshape with -1")
        else:
            new_axes[q] = Axis(lst[lo:len(lst) - hi])
    # identical atom sequences: a pure regrouping
    na = [(p, j, a) for p, ax in enumerate(new_axes) for j, a in enumerate(ax.atoms)]
    # align: both sequences split in matching blocks
    fmaps = []  # for every old atom: fn(new idx)->term ; inverse for every new atom
    i = j = 0
    omap = {}
    nmap = {}
    while i < len(old_atoms) or j < len(na):
        if i < len(old_atoms) and j < len(na) and same_atom(old_atoms[i][2], na[j][2]):
            po, jo, ao = old_atoms[i]
            pn, jn, an = na[j]
            link_atoms(ao, an)
            omap[(po, jo)] = lambda idx, pn=pn, jn=jn: idx[pn][jn]
            nmap[(pn, jn)] = lambda idx, po=po, jo=jo: idx[po][jo]
            i += 1
            j += 1
            continue
        # concrete blocks
        bo, bn = [], []
        so = sn = 1
        ii, jj = i, j
        ok = False
        while True:
            if bo and bn and so == sn:
                ok = True
                break
            if so <= sn and ii < len(old_atoms) and old_atoms[ii][2].concrete:
                bo.append(old_atoms[ii])
                so *= old_atoms[ii][2].size
                ii += 1
            elif jj < len(na) and na[jj][2].concrete:
                bn.append(na[jj])
                sn *= na[jj][2].size
                jj += 1
            else:
                break
        if not ok:
            # try a symbolic one-to-many split, e.g. (N,) -> (A, B) with N == A*B
            r = _sym_block(old_atoms[i:], na[j:])
            if r is None:
                if all(a.concrete for _, _, a in old_atoms) and all(a.concrete for _, _, a in na):
                    raise ValueError("cannot reshape array")
                raise Unsupported("reshape across symbolic dimensions")
            bo, bn, ii, jj = r[0], r[1], i + len(r[0]), j + len(r[1])
        _block_maps(bo, bn, omap, nmap)
        i, j = ii, jj

    om, oi = x.vmap, x.inv
    shape_old = [len(a.atoms) for a in x.axes]
    shape_new = [len(a.atoms) for a in new_axes]

    def vmap(idx):
        return om(tuple(tuple(omap[(p, q)](idx) for q in range(m)) for p, m in enumerate(shape_old)))

    def inv(ridx):
        c, full = oi(ridx)
        return c, tuple(tuple(nmap[(p, q)](full) for q in range(m)) for p, m in enumerate(shape_new))

    return SArr(new_axes, x.k, x.buf, vmap, inv, owner=False)


def _sym_block(old, new):
    """Find the shortest prefix blocks of equal (symbolic) size."""
    for no in range(1, min(3, len(old)) + 1):
        for nn in range(1, min(3, len(new)) + 1):
            so = sn = z3.IntVal(1)
            for _, _, a in old[:no]:
                so = t_mul(so, a.term())
            for _, _, a in new[:nn]:
                sn = t_mul(sn, a.term())
            if ctx().entails(so == sn):
                return old[:no], new[:nn]
    return None


def _block_maps(bo, bn, omap, nmap):
    def flat(idx, blk):
        t = z3.IntVal(0)
        for p, j, a in blk:
            t = t_add(t_mul(t, a.term()), idx[p][j])
        return t

    def unflat(t, blk, pos):
        for q in range(len(blk) - 1, pos, -1):
            t = t_floordiv(t, blk[q][2].term())
        if pos > 0:
            t = t_mod(t, blk[pos][2].term())
        return z3.simplify(t)

    for q, (p, j, a) in enumerate(bo):
        omap[(p, j)] = lambda idx, q=q: unflat(flat(idx, bn), bo, q)
    for q, (p, j, a) in enumerate(bn):
        nmap[(p, j)] = lambda idx, q=q: unflat(flat(idx, bo), bn, q)


def _consume(lst, pre):
    """How many atoms of lst are consumed by pre (by identity or concrete sizes)."""
    i = 0
    j = 0
    while j < len(pre):
        if i < len(lst) and same_atom(lst[i], pre[j]):
            i += 1
            j += 1
        else:
            return None
    return i


def _reshape_view(x, new_axes, op, npz):
    om, oi = x.vmap, x.inv
    no, nn = x.ndim, len(new_axes)

    def vmap(idx):
        full = [()] * no
        for a, b in zip(op, npz):
            full[a] = idx[b]
        return om(tuple(full))

    def inv(ridx):
        c, full = oi(ridx)
        view = [()] * nn
        for a, b in zip(op, npz):
            view[b] = full[a]
        return c, tuple(view)

    return SArr(new_axes, x.k, x.buf, vmap, inv, owner=False)


# ---------------------------------------------------------------- construction
def as_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SV):
        t = x.t
        return SArr.new([], kind(t), lambda idx: t)
    if isinstance(x, (bool, int, float, np.generic)) and not isinstance(x, (np.datetime64, np.timedelta64)):
        t = lift(x)
        return SArr.new([], kind(t), lambda idx: t)
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in "fiub":
            raise Unsupported(f"array of dtype {x.dtype}")
        k = "i" if x.dtype.kind in "iu" else x.dtype.kind
        axes = [Axis.of(n) for n in x.shape]
        data = x.copy()

        def fn(idx):
            return _const_at(data, axes, idx, k)

        return SArr.new(axes, k, fn)
    if isinstance(x, (list, tuple)):
        if not any(_deep_sym(y) for y in x):
            return as_sarr(np.asarray(x))
        parts = [as_sarr(y) for y in x]
        from . import npshim

        return npshim.np_stack(parts, axis=0)
    if isinstance(x, range):
        return as_sarr(np.asarray(list(x)))
    if hasattr(x, "to_numpy"):
        return as_sarr(x.to_numpy())
    raise Unsupported(f"cannot make an array of {type(x).__name__}")


def _deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    return False


def _const_at(data, axes, idx, k):
    """Element of a concrete array at a possibly symbolic index."""
    def rec(pos, p):
        if p == len(axes):
            return cast(lift(data[tuple(pos)].item()), k)
        n = data.shape[p]
        if not axes[p].atoms:
            return rec(pos + [0], p + 1)
        t = idx[p][0]
        if is_num(t):
            return rec(pos + [int(frac_of(t))], p + 1)
        r = None
        for q in reversed(range(n)):
            v = rec(pos + [q], p + 1)
            r = v if r is None else t_if(t_cmp("eq", t, z3.IntVal(q)), v, r)
        return r if r is not None else cast(z3.IntVal(0), k)

    return rec([], 0)


def elementwise(fn, args, k=None):
    """fn on terms; args scalars or arrays"""
    arrs = []
    for a in args:
        if isinstance(a, (SV, int, float, bool, np.generic)):
            arrs.append(None)
        else:
            arrs.append(as_sarr(a))
    if all(a is None or a.ndim == 0 for a in arrs):
        ts = [lift(x) if a is None else a.item_term() for x, a in zip(args, arrs)]
        t = fn(*ts)
        if any(a is not None for a in arrs):
            return SArr.new([], kind(t), lambda idx: t) if k is None else SArr.new([], k, lambda idx: cast(t, k))
        return SV(t if k is None else cast(t, k))
    lists = [a.axes for a in arrs if a is not None]
    axes, maps = bc_axes(lists)
    it = iter(maps)
    getters = []
    kinds = []
    for x, a in zip(args, arrs):
        if a is None:
            t = lift(x)
            getters.append(lambda idx, t=t: t)
            kinds.append(kind(t))
        else:
            m = next(it)
            f = a.snap()
            getters.append(lambda idx, f=f, m=m: f(m(idx)))
            kinds.append(a.k)
    if k is None:
        # kind from a probe on dummy terms
        dummies = [{"f": z3.Real("d!f"), "i": z3.Int("d!i"), "b": z3.Bool("d!b")}[kk] for kk in kinds]
        k = kind(fn(*dummies))

    return SArr.new(axes, k, lambda idx: cast(fn(*[g(idx) for g in getters]), k))


def _abinop(fn, k=None):
    def op(self, other):
        if other is None or isinstance(other, (str, dict)):
            return NotImplemented
        return elementwise(fn, (self, other), k)

    def rop(self, other):
        if other is None or isinstance(other, (str, dict)):
            return NotImplemented
        return elementwise(fn, (other, self), k)

    def iop(self, other):
        r = elementwise(fn, (self, other), k)
        if isinstance(r, SV):
            r = as_sarr(r)
        if self.k == "i" and r.k == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64 (same_kind)")
        self._assign(r)
        return self

    return op, rop, iop


def t_bitand(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return t_and(a, b)
    raise Unsupported("bitwise and on integers")


def t_bitor(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return t_or(a, b)
    raise Unsupported("bitwise or on integers")


def t_bitxor(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return t_not(S._iff(a, b))
    raise Unsupported("bitwise xor on integers")


def np_sub(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        raise TypeError("numpy boolean subtract")
    return t_sub(a, b)


def np_add(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
        return t_or(a, b)
    return t_add(a, b)


OPS = {
    "add": np_add, "sub": np_sub, "mul": t_mul, "truediv": t_div, "floordiv": t_floordiv,
    "mod": t_mod, "pow": t_pow, "and": t_bitand, "or": t_bitor, "xor": t_bitxor,
}
for _n, _f in OPS.items():
    _o, _r, _i = _abinop(_f)
    setattr(SArr, f"__{_n}__", _o)
    setattr(SArr, f"__r{_n}__", _r)
    setattr(SArr, f"__i{_n}__", _i)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):

    def _mk(n):
        def op(self, other):
            if other is None or isinstance(other, str):
                return {"eq": False, "ne": True}.get(n, NotImplemented)
            return elementwise(lambda a, b: t_cmp(n, a, b), (self, other), "b")

        return op

    setattr(SArr, f"__{_n}__", _mk(_n))
SArr.__hash__ = lambda self: id(self)
SArr.__neg__ = lambda self: elementwise(t_neg, (self,))
SArr.__pos__ = lambda self: self.copy()
SArr.__abs__ = lambda self: elementwise(t_abs, (self,))
SArr.__invert__ = lambda self: elementwise(t_not, (self,), "b")
SArr.__matmul__ = lambda self, o: self.dot(o)
