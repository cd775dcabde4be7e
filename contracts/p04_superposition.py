"""P04: wake superposition rules.

Each rule is an inductive statement over the sequence of wakes: the ghost
quantity `rule(total)` of the total effect changes by exactly the rule's
contribution with every wake added, starts at zero, and therefore does not
depend on the order.
"""

from dv.core import contract
from contracts.fix import fdata, tdata, algo_rotor_wd
import foxes.variables as FV

WS_SCALED = ["WSLinear", "WSQuadratic", "WSPow", "WSMax"]
WS_LOCAL = ["WSLinearLocal", "WSQuadraticLocal", "WSPowLocal", "WSMaxLocal", "WSProduct"]
KINDS = [dict(cls=c, scale_amb=s) for c in WS_SCALED for s in (True, False)] + [dict(cls=c, scale_amb=None) for c in WS_LOCAL]
POW = 3


def make(cls, scale_amb=None, **kw):
    import foxes.models.wake_superpositions as sp

    if "Pow" in cls:
        kw["pow"] = POW
    if scale_amb is not None:
        kw["scale_amb"] = scale_amb
    s = getattr(sp, cls)(**kw)
    s.name = cls
    return s


def setting(w, ones=False):
    if ones:
        S, N, P, T = w.dim("S"), 1, 1, 1
    else:
        S, N, P, T = w.dim("S", lo=2), w.dim("N", lo=2), w.dim("P", lo=2), w.dim("T", lo=2)
    fd = fdata(w, S, T, REWS=w.real("rews", S, T, lo=0.0, hi=30.0), AMB_REWS=w.real("amb_rews", S, T, lo=0.0, hi=30.0))
    td = tdata(w, w.real("targets", S, N, P, 3), w.weights("tw", P))
    oi = w.integer("oi", lo=0, lt=T)
    return S, N, P, T, fd, td, oi


def deficits(w, name, *dims, hi=0.0):
    return w.real(name, *dims, lo=-1.5, hi=hi, special=(0.0, -1.0, -0.5))


def accumulated(w, cls, name, *dims):
    """Any value that the running total can have."""
    nonneg = "Quadratic" in cls or "Pow" in cls or "Max" in cls
    return w.real(name, *dims, lo=0.0 if nonneg else None, special=(0.0, -1.0, 1.0))


def scale_of(cls, scale_amb, fd, oi, amb):
    """Reference wind speed of a contribution, (S, 1, 1) or the local ambient value."""
    if scale_amb is None:
        return amb
    return fd[FV.AMB_REWS if scale_amb else FV.REWS][:, oi][:, None, None]


def check_rule(w, nm, cls, scale_amb, before, after, c, scale, amb):
    """total effect before/after adding the relative deficit c with reference speed scale"""
    if "Linear" in cls:
        w.eq(nm, after, before + scale * c)
    elif "Quadratic" in cls:
        w.eq(nm, after**2, before**2 + (scale * c) ** 2)
        w.le(nm + ": slows down", after, 0.0)
    elif "Max" in cls:
        w.eq(nm, -after, w.np.maximum(-before, w.np.abs(scale * c)))
    elif "Pow" in cls:
        w.eq(nm, (-after) ** POW, (-before) ** POW + w.np.abs(scale * c) ** POW)
        w.le(nm + ": slows down", after, 0.0)
    elif "Product" in cls:
        w.eq(nm, amb * (amb + after), (amb + before) * (amb + amb * c))
    else:
        raise NotImplementedError(cls)


@contract("P04", ["foxes.models.wake_superpositions." + c + "." + m for c in WS_SCALED + WS_LOCAL for m in ("add_wake", "calc_final_wake_delta")],
          params=[dict(ones=o, **k) for k in KINDS for o in (False, True)], samples=80)
def ws_rule(w, cls, scale_amb, ones):
    """Adding one wake changes the total wind speed effect exactly by the rule at selected points, and nothing elsewhere."""
    S, N, P, T, fd, td, oi = setting(w, ones)
    algo = algo_rotor_wd()
    sp = make(cls, scale_amb)
    sel = w.boolean("sel", S, N)
    A = accumulated(w, cls, "A", S, N, P)
    c = deficits(w, "c", S, N, P, hi=0.5 if "Linear" in cls else 0.0)
    amb = w.real("amb", S, N, P, gt=0.0, hi=30.0)
    amb0, f0 = w.snap(amb), {v: w.snap(fd[v]) for v in (FV.REWS, FV.AMB_REWS)}
    before = sp.calc_final_wake_delta(algo, None, fd, FV.WS, w.snap(amb), w.snap(A))
    B = sp.add_wake(algo, None, fd, td, oi, sel, FV.WS, w.snap(A), c[sel])
    after = sp.calc_final_wake_delta(algo, None, fd, FV.WS, amb, w.snap(B))
    s3 = sel[:, :, None]
    scale = scale_of(cls, scale_amb, fd, oi, amb)
    w.eq("nothing changes at points that are not selected", w.ite(s3, 0.0, after), w.ite(s3, 0.0, before))
    w.eq("running total of points that are not selected", w.ite(s3, 0.0, B), w.ite(s3, 0.0, A))
    check_rule(w, "rule", cls, scale_amb, before, after, w.ite(s3, c, 0.0), scale, amb)
    w.eq("ambient values unchanged", amb, amb0)
    for v in f0:
        w.eq(f"{v} unchanged", fd[v], f0[v])


@contract("P04", ["foxes.models.wake_superpositions." + c + ".add_wake" for c in WS_SCALED + WS_LOCAL], params=KINDS)
def ws_commutes(w, cls, scale_amb):
    """Wakes may be added in any order."""
    S, N, P, T, fd, td, oi = setting(w)
    oj = w.integer("oj", lo=0, lt=T)
    algo = algo_rotor_wd()
    sp = make(cls, scale_amb)
    s1, s2 = w.boolean("sel1", S, N), w.boolean("sel2", S, N)
    A = accumulated(w, cls, "A", S, N, P)
    c1, c2 = deficits(w, "c1", S, N, P), deficits(w, "c2", S, N, P)

    def add(a, o, s, c):
        return sp.add_wake(algo, None, fd, td, o, s, FV.WS, a, c[s])

    x = add(add(w.snap(A), oi, s1, c1), oj, s2, c2)
    y = add(add(w.snap(A), oj, s2, c2), oi, s1, c1)
    w.eq("order of two wakes", x, y)


@contract("P04", ["foxes.models.wake_superpositions." + c + ".calc_final_wake_delta" for c in WS_SCALED + WS_LOCAL], params=KINDS, samples=80)
def ws_zero(w, cls, scale_amb):
    """No wakes, wakes without points, and zero deficits leave the ambient wind speed."""
    S, N, P, T, fd, td, oi = setting(w)
    algo = algo_rotor_wd()
    sp = make(cls, scale_amb)
    amb = w.real("amb", S, N, P, lo=0.0, hi=30.0)
    sel = w.boolean("sel", S, N)
    zero = w.np.zeros((S, N, P))
    w.eq("no wake", sp.calc_final_wake_delta(algo, None, fd, FV.WS, amb, w.snap(zero)), 0.0 * amb)
    B = sp.add_wake(algo, None, fd, td, oi, sel, FV.WS, w.snap(zero), w.np.zeros((S, N, P))[sel])
    w.eq("zero deficit", sp.calc_final_wake_delta(algo, None, fd, FV.WS, amb, B), 0.0 * amb)


@contract("P04", ["foxes.models.wake_superpositions." + c + ".calc_final_wake_delta" for c in WS_SCALED + WS_LOCAL],
          params=[dict(lims=l, **k) for k in KINDS if k["scale_amb"] is not True for l in ("low", "high", "both")])
def ws_limits(w, cls, scale_amb, lims):
    """Limits bound the total wind speed and act only where they are exceeded."""
    S, N, P = w.dim("S"), w.dim("N"), w.dim("P")
    lo = w.real("lim_low", lo=0.0, hi=5.0) if lims != "high" else None
    hi = w.real("lim_high", lo=5.0, hi=20.0) if lims != "low" else None
    A = accumulated(w, cls, "A", S, N, P)
    amb = w.real("amb", S, N, P, lo=0.0, hi=30.0)
    free = make(cls, scale_amb).calc_final_wake_delta(None, None, None, FV.WS, w.snap(amb), w.snap(A))
    out = make(cls, scale_amb, lim_low=lo, lim_high=hi).calc_final_wake_delta(None, None, None, FV.WS, w.snap(amb), w.snap(A))
    ref = amb + free
    if lo is not None:
        ref = w.np.maximum(ref, lo)
    if hi is not None:
        ref = w.np.minimum(ref, hi)
    w.eq("limited total", amb + out, ref)


@contract("P04", ["foxes.models.wake_superpositions." + c + ".add_wake" for c in WS_SCALED + WS_LOCAL], params=KINDS, samples=30)
def ws_sequence(w, cls, scale_amb):
    """Three wakes from nothing, with different points selected: the rule over the whole sequence."""
    S, N, P, T, fd, td, oi = setting(w)
    algo = algo_rotor_wd()
    sp = make(cls, scale_amb)
    amb = w.real("amb", S, N, P, gt=0.0, hi=30.0)
    d = w.np.zeros((S, N, P))
    tot = None
    for k in range(3):
        s = w.boolean(f"sel{k}", S, N)
        c = deficits(w, f"c{k}", S, N, P)
        o = w.integer(f"o{k}", lo=0, lt=T)
        d = sp.add_wake(algo, None, fd, td, o, s, FV.WS, d, c[s])
        x = w.ite(s[:, :, None], c, 0.0)
        x = x * scale_of(cls, scale_amb, fd, o, amb) if "Product" not in cls else 1 + x
        if "Linear" in cls:
            tot = x if tot is None else tot + x
        elif "Quadratic" in cls:
            tot = x**2 if tot is None else tot + x**2
        elif "Max" in cls:
            tot = w.np.abs(x) if tot is None else w.np.maximum(tot, w.np.abs(x))
        elif "Pow" in cls:
            tot = w.np.abs(x) ** POW if tot is None else tot + w.np.abs(x) ** POW
        else:
            tot = x if tot is None else tot * x
    out = sp.calc_final_wake_delta(algo, None, fd, FV.WS, amb, d)
    if "Linear" in cls:
        w.eq("sum", out, tot)
    elif "Quadratic" in cls:
        w.eq("sum of squares", out**2, tot)
        w.le("slows down", out, 0.0)
    elif "Max" in cls:
        w.eq("largest", out, -tot)
    elif "Pow" in cls:
        w.eq("sum of powers", (-out) ** POW, tot)
        w.le("slows down", out, 0.0)
    else:
        w.eq("product of the remaining fractions", amb + out, amb * tot)


@contract("P04", ["foxes.models.wake_superpositions." + c + ".add_wake" for c in WS_SCALED + WS_LOCAL],
          params=[dict(cls=c) for c in WS_SCALED + WS_LOCAL], samples=1)
def ws_wrong_variable(w, cls):
    """Wind speed superpositions reject other variables."""
    sp = make(cls)
    w.raises("rejects TI", ValueError, lambda: sp.add_wake(None, None, None, None, 0, None, FV.TI, None, None))


# ------------------------------------------------------------------ turbulence
TIS = ["TILinear", "TIQuadratic", "TIPow", "TIMax"]
TI_KINDS = [dict(cls=c, to_amb=a) for c in TIS for a in ("linear", "quadratic")]


def ti_make(cls, to_amb):
    return make(cls, superp_to_amb=to_amb)


def ti_effect(w, to_amb, amb, delta):
    """The added turbulence e: total = amb + e (linear) or total^2 = amb^2 + e^2 (quadratic); returns e or e^2."""
    if to_amb == "linear":
        return delta
    return (amb + delta) ** 2 - amb**2


@contract("P04", ["foxes.models.wake_superpositions." + c + "." + m for c in TIS for m in ("add_wake", "calc_final_wake_delta")],
          params=TI_KINDS)
def ti_rule(w, cls, to_amb):
    """Added turbulence follows the rule at selected points, and nothing changes elsewhere."""
    S, N, P = w.dim("S"), w.dim("N"), w.dim("P")
    sp = ti_make(cls, to_amb)
    sel = w.boolean("sel", S, N)
    A = w.real("A", S, N, P, lo=0.0, hi=1.0)
    c = w.real("c", S, N, P, lo=0.0, hi=1.0)
    amb = w.real("amb", S, N, P, lo=0.0, hi=1.0)
    amb0 = w.snap(amb)
    before = sp.calc_final_wake_delta(None, None, None, FV.TI, amb, w.snap(A))
    B = sp.add_wake(None, None, None, None, 0, sel, FV.TI, w.snap(A), c[sel])
    after = sp.calc_final_wake_delta(None, None, None, FV.TI, amb, w.snap(B))
    s3 = sel[:, :, None]
    w.eq("running total of points that are not selected", w.ite(s3, 0.0, B), w.ite(s3, 0.0, A))
    w.eq("ambient values unchanged", amb, amb0)
    w.le("never reduces turbulence", before, after)
    w.le("not negative", 0.0, before)
    x = w.ite(s3, c, 0.0)
    e, f = ti_effect(w, to_amb, amb, before), ti_effect(w, to_amb, amb, after)
    if cls == "TILinear":
        if to_amb == "linear":
            w.eq("sum", f, e + x)
        else:
            w.eq("sum", w.np.sqrt(f), w.np.sqrt(e) + x)
    elif cls == "TIQuadratic":
        if to_amb == "linear":
            e, f = e**2, f**2
        w.eq("sum of squares", f, e + x**2)
    elif cls == "TIMax":
        if to_amb == "quadratic":
            e, f = w.np.sqrt(e), w.np.sqrt(f)
        w.eq("largest", f, w.np.maximum(e, x))
    else:
        if to_amb == "linear":
            w.eq("sum of powers", f**POW, e**POW + x**POW)
        else:
            e, f = w.np.sqrt(e), w.np.sqrt(f)
            w.eq("sum of powers", f**POW, e**POW + x**POW)


@contract("P04", ["foxes.models.wake_superpositions." + c + ".add_wake" for c in TIS], params=TI_KINDS)
def ti_commutes(w, cls, to_amb):
    """Turbulence contributions may be added in any order; none leaves the ambient turbulence."""
    S, N, P = w.dim("S"), w.dim("N"), w.dim("P")
    sp = ti_make(cls, to_amb)
    s1, s2 = w.boolean("sel1", S, N), w.boolean("sel2", S, N)
    A = w.real("A", S, N, P, lo=0.0, hi=1.0)
    c1, c2 = w.real("c1", S, N, P, lo=0.0, hi=1.0), w.real("c2", S, N, P, lo=0.0, hi=1.0)
    amb = w.real("amb", S, N, P, lo=0.0, hi=1.0)

    def add(a, s, c):
        return sp.add_wake(None, None, None, None, 0, s, FV.TI, a, c[s])

    w.eq("order", add(add(w.snap(A), s1, c1), s2, c2), add(add(w.snap(A), s2, c2), s1, c1))
    z = w.np.zeros((S, N, P))
    w.eq("no wake", sp.calc_final_wake_delta(None, None, None, FV.TI, amb, w.snap(z)), 0.0)
    w.raises("rejects WS", ValueError, lambda: sp.add_wake(None, None, None, None, 0, s1, FV.WS, w.snap(z), c1[s1]))
