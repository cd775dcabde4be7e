"""P01: wind direction and wind vector conversions."""

from dv.core import contract

DEG = (0, 90, 180, 270, 45, 225)


@contract("P01", ["foxes.utils.wind_dir.wd2uv", "foxes.utils.wind_dir.wd2wdvec"],
          params={"axis": [-1, 0, 1, 2], "ws_kind": ["array", "scalar"], "nd": [1, 2]})
def direction_to_vector(w, axis, ws_kind, nd):
    """A direction (degrees, where the wind comes from, 0 = north, 90 = east) becomes a vector of length ws
    pointing where the wind blows to; the components are on the requested axis; inputs are unchanged."""
    from foxes.utils import wd2uv, wd2wdvec

    if axis > nd:
        axis = nd
    dims = [w.dim("S"), w.dim("T")][:nd]
    wd = w.real("wd", *dims, lo=-720.0, hi=720.0, special=DEG)
    ws = w.real("ws", *dims, lo=0.0, hi=30.0) if ws_kind == "array" else 7.25
    wd0 = w.snap(wd)
    # a scalar-valued sanity point of the convention
    a = wd * w.np.pi / 180.0
    s, c = w.np.sin(a), w.np.cos(a)
    for nm, fn, sgn in (("uv", wd2uv, -1), ("vec", wd2wdvec, 1)):
        r = fn(wd, ws, axis=axis)
        ax = axis if axis >= 0 else r.ndim + axis
        w.is_true(f"{nm}: shape", r.ndim == nd + 1 and int(r.shape[ax]) == 2)
        comp = [r[tuple(k if i == ax else slice(None) for i in range(nd + 1))] for k in (0, 1)]
        w.eq(f"{nm}: x", comp[0], sgn * ws * s)
        w.eq(f"{nm}: y", comp[1], sgn * ws * c)
        w.eq(f"{nm}: length", comp[0] ** 2 + comp[1] ** 2, ws**2 + 0 * wd)
    r = wd2wdvec(wd, axis=axis)
    w.eq("default speed is 1", w.np.linalg.norm(r, axis=axis), 1.0 + 0 * wd)
    w.eq("input unchanged", wd, wd0)


@contract("P01", ["foxes.utils.wind_dir.wd2uv", "foxes.utils.wind_dir.wd2wdvec"])
def convention(w):
    """North wind blows to the south, east wind to the west, and so on round the compass."""
    import numpy as np
    from foxes.utils import wd2uv, wd2wdvec

    wd = np.array([0.0, 90.0, 180.0, 270.0])
    uv = np.array([[0, -1.0], [-1, 0], [0, 1], [1, 0]])
    w.is_true("wd2uv", np.allclose(wd2uv(wd, 1.0), uv))
    w.is_true("wd2wdvec", np.allclose(wd2wdvec(wd, 1.0), -uv))


@contract("P01", ["foxes.utils.wind_dir.wd2uv", "foxes.utils.wind_dir.uv2wd", "foxes.utils.wind_dir.wdvec2wd"],
          params={"axis": [-1, 0, 1, 2], "kind": ["uv", "vec"], "extra": [False, True]})
def round_trip(w, axis, kind, extra):
    """direction -> vector -> direction is the identity modulo 360, for positive speeds; further components
    (vertical ones) play no role."""
    from foxes.utils import wd2uv, uv2wd, wd2wdvec, wdvec2wd

    S, T = w.dim("S"), w.dim("T")
    wd = w.real("wd", S, T, lo=-360.0, hi=720.0, special=DEG)
    ws = w.real("ws", S, T, gt=0.0, hi=30.0)
    f, g = (wd2uv, uv2wd) if kind == "uv" else (wd2wdvec, wdvec2wd)
    v = f(wd, ws, axis=axis)
    if extra:
        z = w.real("z", S, T, lo=-5.0, hi=5.0)
        ax = axis if axis >= 0 else 2
        comp = [v[tuple(k if i == ax else slice(None) for i in range(3))] for k in (0, 1)]
        v = w.np.stack(comp + [z], axis=axis)
    v0 = w.snap(v)
    out = g(v, axis=axis)
    w.angle_eq("round trip", out, wd, 360.0)
    w.le("not negative", 0.0, out)
    w.ensure("below 360", out < 360.0)
    w.eq("input unchanged", v, v0)


@contract("P01", ["foxes.utils.wind_dir.uv2wd", "foxes.utils.wind_dir.wd2uv"])
def vector_round_trip(w):
    """vector -> direction -> vector is the identity for non-zero vectors."""
    from foxes.utils import wd2uv, uv2wd

    S = w.dim("S")
    uv = w.real("uv", S, 2, lo=-20.0, hi=20.0, special=(0.0,))
    ws = w.np.linalg.norm(uv, axis=-1)
    w.assume(ws > 1e-3)
    back = wd2uv(uv2wd(uv), ws)
    w.eq("u", back[..., 0], uv[..., 0])
    w.eq("v", back[..., 1], uv[..., 1])


@contract("P01", "foxes.utils.wind_dir.delta_wd", params={"nd": [1, 2]})
def delta(w, nd):
    """delta_wd(a, b) is b - a modulo 360, within [-180, 180], for directions within [0, 360]."""
    from foxes.utils import delta_wd

    dims = [w.dim("S"), w.dim("T")][:nd]
    a = w.real("a", *dims, lo=0.0, hi=360.0, special=(0, 90, 180, 270, 360))
    b = w.real("b", *dims, lo=0.0, hi=360.0, special=(0, 90, 180, 270, 360))
    a0, b0 = w.snap(a), w.snap(b)
    d = delta_wd(a, b)
    w.angle_eq("b - a mod 360", d, b - a, 360.0)
    w.le("at least -180", -180.0, d)
    w.le("at most 180", d, 180.0)
    w.eq("a unchanged", a, a0)
    w.eq("b unchanged", b, b0)
