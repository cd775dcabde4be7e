"""P20: area geometry obeys the algebra of sets."""

from dv.core import contract

G = "foxes.utils.geom2d."
AG = G + "area_geometry."


def area(w, name):
    """An arbitrary area: any set of points, any distances and nearest points."""
    from foxes.utils.geom2d import AreaGeometry

    np = w.np
    fi = w.ufun("inside_" + name, lo=-1.0, hi=1.0, concrete=lambda x, y: np.sin(x + 0.3 * y + 7 * len(name) + ord(name[-1])))
    fd = w.ufun("distance_" + name, lo=0.0, hi=100.0)
    fx, fy = w.ufun("nearest_x_" + name, lo=-1.0, hi=1.0), w.ufun("nearest_y_" + name, lo=-1.0, hi=1.0)

    class Area(AreaGeometry):
        def p_min(self):
            raise NotImplementedError

        p_max = p_min

        def points_inside(self, points):
            return fi(points[:, 0], points[:, 1]) > 0.0

        def points_distance(self, points, return_nearest=False):
            d = fd(points[:, 0], points[:, 1])
            if not return_nearest:
                return d
            return d, np.stack([fx(points[:, 0], points[:, 1]), fy(points[:, 0], points[:, 1])], axis=-1)

    return Area()


OPS = ("union1", "union2", "union3", "a+b", "a+[b,c]", "a+(b+c)", "(a+b)+c", "(a+b)+[c]", "(a+b)+(c+d)", "inverse", "inverse twice", "inverse of union",
       "intersection1", "intersection2", "intersection3", "a-b", "a-[b,c]", "(a+b)-c", "a-(b+c)", "inverse of intersection", "a-(b-c)")


def combine(op, A):
    from foxes.utils.geom2d import AreaUnion, AreaIntersection

    a, b, c, d = A
    return {
        "union1": lambda: AreaUnion([a]), "union2": lambda: AreaUnion([a, b]), "union3": lambda: AreaUnion([a, b, c]),
        "a+b": lambda: a + b, "a+[b,c]": lambda: a + [b, c], "a+(b+c)": lambda: a + (b + c), "(a+b)+c": lambda: (a + b) + c,
        "(a+b)+[c]": lambda: (a + b) + [c], "(a+b)+(c+d)": lambda: (a + b) + (c + d),
        "inverse": lambda: a.inverse(), "inverse twice": lambda: a.inverse().inverse(), "inverse of union": lambda: (a + b).inverse(),
        "intersection1": lambda: AreaIntersection([a]), "intersection2": lambda: AreaIntersection([a, b]), "intersection3": lambda: AreaIntersection([a, b, c]),
        "a-b": lambda: a - b, "a-[b,c]": lambda: a - [b, c], "(a+b)-c": lambda: (a + b) - c, "a-(b+c)": lambda: a - (b + c),
        "inverse of intersection": lambda: AreaIntersection([a, b]).inverse(), "a-(b-c)": lambda: a - (b - c),
    }[op]()


def membership(op, a, b, c, d):
    return {
        "union1": lambda: a, "union2": lambda: a | b, "union3": lambda: a | b | c, "a+b": lambda: a | b, "a+[b,c]": lambda: a | b | c,
        "a+(b+c)": lambda: a | b | c, "(a+b)+c": lambda: a | b | c, "(a+b)+[c]": lambda: a | b | c, "(a+b)+(c+d)": lambda: a | b | c | d,
        "inverse": lambda: ~a, "inverse twice": lambda: a, "inverse of union": lambda: ~(a | b), "intersection1": lambda: a,
        "intersection2": lambda: a & b, "intersection3": lambda: a & b & c, "a-b": lambda: a & ~b, "a-[b,c]": lambda: a & ~b & ~c,
        "(a+b)-c": lambda: (a | b) & ~c, "a-(b+c)": lambda: a & ~b & ~c, "inverse of intersection": lambda: ~(a & b), "a-(b-c)": lambda: a & ~(b & ~c),
    }[op]()


@contract("P20", [AG + f for f in ("AreaGeometry.__add__", "AreaGeometry.__sub__", "AreaUnion.__add__", "AreaUnion.points_inside", "AreaUnion.inverse",
                                   "AreaIntersection.__new__", "InvertedAreaGeometry.points_inside", "InvertedAreaGeometry.inverse")],
          params=dict(op=list(OPS)), samples=10)
def algebra(w, op):
    """Membership of unions, intersections, differences and inverses of arbitrary areas (up to three of them)."""
    K = w.dim("K")
    p = w.real("p", K, 2, lo=-10.0, hi=10.0)
    A = [area(w, n) for n in "abcd"]
    g = combine(op, A)
    r = g.points_inside(w.snap(p))
    e = membership(op, *[x.points_inside(p) for x in A])
    w.ensure("membership", r == e)
    # the parts still are what they were
    for n, x in zip("ab", combine(op, A[:4]) is not None and A):
        w.ensure(f"area {n} unchanged", x.points_inside(p) == area(w, n).points_inside(p))


@contract("P20", [AG + "AreaUnion.points_distance", AG + "InvertedAreaGeometry.points_distance"],
          params=dict(op=["union1", "union2", "intersection2", "inverse", "inverse of union"], nearest=[False, True]), samples=30)
def union_distance(w, op, nearest):
    """Outside a union the distance to the closest part; inside it that of the containing part whose boundary is farthest,
    so that no boundary point of the union is closer; the nearest point is the one of that part."""
    np = w.np
    K = w.dim("K")
    p = w.real("p", K, 2, lo=-10.0, hi=10.0)
    A = [area(w, n) for n in "abcd"]
    g = combine(op, A)
    res = g.points_distance(w.snap(p), return_nearest=nearest)
    d = res[0] if nearest else res
    n = 2 if "2" in op or "union" in op and op != "union1" else 1
    parts = [x.points_distance(p, return_nearest=True) for x in A[:n]]
    if n == 1:
        w.eq("distance", d, parts[0][0])
        if nearest:
            w.eq("nearest point", res[1], parts[0][1])
        return
    inv = op.startswith("intersection")
    ins = [x.points_inside(p) != inv for x in A[:n]]
    (d0, q0), (d1, q1) = parts
    i0, i1 = ins
    e = np.where(i0 & i1, np.maximum(d0, d1), np.where(i0, d0, np.where(i1, d1, np.minimum(d0, d1))))
    w.eq("distance", d, e)
    if nearest:
        ok = lambda k, c: w.And(d[k] == parts[c][0][k], res[1][k, 0] == parts[c][1][k, 0], res[1][k, 1] == parts[c][1][k, 1])
        w.forall("nearest point", (K,), lambda k: w.Or(ok(k, 0), ok(k, 1)))


def points(w):
    K = w.dim("K")
    return K, w.real("p", K, 2, lo=-10.0, hi=10.0)


@contract("P20", [G + "circle.Circle.points_inside", G + "circle.Circle.points_distance"], params=dict(centre_included=[False, True]), samples=30)
def circle(w, centre_included):
    """Membership and distance of a disc; also for points at its centre."""
    from foxes.utils.geom2d import Circle

    np = w.np
    K, p = points(w)
    c, r = w.real("c", 2, lo=-5.0, hi=5.0), w.real("r", lo=0.0, hi=8.0)
    if centre_included:
        at = w.boolean("at_centre", K)
        p = np.where(at[:, None], c[None, :] + np.zeros((K, 2)), p)
    g = Circle(c, r)
    x, y = p[:, 0] - c[0], p[:, 1] - c[1]
    m2 = x * x + y * y
    ins = g.points_inside(w.snap(p))
    if w.symbolic:
        w.ensure("inside", ins == (m2 <= r * r))
    d = g.points_distance(w.snap(p))
    d1, q = g.points_distance(w.snap(p), return_nearest=True)
    m = np.sqrt(m2)
    w.eq("distance", d, np.abs(m - r))
    w.eq("same distance", d1, d)
    w.is_true("one point each", q.shape == (K, 2))
    qx, qy = q[:, 0] - c[0], q[:, 1] - c[1]
    at = m == 0
    w.eq_where("direction, x", ~at, qx * m, x * r)
    w.eq_where("direction, y", ~at, qy * m, y * r)
    if not centre_included:
        w.assume(m > 0)
        u, v = qx, qy
        w.lemma_eq("square", m * m, m2)
        w.eq("nearest point is on the boundary", (qx * qx + qy * qy) * m2, r * r * m2)
    else:
        w.eq_where("nearest point of the centre is on the boundary", at, qx * qx + qy * qy, r * r + 0 * qx)


@contract("P20", [G + "circle.Circle.points_distance", G + "half_plane.HalfPlane.points_distance"], params=dict(shape=["circle", "half_plane"]), samples=30)
def none_closer(w, shape):
    """No point of the boundary is closer than the reported distance."""
    from foxes.utils.geom2d import Circle, HalfPlane

    np = w.np
    K, p = points(w)
    c = w.real("c", 2, lo=-5.0, hi=5.0)
    if shape == "circle":
        r, b = w.real("r", lo=0.0, hi=8.0), w.real("b", 2, lo=-9.0, hi=9.0)
        if not w.symbolic:
            b = r * b / np.linalg.norm(b)
        w.assume(w.approx_eq(b[0] * b[0] + b[1] * b[1], r * r))
        d = Circle(c, r).points_distance(w.snap(p))
        x, y = p[:, 0] - c[0], p[:, 1] - c[1]
        m = np.sqrt(x * x + y * y)
        k = x * b[0] + y * b[1]
        w.lemma_eq("square", m * m, x * x + y * y)
        w.lemma_eq("products", k * k + (x * b[1] - y * b[0]) ** 2, m * m * r * r)
        w.lemma_le("projection", k * k, m * m * r * r)
        w.lemma_le("projection ", k, m * r)
        w.lemma_eq("distance", d * d, m * m - 2 * m * r + r * r)
        w.le("no boundary point is closer", d * d, (x - b[0]) ** 2 + (y - b[1]) ** 2)
    else:
        n, t = w.real("n", 2, lo=-2.0, hi=2.0), w.real("t", lo=-9.0, hi=9.0)
        w.assume(n[0] * n[0] + n[1] * n[1] > 0.01)
        L2 = n[0] * n[0] + n[1] * n[1]
        d = HalfPlane(c, n).points_distance(w.snap(p))
        L = np.sqrt(L2)
        x, y = p[:, 0] - c[0], p[:, 1] - c[1]
        u, v = x + t * n[1], y - t * n[0]
        k = x * n[0] + y * n[1]
        w.lemma_eq("square", L * L, L2)
        w.lemma_eq("distance", d * L, np.abs(k))
        w.lemma_eq("distance squared", d * d * L2, k * k)
        w.lemma_eq("products", k * k + (u * n[1] - v * n[0]) ** 2, L2 * (u * u + v * v))
        w.le("no boundary point is closer", d * d * L2, L2 * (u * u + v * v))


@contract("P20", [G + "half_plane.HalfPlane." + f for f in ("__init__", "points_inside", "points_distance", "inverse")] + [G + "half_plane.InvertedHalfPlane.points_inside"], samples=30)
def half_plane(w):
    """Membership and distance of a half plane and its inverse."""
    from foxes.utils.geom2d import HalfPlane, AreaIntersection

    np = w.np
    K, p = points(w)
    c, n = w.real("c", 2, lo=-5.0, hi=5.0), w.real("n", 2, lo=-2.0, hi=2.0)
    w.assume(n[0] * n[0] + n[1] * n[1] > 0.01)
    n0 = w.snap(n)
    g = HalfPlane(c, n)
    w.eq("direction unchanged", n, n0)
    x = (p[:, 0] - c[0]) * n[0] + (p[:, 1] - c[1]) * n[1]
    L = np.sqrt(n[0] * n[0] + n[1] * n[1])
    ins = g.points_inside(w.snap(p))
    out = g.inverse().points_inside(w.snap(p))
    if w.symbolic:
        w.ensure("inside", ins == (x >= 0))
    w.ensure("inverse", out == ~ins)
    w.ensure("inverse twice", g.inverse().inverse().points_inside(w.snap(p)) == ins)
    d = g.points_distance(w.snap(p))
    d1, q = g.points_distance(w.snap(p), return_nearest=True)
    w.eq("distance", d * L, np.abs(x))
    w.eq("same distance", d1, d)
    w.eq("same distance for the inverse", g.inverse().points_distance(w.snap(p)), d)
    w.eq("nearest point is on the boundary", (q[:, 0] - c[0]) * n[0] + (q[:, 1] - c[1]) * n[1], 0.0 * x)
    w.eq("nearest point is in normal direction", (p[:, 0] - q[:, 0]) * n[1] - (p[:, 1] - q[:, 1]) * n[0], 0.0 * x)


def polygon_points(w):
    """A star-shaped polygon, in general not convex, in either orientation."""
    import numpy as np

    n = w.dim("n", lo=3, hi=7)
    r, t = w.real("r", n, lo=0.5, hi=5.0), w.real("t", n, lo=0.05, hi=0.95)
    c = w.real("c", 2, lo=-3.0, hi=3.0)
    a = 2 * np.pi * (np.arange(n) + t) / n
    P = c + np.stack([r * np.cos(a), r * np.sin(a)], axis=-1)
    if w.boolean("whole numbers"):
        P = np.round(P).astype(int)
    if w.boolean("clockwise"):
        P = P[::-1]
    return n, np.array(P)


@contract("P20", [G + "polygon.ClosedPolygon." + f for f in ("__init__", "points_inside", "points_distance")], samples=150, mode="bounded", bound="polygons of 3 to 7 corners, 40 points each",
          params=dict(closed=[False, True]))
def polygon(w, closed):
    """Membership by winding number and distance by the segments of the polygon."""
    import numpy as np
    from foxes.utils.geom2d import ClosedPolygon

    n, P = polygon_points(w)
    p = np.concatenate([w.real("p", 30, 2, lo=-8.0, hi=8.0), P, 0.5 * (P + np.roll(P, -1, axis=0))], axis=0)
    p0, P0 = p.copy(), P.copy()
    g = ClosedPolygon(np.concatenate([P, P[:1]], axis=0) if closed else P)
    d0 = g.points_distance(p)
    d, q = g.points_distance(p, return_nearest=True)
    w.eq("points unchanged", p, p0)
    w.eq("polygon unchanged", P, P0)
    A, B = P.astype(float), np.roll(P.astype(float), -1, axis=0)
    E = B - A
    l2 = np.maximum((E**2).sum(-1), 1e-300)
    t = np.clip(((p[:, None] - A) * E).sum(-1) / l2, 0.0, 1.0)
    best = np.linalg.norm(p[:, None] - (A + t[..., None] * E), axis=-1)
    w.eq("distance (squared)", d0**2, best.min(axis=1) ** 2)
    w.eq("same distance", d, d0)
    w.eq("nearest point (squared)", ((p - q) ** 2).sum(axis=-1), d**2)
    tq = np.clip(((q[:, None] - A) * E).sum(-1) / l2, 0.0, 1.0)
    w.eq("nearest point is on the boundary", np.linalg.norm(q[:, None] - (A + tq[..., None] * E), axis=-1).min(axis=1), 0.0 * d)
    va, vb = A - p[:, None], B - p[:, None]
    ang = np.arctan2(va[..., 0] * vb[..., 1] - va[..., 1] * vb[..., 0], (va * vb).sum(-1)).sum(-1)
    away = best.min(axis=1) > 1e-6
    inside = np.abs(np.round(ang / (2 * np.pi))) > 0
    w.ensure("inside", (g.points_inside(p) == inside) | ~away)
    w.ensure("inverse", g.inverse().points_inside(p) == ~g.points_inside(p))
    w.eq("distance of the inverse", g.inverse().points_distance(p), d)


@contract("P20", [AG + "AreaUnion.points_distance", AG + "AreaUnion.points_inside", AG + "AreaIntersection.__new__"], samples=150, mode="bounded", bound="unions of 1 to 5 discs, half planes and polygons, 30 points each")
def many(w):
    """Unions, intersections and differences of any number of areas."""
    import numpy as np
    from foxes.utils.geom2d import ClosedPolygon, Circle, HalfPlane, AreaUnion, AreaIntersection

    n = w.dim("n_areas", lo=1, hi=5)
    kind = w.integer("kind", n, lo=0, hi=2)
    c, r, d = w.real("cs", n, 2, lo=-5.0, hi=5.0), w.real("rs", n, lo=0.5, hi=5.0), w.real("ds", n, 2, lo=0.1, hi=1.0)
    P = polygon_points(w)[1]
    A = [Circle(c[i], r[i]) if kind[i] == 0 else HalfPlane(c[i], d[i]) if kind[i] == 1 else ClosedPolygon(P + c[i]) for i in range(n)]
    p = w.real("p", 30, 2, lo=-9.0, hi=9.0)
    ins = np.array([a.points_inside(p) for a in A])
    dist, near = np.array([a.points_distance(p) for a in A]), np.array([a.points_distance(p, return_nearest=True)[1] for a in A])
    w.ensure("union", AreaUnion(A).points_inside(p) == ins.any(axis=0))
    w.ensure("intersection", AreaIntersection(A).points_inside(p) == ins.all(axis=0))
    w.ensure("difference", (A[0] - A[1:]).points_inside(p) == (ins[0] & ~ins[1:].any(axis=0)))
    w.ensure("sum", (A[0] + A[1:]).points_inside(p) == ins.any(axis=0))
    for name, g, inn in (("union", AreaUnion(A), ins), ("intersection", AreaIntersection(A), ~ins)):
        e = np.where(inn.any(axis=0), np.where(inn, dist, -np.inf).max(axis=0), dist.min(axis=0))
        w.eq(f"{name}: distance", g.points_distance(p), e)
        res, q = g.points_distance(p, return_nearest=True)
        w.eq(f"{name}: same distance", res, e)
        w.eq(f"{name}: nearest point", np.linalg.norm(p - q, axis=-1), e)
