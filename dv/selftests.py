"""Self-tests of the verifier.

1. Soundness of the array model: programs over numpy arrays are run once with
   real numpy on random data and once symbolically with arrays whose elements are
   uninterpreted functions; evaluating the symbolic result under the random data
   has to reproduce numpy's result.
2. Wrong statements must not be provable.
"""

import itertools
import numpy as np

from . import sym as S
from .core import sym_ctx
from .world import SymWorld

z3 = S.z3


CONCRETE = ("p2", "p14")


def programs():
    def p1(np, a, b, m, i):
        x = a[m] * 2
        c = a.copy()
        c[m] = x + 1
        return c

    def p2(np, a, b, m, i):
        return np.einsum("st,st->s", a, b) + np.sum(a, axis=1)

    def p3(np, a, b, m, i):
        c = a.copy()
        v = c[:, 1:]
        v += b[:, :-1]
        c[0] = 7
        return c

    def p4(np, a, b, m, i):
        return np.concatenate([a, b[:, None, 0]], axis=1)

    def p5(np, a, b, m, i):
        return np.where(m, np.maximum(a, b), np.minimum(a, b)).reshape(-1)

    def p6(np, a, b, m, i):
        return a[:, i] - b[0, i][None, :] + b[-1, 1]

    def p7(np, a, b, m, i):
        return np.stack([a, b], axis=-1)[..., ::-1].transpose(2, 0, 1)

    def p8(np, a, b, m, i):
        c = np.zeros_like(a)
        c[:, 0] += a[:, -1]
        c[1:, :] -= b[:-1]
        return c

    def p9(np, a, b, m, i):
        return np.where(np.any(m, axis=1), np.max(a, axis=1), np.min(b, axis=1))

    def p10(np, a, b, m, i):
        c = a.reshape(a.shape[0] * a.shape[1])
        c[2:4] = 5
        return a * 1.0

    def p11(np, a, b, m, i):
        return np.tile(b, (2, 1)) + 1.0

    def p12(np, a, b, m, i):
        return np.repeat(a, 2, axis=0) * 2.0

    def p13(np, a, b, m, i):
        c = a.copy()
        c[m] += b[m]
        c[~m] = np.abs(c[~m])
        return c

    def p14(np, a, b, m, i):
        c = np.mod(a * 100, 7) + np.floor(b) + np.sign(a)
        return np.linalg.norm(c, axis=-1)

    def p15(np, a, b, m, i):
        c = a.copy()
        c[:, i] = b
        return c

    def p16(np, a, b, m, i):
        return np.interp(a, [-1.0, 0.0, 0.5, 2.0], [1.0, 3.0, 2.0, 0.0], left=0, right=9)

    return [v for k, v in sorted(locals().items(), key=lambda kv: int(kv[0][1:])) if k.startswith("p")]


def run_one(prog, rng):
    s, t = int(rng.integers(2, 5)), int(rng.integers(3, 6))
    A = rng.integers(-20, 20, (s, t)) / 8.0
    B = rng.choice(np.arange(-40, 40), (s * t), replace=False).reshape(s, t) / 16.0
    M = rng.random((s, t)) < 0.5
    I = rng.permutation(t)
    ref = np.asarray(prog(np, A.copy(), B.copy(), M.copy(), I.copy()), dtype=float)

    c = sym_ctx(3000, 1)
    S.set_ctx(c)
    bad = 0
    todo = [[]]
    hit = False
    while todo:
        c.start_path(todo.pop())
        c.perms, c.perms_keep = {}, []
        w = SymWorld()
        if prog.__name__ in CONCRETE:
            # sums and orders over symbolic ranges stay opaque
            d0, d1 = s, t
        else:
            d0, d1 = w.dim("s"), w.dim("t")
            # sizes are pinned by assumption only: the arrays stay symbolic
            c.assume(d0.t == s)
            c.assume(d1.t == t)
        a, b, m = w.real("a", d0, d1), w.real("b", d0, d1), w.boolean("m", d0, d1)
        i = w.perm("i", d1)
        import z3 as zz

        subst = []
        fa, fb, fm, fi = (w.inputs[k][2] for k in "abmi")
        for x, y in itertools.product(range(s), range(t)):
            ix = (zz.IntVal(x), zz.IntVal(y))
            c.assume(fa(*ix) == S.real_of(A[x, y]))
            c.assume(fb(*ix) == S.real_of(B[x, y]))
            c.assume(fm(*ix) == bool(M[x, y]))
        for y in range(t):
            c.assume(fi(zz.IntVal(y)) == int(I[y]))
        try:
            r = prog(w.np, a, b, m, i)
        except S.Infeasible:
            continue
        todo += c.pending
        if c.check_sat(c.pc) == zz.unsat:
            continue
        hit = True
        dims = [ax.size_term() for ax in r.axes]
        for ax, n in zip(r.axes, ref.shape):
            if not c.entails(ax.size_term() == n):
                bad += 1
        pos = list(np.ndindex(*ref.shape))
        rng.shuffle(pos)
        for p in pos[:6]:
            idx = tuple(ax.from_flat(zz.IntVal(int(q))) for ax, q in zip(r.axes, p))
            tm = S.to_real(r.at(idx))
            v = ref[tuple(p)]
            eps = zz.RealVal("1/1000000")
            ok = c.prove("x", zz.And(tm - S.real_of(v) <= eps, S.real_of(v) - tm <= eps), record=False)
            bad += not ok
    S.set_ctx(None)
    return bad + (0 if hit else 1)


def main(quick):
    rng = np.random.default_rng(7)
    fails = 0
    n = 0
    for prog in programs():
        for k in range(1 if quick else 4):
            n += 1
            try:
                b = run_one(prog, rng)
            except Exception as e:
                b = f"{type(e).__name__}: {e}"
            if b:
                fails += 1
                print("self-test", prog.__name__, "differs from numpy:", b)
    # wrong statements
    c = sym_ctx(2000, 1)
    S.set_ctx(c)
    c.start_path([])
    c.perms, c.perms_keep = {}, []
    w = SymWorld()
    n_ = w.dim("n")
    x = w.real("x", n_, lo=0.0)
    wrong = [("x > 0", w.np.greater(x, 0.0)), ("sum", w.np.sum(x) > 0.0), ("sqrt", w.np.sqrt(x) < x), ("div", w.np.equal(x / x, 1.0)),
             ("max", w.np.max(x) > 0.0), ("any", w.np.any(x > 1.0)), ("idx", w.np.equal(x, x[0]))]
    for nm, g in wrong:
        if w.ensure(nm, g):
            fails += 1
            print("self-test: wrong statement was proved:", nm)
    S.set_ctx(None)
    print(f"self-test: {n} programs, {len(wrong)} wrong statements, {fails} failures")
    return 1 if fails else 0
