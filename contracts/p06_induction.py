"""P06: axial induction models."""

from dv.core import contract

BETZ = "foxes.models.axial_induction.BetzAxialInduction.ct2a"
MADSEN = "foxes.models.axial_induction.MadsenAxialInduction.ct2a"
SPECIAL = (0.0, 1.0, 0.5, 0.99999, 8.0 / 9.0)


def models(w, kind):
    from foxes.models.axial_induction import BetzAxialInduction, MadsenAxialInduction

    if kind == "betz":
        return BetzAxialInduction()
    if kind == "betz_cap":
        return BetzAxialInduction(ct_max=w.real("ct_max", gt=0.0, lt=1.0, special=(0.5, 0.99999)))
    if kind == "madsen":
        return MadsenAxialInduction()
    k = [w.real(f"k{i}", lo=0.0, hi=0.16) for i in range(3)]
    return MadsenAxialInduction(k1=k[0], k2=k[1], k3=k[2])


@contract("P06", [BETZ, MADSEN], params={"kind": ["betz", "betz_cap", "madsen", "madsen_free"], "nd": [1, 2]}, samples=60)
def range_and_zero(w, kind, nd):
    """a(0) = 0; a is within [0, 1/2] for thrust coefficients in [0, 1]; inputs stay."""
    m = models(w, kind)
    dims = [w.dim("S"), w.dim("T")][:nd]
    ct = w.real("ct", *dims, lo=0.0, hi=1.0, special=SPECIAL)
    ct0 = w.snap(ct)
    a = m.ct2a(ct)
    w.le("a >= 0", 0.0, a)
    w.le("a <= 1/2", a, 0.5)
    w.eq_where("no thrust, no induction", ct == 0.0, a, 0.0 * ct)
    w.ensure("thrust causes induction", w.implies(ct > 0.0, a > 0.0) if kind != "madsen_free" else ct >= 0.0)
    w.eq("zero array", m.ct2a(0.0 * ct), 0.0 * ct)
    w.eq("input unchanged", ct, ct0)


@contract("P06", [BETZ, MADSEN], params={"kind": ["betz", "betz_cap", "madsen", "madsen_free"]}, samples=60)
def monotone(w, kind):
    """a never decreases with the thrust coefficient."""
    m = models(w, kind)
    S = w.dim("S")
    x = w.real("x", S, lo=0.0, hi=1.0, special=SPECIAL)
    y = w.real("y", S, lo=0.0, hi=1.0, special=SPECIAL)
    w.le_where("monotone", x <= y, m.ct2a(x), m.ct2a(y))


@contract("P06", BETZ, params={"kind": ["betz", "betz_cap"]}, samples=60)
def momentum_theory(w, kind):
    """ct = 4 a (1 - a) up to the cap, constant beyond."""
    m = models(w, kind)
    cap = m.ct_max
    S = w.dim("S")
    ct = w.real("ct", S, lo=0.0, hi=2.0, special=SPECIAL)
    a = m.ct2a(ct)
    w.eq_where("momentum theory", ct <= cap, 4 * a * (1 - a), ct)
    w.eq_where("constant beyond the cap", ct >= cap, a, m.ct2a(0 * ct + cap))


@contract("P06", MADSEN, samples=60)
def madsen_formula(w):
    """The documented polynomial with the published coefficients."""
    m = models(w, "madsen")
    S = w.dim("S")
    ct = w.real("ct", S, lo=0.0, hi=1.2, special=SPECIAL)
    w.eq("polynomial", m.ct2a(ct), 0.246 * ct + 0.0586 * ct**2 + 0.0883 * ct**3)


@contract("P06", BETZ, samples=1)
def documented_cap(w):
    """The default cap is 0.99999."""
    w.eq("cap", models(w, "betz").ct_max, 0.99999)
