"""Symbolic scalars, the verification context (paths, facts, obligations) and
the theory axioms used by the deductive verifier.

Every value that foxes code computes on is either an ordinary Python value or a
SV (a z3 term).  Real arithmetic is used for floating point numbers.
"""

import math
import time
from fractions import Fraction
import numpy as np
import z3

Z = z3


class Unsupported(Exception):
    """The code used a construct that the verifier does not model."""


class Infeasible(Exception):
    """The current path turned out to be infeasible."""


class AbortPath(Exception):
    """Stops the current path (e.g. after a loop body was checked)."""


R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()

# ---------------------------------------------------------------- theory functions
SQRT = z3.Function("sqrt", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)
TAN = z3.Function("tan", R, R)
ATAN2 = z3.Function("atan2", R, R, R)
ATAN = z3.Function("atan", R, R)
ACOS = z3.Function("acos", R, R)
ASIN = z3.Function("asin", R, R)
TANH = z3.Function("tanh", R, R)
POW = z3.Function("pow", R, R, R)
NAN = z3.Const("NaN!", R)
INF = z3.Const("Inf!", R)

THEORY = {f.get_id() if hasattr(f, "get_id") else f: f for f in []}


def real_of(x):
    """Exact decimal reading of a Python number."""
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    f = float(x)
    if math.isnan(f):
        return NAN
    if math.isinf(f):
        return INF if f > 0 else -INF
    return z3.RealVal(repr(f))


PI = real_of(math.pi)
TWOPI = real_of(Fraction(repr(math.pi)) * 2)


def is_num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


def frac_of(t):
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def is_sym(x):
    return isinstance(x, SV) or getattr(x, "_is_sarr", False)


def lift(x):
    """Python number or SV to a z3 term."""
    if isinstance(x, SV):
        return x.t
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, np.floating)):
        return real_of(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if getattr(x, "_is_sarr", False) and x.ndim == 0:
        return x.item_term()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported(f"cannot lift {type(x).__name__} to a term")


def kind(t):
    if z3.is_bool(t):
        return "b"
    if z3.is_int(t):
        return "i"
    return "f"


def to_real(t):
    if z3.is_bool(t):
        if z3.is_true(t):
            return z3.RealVal(1)
        if z3.is_false(t):
            return z3.RealVal(0)
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def to_int(t):
    if z3.is_bool(t):
        if z3.is_true(t):
            return z3.IntVal(1)
        if z3.is_false(t):
            return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def to_bool(t):
    if z3.is_bool(t):
        return t
    if is_num(t):
        return z3.BoolVal(frac_of(t) != 0)
    return t != 0


def numval(q, k):
    if k == "i":
        return z3.IntVal(int(q))
    return z3.RealVal(str(q))


def unify(a, b):
    ka, kb = kind(a), kind(b)
    if ka == "f" or kb == "f":
        return to_real(a), to_real(b), "f"
    if ka == "i" or kb == "i":
        return to_int(a), to_int(b), "i"
    return a, b, "b"


# ---------------------------------------------------------------- term builders
def t_add(a, b):
    a, b, k = unify(a, b)
    if k == "b":
        a, b, k = to_int(a), to_int(b), "i"
    if is_num(a) and is_num(b):
        return numval(frac_of(a) + frac_of(b), k)
    if is_num(a) and frac_of(a) == 0:
        return b
    if is_num(b) and frac_of(b) == 0:
        return a
    return a + b


def t_neg(a):
    if z3.is_bool(a):
        a = to_int(a)
    if is_num(a):
        return numval(-frac_of(a), kind(a))
    return -a


def t_sub(a, b):
    a, b, k = unify(a, b)
    if k == "b":
        a, b, k = to_int(a), to_int(b), "i"
    if is_num(a) and is_num(b):
        return numval(frac_of(a) - frac_of(b), k)
    if is_num(b) and frac_of(b) == 0:
        return a
    if k == "i" and a.eq(b):
        return z3.IntVal(0)
    return a - b


def t_mul(a, b):
    a, b, k = unify(a, b)
    if k == "b":
        return t_and(a, b)
    if is_num(a) and is_num(b):
        return numval(frac_of(a) * frac_of(b), k)
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if frac_of(x) == 1:
                return y
            if frac_of(x) == 0 and defined_trivially(y):
                return numval(0, k)
    return a * b


def t_div(a, b):
    a, b = to_real(a), to_real(b)
    if is_num(b):
        fb = frac_of(b)
        if fb == 1:
            return a
        if fb != 0:
            if is_num(a):
                return numval(frac_of(a) / fb, "f")
            return a * numval(1 / fb, "f")
    return a / b


def t_floordiv(a, b):
    a, b, k = unify(a, b)
    if k == "b":
        a, b, k = to_int(a), to_int(b), "i"
    if is_num(a) and is_num(b) and frac_of(b) != 0:
        return numval(frac_of(a) // frac_of(b), k)
    if k == "i":
        if is_num(b) and frac_of(b) > 0:
            return a / b
        q = a / b  # euclidean
        return z3.If(b > 0, q, -(a / (-b)) - z3.If(a % b == 0, z3.IntVal(0), z3.IntVal(1)) + 0) if False else _pyfloordiv(a, b)
    return z3.ToReal(z3.ToInt(t_div(a, b)))


def _pyfloordiv(a, b):
    # python floor division on ints: for b>0 the euclidean quotient
    return z3.If(b > 0, a / b, (-a) / (-b))


def t_mod(a, b):
    a, b, k = unify(a, b)
    if k == "b":
        a, b, k = to_int(a), to_int(b), "i"
    if is_num(a) and is_num(b) and frac_of(b) != 0:
        return numval(frac_of(a) - frac_of(b) * (frac_of(a) // frac_of(b)), k)
    if k == "i":
        if is_num(b) and frac_of(b) > 0:
            return a % b
        return t_sub(a, t_mul(b, t_floordiv(a, b)))
    return a - b * z3.ToReal(z3.ToInt(t_div(a, b)))


def t_sqrt(a):
    a = to_real(a)
    if is_num(a):
        f = frac_of(a)
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return numval(Fraction(n, d), "f")
    return SQRT(a)


def t_pow(a, b):
    if not is_num(b):
        b2 = z3.simplify(b)
        if is_num(b2):
            b = b2
    if is_num(b):
        e = frac_of(b)
        if e.denominator == 1 and abs(e) <= 6:
            n = int(e)
            if n == 0:
                return numval(1, kind(a) if kind(a) != "b" else "i")
            r = a
            for _ in range(abs(n) - 1):
                r = t_mul(r, a)
            if n < 0:
                return t_div(z3.RealVal(1), to_real(r))
            return r
        if e == Fraction(1, 2):
            return t_sqrt(a)
        if e == Fraction(3, 2):
            return t_mul(to_real(a), t_sqrt(a))
        if e == Fraction(-1, 2):
            return t_div(z3.RealVal(1), t_sqrt(a))
        if e > 0 and e.denominator == 1:
            pass
    return POW(to_real(a), to_real(b))


def _fold_cmp(op, a, b):
    for x, y, flip in ((a, b, False), (b, a, True)):
        # literal infinities
        if y.eq(INF) and not x.eq(INF):
            r = {"lt": True, "le": True, "gt": False, "ge": False, "eq": False, "ne": True}[op]
            if flip:
                r = {"lt": False, "le": False, "gt": True, "ge": True, "eq": False, "ne": True}[op]
            if defined_trivially(x):
                return z3.BoolVal(r)
    if is_num(a) and is_num(b):
        fa, fb = frac_of(a), frac_of(b)
        return z3.BoolVal(
            {"lt": fa < fb, "le": fa <= fb, "gt": fa > fb, "ge": fa >= fb, "eq": fa == fb, "ne": fa != fb}[op]
        )
    return None


def _infinite(t):
    """(where t is +inf, where t is -inf, the value elsewhere) for infinite leaves of nested conditionals"""
    if defined_trivially(t):
        return FALSE, FALSE, t
    if t.eq(INF):
        return TRUE, FALSE, z3.RealVal(0)
    if not z3.is_app(t):
        return FALSE, FALSE, t
    dk = t.decl().kind()
    if dk == z3.Z3_OP_UMINUS and t.arg(0).eq(INF):
        return FALSE, TRUE, z3.RealVal(0)
    if dk == z3.Z3_OP_ITE and not z3.is_bool(t):
        c = t.arg(0)
        p, q, x = _infinite(t.arg(1))
        r, s, y = _infinite(t.arg(2))
        if all(z3.is_false(e) for e in (p, q, r, s)):
            return FALSE, FALSE, t
        if z3.is_true(t_or(p, q)):
            x = y
        if z3.is_true(t_or(r, s)):
            y = x
        return t_if(c, p, r), t_if(c, q, s), t_if(c, x, y)
    return FALSE, FALSE, t


def t_cmp(op, a, b):
    a, b, k = unify(a, b)
    if k == "f":
        pa, na, a = _infinite(a)
        pb, nb, b = _infinite(b)
        if not all(z3.is_false(e) for e in (pa, na, pb, nb)):
            if op in ("eq", "ne"):
                r = t_or(t_and(pa, pb), t_and(na, nb), t_and(t_not(t_or(pa, na, pb, nb)), t_cmp("eq", a, b)))
                return r if op == "eq" else t_not(r)
            if op in ("gt", "ge"):
                pa, na, a, pb, nb, b = pb, nb, b, pa, na, a
                op = "lt" if op == "gt" else "le"
            fin = t_and(t_not(t_or(pa, na, pb, nb)), t_cmp(op, a, b))
            if op == "lt":
                return t_or(t_and(na, t_not(nb)), t_and(pb, t_not(pa)), fin)
            return t_or(na, pb, fin)
    if k == "b":
        if op in ("eq", "ne"):
            r = _iff(a, b)
            return r if op == "eq" else t_not(r)
        a, b, k = to_int(a), to_int(b), "i"
    r = _fold_cmp(op, a, b)
    if r is not None:
        return r
    if a.eq(b) and (k == "i" or defined_trivially(a)):
        return z3.BoolVal(op in ("le", "ge", "eq"))
    if op == "lt":
        return a < b
    if op == "le":
        return a <= b
    if op == "gt":
        return a > b
    if op == "ge":
        return a >= b
    if op == "eq":
        return a == b
    return a != b


def _iff(a, b):
    if z3.is_true(a):
        return b
    if z3.is_true(b):
        return a
    if z3.is_false(a):
        return t_not(b)
    if z3.is_false(b):
        return t_not(a)
    return a == b


def t_not(a):
    a = to_bool(a)
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def t_and(*xs):
    out = []
    for x in xs:
        x = to_bool(x)
        if z3.is_false(x):
            return z3.BoolVal(False)
        if not z3.is_true(x):
            out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def t_or(*xs):
    out = []
    for x in xs:
        x = to_bool(x)
        if z3.is_true(x):
            return z3.BoolVal(True)
        if not z3.is_false(x):
            out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def t_implies(a, b):
    return t_or(t_not(a), b)


def t_if(c, a, b):
    c = to_bool(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a, b, k = unify(a, b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def t_min(a, b):
    return t_if(t_cmp("le", a, b), a, b)


def t_max(a, b):
    return t_if(t_cmp("ge", a, b), a, b)


def t_abs(a):
    return t_if(t_cmp("ge", a, z3.IntVal(0)), a, t_neg(a))


def t_sign(a):
    return t_if(t_cmp("gt", a, z3.IntVal(0)), z3.RealVal(1), t_if(t_cmp("lt", a, z3.IntVal(0)), z3.RealVal(-1), z3.RealVal(0)))


def t_floor(a):
    a = to_real(a)
    if is_num(a):
        f = frac_of(a)
        return numval(f.numerator // f.denominator, "f")
    return z3.ToReal(z3.ToInt(a))


def t_toint(a):
    """int(x): truncation"""
    if z3.is_int(a):
        return a
    if z3.is_bool(a):
        return to_int(a)
    if is_num(a):
        return z3.IntVal(int(frac_of(a)))
    return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))


def _f1(F, const):
    def fn(a):
        a = to_real(a)
        if is_num(a):
            f = frac_of(a)
            if f in const:
                return numval(const[f], "f")
        return F(a)

    return fn


t_exp = _f1(EXP, {Fraction(0): 1})
t_log = _f1(LOG, {Fraction(1): 0})
t_sin = _f1(SIN, {Fraction(0): 0})
t_cos = _f1(COS, {Fraction(0): 1})
t_tan = _f1(TAN, {Fraction(0): 0})
t_atan = _f1(ATAN, {Fraction(0): 0})
t_acos = _f1(ACOS, {Fraction(1): 0})
t_asin = _f1(ASIN, {Fraction(0): 0})
t_tanh = _f1(TANH, {Fraction(0): 0})


def t_atan2(y, x):
    return ATAN2(to_real(y), to_real(x))


def t_deg2rad(a):
    return t_div(t_mul(to_real(a), PI), z3.RealVal(180))


def t_rad2deg(a):
    return t_div(t_mul(to_real(a), z3.RealVal(180)), PI)


# ---------------------------------------------------------------- definedness
_def_cache = {}
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


_triv_cache = {}


def defined_trivially(t):
    """True if no partial operation occurs in t."""
    stack = [t]
    seen = set()
    while stack:
        e = stack.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        hit = _triv_cache.get(k)
        if hit is not None and hit[0].eq(e):
            if not hit[1]:
                return False
            continue
        if z3.is_app(e):
            dk = e.decl().kind()
            if dk in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                if not (is_num(e.arg(1)) and frac_of(e.arg(1)) != 0):
                    return False
            if dk == z3.Z3_OP_UNINTERPRETED:
                d = e.decl()
                if d.eq(SQRT) or d.eq(LOG) or d.eq(POW) or d.eq(ACOS) or d.eq(ASIN) or d.eq(TAN):
                    return False
                if e.eq(NAN) or e.eq(INF):
                    return False
            stack.extend(e.children())
    _triv_cache[t.get_id()] = (t, True)
    return True


def defined(t):
    """A formula stating that term t is free of NaN/Inf (Kleene for booleans)."""
    k = t.get_id()
    hit = _def_cache.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    r = _defined(t)
    _def_cache[k] = (t, r)
    return r


def _defined(t):
    if not z3.is_app(t):
        return TRUE
    if defined_trivially(t):
        return TRUE
    dk = t.decl().kind()
    ch = t.children()
    if dk == z3.Z3_OP_ITE:
        return t_and(defined(ch[0]), t_if(ch[0], defined(ch[1]), defined(ch[2])))
    if dk == z3.Z3_OP_AND:
        ds = [defined(c) for c in ch]
        return t_or(t_and(*ds), *[t_and(d, t_not(c)) for c, d in zip(ch, ds)])
    if dk == z3.Z3_OP_OR:
        ds = [defined(c) for c in ch]
        return t_or(t_and(*ds), *[t_and(d, c) for c, d in zip(ch, ds)])
    if dk == z3.Z3_OP_IMPLIES:
        return defined(z3.Or(z3.Not(ch[0]), ch[1]))
    base = t_and(*[defined(c) for c in ch])
    if dk in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        if is_num(ch[1]) and frac_of(ch[1]) != 0:
            return base
        return t_and(base, ch[1] != 0)
    if dk == z3.Z3_OP_UNINTERPRETED:
        d = t.decl()
        if t.eq(NAN) or t.eq(INF):
            return FALSE
        if d.eq(SQRT):
            return t_and(base, t_cmp("ge", ch[0], z3.RealVal(0)))
        if d.eq(LOG):
            return t_and(base, t_cmp("gt", ch[0], z3.RealVal(0)))
        if d.eq(ACOS) or d.eq(ASIN):
            return t_and(base, ch[0] <= 1, ch[0] >= -1)
        if d.eq(POW):
            return t_and(base, z3.Or(ch[0] > 0, z3.And(ch[0] == 0, ch[1] >= 0)))
        if d.eq(TAN):
            return t_and(base, COS(ch[0]) != 0)
    return base


def defined_num(t):
    """Like defined, but infinite literals are fine (np.isnan)."""
    return defined(z3.substitute(t, (INF, z3.RealVal(0)))) if not defined_trivially(t) else TRUE


# ---------------------------------------------------------------- SV
class SV:
    """A symbolic scalar."""

    __slots__ = ("t", "axis")
    __array_priority__ = 1000

    def __init__(self, t, axis=None):
        self.t = t
        self.axis = axis

    # numpy scalar look
    @property
    def dtype(self):
        return np.dtype({"f": float, "i": int, "b": bool}[kind(self.t)])

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **k):
        return SV(cast(self.t, np.dtype(dt).kind))

    def __hash__(self):
        return hash(self.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __bool__(self):
        return ctx().decide(to_bool(self.t))

    def _const(self):
        t = self.t if is_num(self.t) else z3.simplify(self.t)
        if is_num(t):
            return frac_of(t)
        raise Unsupported(f"a symbolic value was used as a concrete number: {str(self.t)[:80]}")

    def __index__(self):
        q = self._const()
        if q.denominator != 1:
            raise TypeError("non-integer index")
        return int(q)

    def __int__(self):
        return int(self._const())

    def __float__(self):
        return float(self._const())

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"SV({self.t})"

    def __getitem__(self, item):
        from .arr import as_sarr

        return as_sarr(self)[item]

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        from .npshim import dispatch_ufunc

        return dispatch_ufunc(ufunc, method, args, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .npshim import dispatch_func

        return dispatch_func(func, args, kwargs)


def cast(t, k):
    if k == "f":
        return to_real(t)
    if k in "iu":
        return t_toint(t)
    if k == "b":
        return to_bool(t)
    if k == "O":
        return t
    raise Unsupported(f"cast to dtype kind {k}")


def _binop(fn):
    def op(self, other):
        if getattr(other, "_is_sarr", False) or (isinstance(other, np.ndarray) and other.ndim > 0):
            return NotImplemented
        if not isinstance(other, (SV, int, float, np.generic, np.ndarray, bool, Fraction)):
            return NotImplemented
        return SV(fn(self.t, lift(other)))

    def rop(self, other):
        if getattr(other, "_is_sarr", False) or (isinstance(other, np.ndarray) and other.ndim > 0):
            return NotImplemented
        if not isinstance(other, (SV, int, float, np.generic, np.ndarray, bool, Fraction)):
            return NotImplemented
        return SV(fn(lift(other), self.t))

    return op, rop


for _n, _f in {
    "add": t_add,
    "sub": t_sub,
    "truediv": t_div,
    "floordiv": t_floordiv,
    "mod": t_mod,
    "pow": t_pow,
    "and": lambda a, b: t_and(a, b),
    "or": lambda a, b: t_or(a, b),
    "xor": lambda a, b: t_not(_iff(to_bool(a), to_bool(b))),
}.items():
    _o, _r = _binop(_f)
    setattr(SV, f"__{_n}__", _o)
    setattr(SV, f"__r{_n}__", _r)

_mo, _mr = _binop(t_mul)


def _sv_mul(self, other):
    # products of array dimensions keep their factorisation
    if isinstance(other, SV) and self.axis is not None and other.axis is not None:
        return SV(t_mul(self.t, other.t), axis=self.axis.times(other.axis))
    if self.axis is not None and isinstance(other, (int, np.integer)):
        from .arr import Axis

        if other == 1:
            return self
        return SV(t_mul(self.t, lift(other)), axis=self.axis.times(Axis.of(int(other))))
    return _mo(self, other)


def _sv_rmul(self, other):
    if self.axis is not None and isinstance(other, (int, np.integer)):
        from .arr import Axis

        if other == 1:
            return self
        return SV(t_mul(self.t, lift(other)), axis=Axis.of(int(other)).times(self.axis))
    return _mr(self, other)


SV.__mul__ = _sv_mul
SV.__rmul__ = _sv_rmul
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):

    def _mk(n):
        def op(self, other):
            if getattr(other, "_is_sarr", False) or (isinstance(other, np.ndarray) and other.ndim > 0):
                return NotImplemented
            if other is None or isinstance(other, str):
                return {"eq": False, "ne": True}.get(n, NotImplemented)
            if not isinstance(other, (SV, int, float, np.generic, np.ndarray, bool, Fraction)):
                return NotImplemented
            return SV(t_cmp(n, self.t, lift(other)))

        return op

    setattr(SV, f"__{_n}__", _mk(_n))
SV.__neg__ = lambda self: SV(t_neg(self.t))
SV.__pos__ = lambda self: self
SV.__abs__ = lambda self: SV(t_abs(self.t))
SV.__invert__ = lambda self: SV(t_not(self.t))


def sv(x):
    return x if isinstance(x, SV) else SV(lift(x))


# ---------------------------------------------------------------- collecting terms
_kids = {}


def _node(e):
    """(term, is an uninterpreted application, children), cached; the cache keeps the terms alive."""
    k = e.get_id()
    r = _kids.get(k)
    if r is None:
        if z3.is_quantifier(e) or not z3.is_app(e):
            r = (e, False, ())
        else:
            n = e.num_args()
            r = (e, e.decl().kind() == z3.Z3_OP_UNINTERPRETED, tuple((c, c.get_id()) for c in (e.arg(i) for i in range(n))))
        _kids[k] = r
    return r


def collect_apps(terms, seen, out):
    """Collect all uninterpreted applications (with >=1 args, ground)."""
    stack = [(e, e.get_id()) for e in terms]
    while stack:
        e, k = stack.pop()
        if k in seen:
            continue
        seen[k] = e
        r = _kids.get(k)
        if r is None:
            r = _node(e)
        if r[1]:
            out.append(e)
        stack.extend(r[2])


_fresh = {}


def fresh_consts(t):
    """ids of the fresh constants in a term"""
    k = t.get_id()
    hit = _fresh.get(k)
    if hit is None:
        out, stack, done = [], [t], set()
        while stack:
            e = stack.pop()
            if e.get_id() in done:
                continue
            done.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in e.decl().name():
                out.append(e.get_id())
            stack.extend(e.children())
        hit = _fresh[k] = (t, out)
    return hit[1]


# ---------------------------------------------------------------- theory axioms
def unary_axioms(d, e):
    x = e.arg(0)
    if d.eq(SQRT):
        return [z3.Implies(x >= 0, z3.And(e >= 0, e * e == x)), z3.Implies(x > 0, e > 0)]
    if d.eq(EXP):
        return [
            e > 0,
            z3.Implies(x <= 0, e <= 1),
            z3.Implies(x >= 0, e >= 1),
            z3.Implies(x < 0, e < 1),
            z3.Implies(x > 0, e > 1),
            z3.Implies(x == 0, e == 1),
            e >= 1 + x,
        ]
    if d.eq(LOG):
        return [
            z3.Implies(x >= 1, e >= 0),
            z3.Implies(x > 1, e > 0),
            z3.Implies(z3.And(x > 0, x <= 1), e <= 0),
            z3.Implies(z3.And(x > 0, x < 1), e < 0),
            z3.Implies(x == 1, e == 0),
            z3.Implies(x > 0, e <= x - 1),
            z3.Implies(x > 0, EXP(e) == x),
        ]
    if d.eq(SIN) or d.eq(COS):
        s, c = SIN(x), COS(x)
        return [
            s * s + c * c == 1,
            s <= 1, s >= -1, c <= 1, c >= -1,
            z3.Implies(x == 0, z3.And(s == 0, c == 1)),
            z3.Implies(z3.And(x > 0, x < PI), s > 0),
            z3.Implies(z3.And(x > -PI / 2, x < PI / 2), c > 0),
            z3.Implies(z3.And(x > -PI, x < 0), s < 0),
            z3.Implies(x == PI, z3.And(s == 0, c == -1)),
        ]
    if d.eq(TAN):
        return [z3.Implies(COS(x) != 0, e * COS(x) == SIN(x))]
    if d.eq(ACOS):
        return [
            z3.Implies(z3.And(x >= -1, x <= 1), z3.And(e >= 0, e <= PI, COS(e) == x)),
            z3.Implies(x == 1, e == 0),
            z3.Implies(x == -1, e == PI),
            z3.Implies(z3.And(x >= -1, x < 1), e > 0),
            z3.Implies(z3.And(x > -1, x <= 1), e < PI),
        ]
    if d.eq(ASIN):
        return [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(e >= -PI / 2, e <= PI / 2, SIN(e) == x))]
    if d.eq(ATAN):
        return [
            e > -PI / 2, e < PI / 2,
            z3.Implies(x == 0, e == 0), z3.Implies(x > 0, e > 0), z3.Implies(x < 0, e < 0),
            TAN(e) == x,
        ]
    if d.eq(TANH):
        return [e < 1, e > -1, z3.Implies(x == 0, e == 0), z3.Implies(x > 0, e > 0), z3.Implies(x < 0, e < 0)]
    if d.eq(ATAN2):
        y, x = e.arg(0), e.arg(1)
        r = SQRT(x * x + y * y)
        nz = z3.Or(x != 0, y != 0)
        return [
            e <= PI, e > -PI,
            z3.Implies(nz, z3.And(r > 0, r * COS(e) == x, r * SIN(e) == y)),
            z3.Implies(z3.Not(nz), e == 0),
        ]
    if d.eq(POW):
        y = e.arg(1)
        more = []
        if is_num(y):
            # rational exponents p/q (the float nearest to a small fraction is read as that fraction)
            q = frac_of(y).limit_denominator(12)
            if abs(q - frac_of(y)) < Fraction(1, 10**14) and q.denominator > 1 and abs(q.numerator) <= 12:
                pe, px = e, x
                for _ in range(q.denominator - 1):
                    pe = pe * e
                for _ in range(abs(q.numerator) - 1):
                    px = px * x
                more.append(z3.Implies(x > 0, (pe == px) if q > 0 else (pe * px == 1)))
        if z3.is_app(x) and x.decl().eq(POW):
            more.append(z3.Implies(z3.And(x.arg(0) > 0), e == POW(x.arg(0), t_mul(x.arg(1), y))))
        return more + [
            z3.Implies(x > 0, e > 0),
            z3.Implies(z3.And(x == 0, y > 0), e == 0),
            z3.Implies(y == 0, e == 1),
            z3.Implies(y == 1, e == x),
            z3.Implies(x == 1, e == 1),
            z3.Implies(z3.And(x >= 0, y > 0), e >= 0),
            z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), e <= 1),
            z3.Implies(z3.And(x >= 1, y >= 0), e >= 1),
            z3.Implies(z3.And(x >= 1, y <= 0), e <= 1),
            z3.Implies(z3.And(x > 1, y > 0), e > 1),
            z3.Implies(z3.And(x > 0, x < 1, y > 0), e < 1),
        ]
    return []


def pair_axioms(d, e, f):
    x, y = e.arg(0), f.arg(0)
    if d.eq(EXP) or d.eq(LOG):
        g = z3.And(x > 0, y > 0) if d.eq(LOG) else TRUE
        return [z3.Implies(z3.And(g, x <= y), e <= f), z3.Implies(z3.And(g, y <= x), f <= e),
                z3.Implies(z3.And(g, x < y), e < f), z3.Implies(z3.And(g, y < x), f < e)]
    if d.eq(SQRT):
        g = z3.And(x >= 0, y >= 0)
        return [z3.Implies(z3.And(g, x <= y), e <= f), z3.Implies(z3.And(g, y <= x), f <= e)]
    if d.eq(SIN):
        k = z3.Int(f"per!{e.get_id()}!{f.get_id()}")
        return [
            z3.Implies(x == -y, z3.And(SIN(x) == -SIN(y), COS(x) == COS(y))),
            z3.Implies(z3.And(SIN(x) == SIN(y), COS(x) == COS(y)), x == y + TWOPI * z3.ToReal(k)),
            z3.Implies(z3.And(SIN(x) == -SIN(y), COS(x) == -COS(y)), x == y + PI + TWOPI * z3.ToReal(k)),
            z3.Implies(z3.Or(x == y + TWOPI, x == y - TWOPI), z3.And(SIN(x) == SIN(y), COS(x) == COS(y))),
            z3.Implies(z3.Or(x == y + PI, x == y - PI), z3.And(SIN(x) == -SIN(y), COS(x) == -COS(y))),
            z3.Implies(x == y + PI / 2, z3.And(SIN(x) == COS(y), COS(x) == -SIN(y))),
            z3.Implies(y == x + PI / 2, z3.And(SIN(y) == COS(x), COS(y) == -SIN(x))),
        ]
    if d.eq(ATAN):
        return [z3.Implies(x <= y, e <= f), z3.Implies(y <= x, f <= e), z3.Implies(x == -y, e == -f)]
    if d.eq(ACOS):
        return [z3.Implies(x <= y, e >= f), z3.Implies(y <= x, f >= e), z3.Implies(x == -y, e == PI - f)]
    if d.eq(POW):
        a, b = e.arg(1), f.arg(1)
        return [
            z3.Implies(z3.And(x >= 0, y >= 0, a == b, a > 0, x <= y), e <= f),
            z3.Implies(z3.And(x >= 0, y >= 0, a == b, a > 0, y <= x), f <= e),
            z3.Implies(z3.And(x > 0, x == y, a == -b), e * f == 1),
            z3.Implies(z3.And(x > 0, y > 0, a == b, x * y == 1), e * f == 1),
        ]
    return []


_UNARY = (SQRT, EXP, LOG, SIN, COS, TAN, ACOS, ASIN, ATAN, TANH, ATAN2, POW)
_PAIR = (EXP, LOG, SQRT, SIN, ATAN, ACOS, POW)


# ---------------------------------------------------------------- context
_axiom_cache = {}
_UNARY_IDS = {F.get_id() for F in _UNARY}
_PAIR_IDS = {F.get_id() for F in _PAIR}


class Obligation:
    def __init__(self, name, ok, backend, secs, detail=None, model=None, path=""):
        self.name = name
        self.ok = ok
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model
        self.path = path


class SymRange:
    _sym_range = True

    def __init__(self, c, n, index=None):
        self.c, self.n, self.index = c, n, index

    def __iter__(self):
        for i, spec in enumerate(self.c.loops):
            if z3.simplify(lift(spec.n)).eq(self.n):
                if not spec.keep:
                    del self.c.loops[i]
                return (k if self.index is None else self.index(k) for k, _ in spec.run(True))
        raise Unsupported("loop over a symbolic range without an invariant")


class Ctx:
    """One contract run: all paths of one harness."""

    def __init__(self, timeout_ms=8000, seed=1):
        self.timeout = timeout_ms
        self.seed = seed
        self.prefix = []
        self.n_uid = 0
        self.obligations = []
        self.solver_secs = 0.0
        self.n_paths = 0
        self.assume_log = []
        self.decision_cache = {}
        self.backends = {}
        self.stats = {}
        self.fail_fast = False

    # ---- one path
    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []
        self.pc = []
        self.scope = None  # formulas that hold under a temporary guard only
        self.facts = {}  # decl id -> list of fn(args)->formula
        self.pair_facts = {}  # decl id -> list of fn(args, args)->formulas
        self.fact_cache = {}
        self.entailed = {}
        self.decls = {}
        self.decls_keep = []
        self.universals = []  # (atoms, fn(idx)->formula)
        self.idx_terms = {}  # atom uid -> list of terms
        self.sumfacts = []
        self.n_uid = 0
        self.inputs = {}
        self.notes = []
        self.sumconsts = {}
        self.int_terms = {}
        self.wlog = None  # buffers written in the body of a loop
        self.loops = []  # invariants of loops over range(n)

    def buffer_mark(self):
        from . import arr

        return next(arr._uid)

    def sym_range(self, *args):
        """range(n) with symbolic n: the next loop invariant given by the contract for this trip count"""
        a, b, s = (0, args[0], 1) if len(args) == 1 else tuple(args) + (1,) * (3 - len(args))
        if is_sym(s) or s not in (1, -1):
            raise Unsupported("range with a symbolic or large step")
        n = z3.simplify((lift(b) - lift(a)) * s)
        if not self.entails(n >= 0):
            raise Unsupported("range that may be empty by a negative count")
        return SymRange(self, n, None if len(args) == 1 else lambda k: SV(z3.simplify(lift(a) + s * lift(k))))

    def uid(self, base="x"):
        self.n_uid += 1
        return f"{base}!{self.n_uid}"

    def assume(self, f):
        f = to_bool(lift(f))
        if z3.is_true(f):
            return
        self.pc.append(f)

    def add_fact(self, decl, fn):
        self.facts.setdefault(decl.get_id(), []).append(fn)
        self.decls[decl.get_id()] = decl

    def add_pair_fact(self, decl, fn):
        self.pair_facts.setdefault(decl.get_id(), []).append(fn)
        self.decls[decl.get_id()] = decl

    def _facts_of(self, did, e, args):
        key = (did, e.get_id())
        hit = self.fact_cache.get(key)
        if hit is None:
            out = []
            for fn in self.facts.get(did, ()):
                r = fn(*args)
                for f in r if isinstance(r, (list, tuple)) else [r]:
                    f = lift(f)
                    if not z3.is_true(f):
                        out.append(f)
            hit = self.fact_cache[key] = (e, out, len(self.facts.get(did, ())))
        elif hit[2] != len(self.facts.get(did, ())):
            del self.fact_cache[key]
            return self._facts_of(did, e, args)
        return hit[1]

    def _pair_of(self, did, e, f):
        key = (did, e.get_id(), f.get_id())
        hit = self.fact_cache.get(key)
        if hit is None:
            out = []
            for fn in self.pair_facts[did]:
                out += [lift(x) for x in fn(e.children(), f.children())]
            hit = self.fact_cache[key] = (e, out, f)
        return hit[1]

    def add_universal(self, atoms, fn):
        self.universals.append((list(atoms), fn, self._triggers(atoms, fn)))

    def _triggers(self, atoms, fn):
        """Function applications in the body that mention every bound index as a plain argument."""
        vs = [z3.Int(f"bv!{i}!{a.uid}") for i, a in enumerate(atoms)]
        try:
            body = lift(fn(*vs))
        except Unsupported:
            return []
        apps, seen = [], {}
        collect_apps([body], seen, apps)
        out = []
        for e in apps:
            if e.decl().arity() == 0 or e.decl().arity() < len(vs):
                continue
            args = e.children()
            pos = []
            for v in vs:
                hit = [i for i, x in enumerate(args) if x.eq(v)]
                if not hit:
                    break
                pos.append(hit[0])
            else:
                rec = (e.decl().get_id(), tuple(pos))
                if rec not in out:
                    out.append(rec)
                    self.decls_keep.append(e.decl())
        return out

    def note_index(self, atom, term):
        lst = self.idx_terms.setdefault(atom.uid, [])
        if not any(term.eq(x) for x in lst):
            lst.append(term)

    def candidates(self, atom):
        out = list(self.idx_terms.get(atom.uid, []))
        if atom.parent is not None:
            p, off = atom.parent
            for t in self.candidates(p):
                out.append(z3.simplify(t_sub(t, off)))
        for ch, off in atom.children:
            for t in self.idx_terms.get(ch.uid, []):
                out.append(z3.simplify(t_add(t, off)))
        if isinstance(atom.size, int) and atom.size <= 4:
            out += [z3.IntVal(k) for k in range(atom.size)]
        res = []
        for t in out:
            if not any(t.eq(x) for x in res):
                res.append(t)
        return res

    # ---- instantiation
    def close(self, terms, rounds=4, max_pairs=400, universals=True):
        """All axiom/fact instances relevant for the given formulas."""
        seen, out = {}, []
        by_decl = {}
        done = set()
        work = list(terms)
        inst = []
        n_pairs = 0
        done_univ = set()
        for rnd in range(rounds):
            apps = []
            collect_apps(work, seen, apps)
            work = []
            for e in apps:
                d = e.decl()
                did = d.get_id()
                if d.arity() == 0 and did not in self.facts:
                    continue
                key = e.get_id()
                if key in done:
                    continue
                done.add(key)
                if any(z3.is_var(c) for c in e.children()):
                    continue
                args = e.children()
                if did in self.facts:
                    work.extend(self._facts_of(did, e, args))
                if did in self.pair_facts:
                    for f in by_decl.get(did, []):
                        work.extend(self._pair_of(did, e, f))
                if did in _UNARY_IDS:
                    r = _axiom_cache.get(key)
                    if r is None:
                        r = _axiom_cache[key] = (e, unary_axioms(d, e))
                    work.extend(r[1])
                if did in _PAIR_IDS:
                    for f in by_decl.get(did, []):
                        if n_pairs < max_pairs:
                            n_pairs += 1
                            k2 = (key, f.get_id())
                            r = _axiom_cache.get(k2)
                            if r is None:
                                r = _axiom_cache[k2] = (e, pair_axioms(d, e, f), f)
                            work.extend(r[1])
                by_decl.setdefault(did, []).append(e)
            if universals:
                for ui, (atoms, fn, trig) in enumerate(self.universals):
                    if trig:
                        combos = []
                        for did, pos in trig:
                            for e in by_decl.get(did, ())[:60]:
                                combos.append([e.arg(i) for i in pos])
                    else:
                        combos = [(0, [])]
                        for a in atoms:
                            combos = [(r + i, c + [t]) for r, c in combos for i, t in enumerate(x for x in reversed(self.candidates(a)) if all(y in seen for y in fresh_consts(x)))]
                        combos.sort(key=lambda x: x[0])  # recent terms first
                        combos = [c for _, c in combos[:100]]
                    for c in combos:
                        key = (ui, tuple(t.get_id() for t in c))
                        if key in done_univ:
                            continue
                        done_univ.add(key)
                        rng = t_and(*[in_range(t, a) for t, a in zip(c, atoms)])
                        work.append(t_implies(rng, lift(fn(*c))))
            if not work:
                break
            inst.extend(work)
        return inst

    # ---- solving
    def check_sat(self, fs, timeout=None, close=True):
        fs = list(fs)
        if close:
            fs = fs + self.close(fs, rounds=2)
        s = z3.Solver()
        s.set("timeout", timeout or 1500)
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.solver_secs += time.time() - t0
        return r

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        forced = False
        if i < len(self.prefix):
            d, forced = self.prefix[i]
        else:
            can_t = not self.contradicts(cond)
            can_f = not self.contradicts(z3.Not(cond))
            if not can_t and not can_f:
                raise Infeasible()
            if can_t and can_f:
                d = True
                self.pending.append(self.trace + [(False, False)])
            else:
                d = can_t
                forced = True
                # forced decisions are implied, but recorded to keep the trace aligned
        self.trace.append((d, forced))
        self.pc.append(cond if d else z3.Not(cond))
        if forced and self.scope is not None:
            self.scope.append(self.pc[-1])
        return d

    def must(self, cond, what):
        """cond has to hold for the code to be modelled."""
        cond = z3.simplify(lift(cond))
        if z3.is_true(cond):
            return
        if self.entails(cond):
            return
        raise Unsupported(f"cannot establish: {what}: {str(cond)[:200]}")

    def entails(self, cond, timeout=3000):
        cond = z3.simplify(lift(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return self.check_sat(self.pc, timeout) == z3.unsat
        k = cond.get_id()
        hit = self.entailed.get(k)
        if hit is not None and hit[1] <= len(self.pc):
            return True
        r = self.contradicts(z3.Not(cond), timeout)
        if r:
            self.entailed[k] = (cond, len(self.pc))
        return r

    def push_guard(self, g):
        self.pc.append(g)
        old, self.scope = self.scope, [g]
        return old

    def pop_guard(self, old):
        drop = {id(x) for x in self.scope}
        self.pc = [x for x in self.pc if id(x) not in drop]
        self.scope = old
        self.entailed.clear()

    def contradicts(self, cond, timeout=None):
        """The path condition excludes cond (first tried without the axioms)."""
        fs = self.pc + [cond]
        if self.check_sat(fs, timeout=300, close=False) == z3.unsat:
            return True
        return self.check_sat(fs, timeout) == z3.unsat

    def equal_sums(self, fs, limit=40):
        """Sums over the same range are equal, or their terms differ somewhere (extensionality)."""
        recs = {r[0].get_id(): r for r in self.sumconsts.values() if r[3] is not None and z3.is_const(r[0])}
        if len(recs) < 2:
            return []

        def used(terms):
            out, seen, stack = [], set(), list(terms)
            while stack:
                e = stack.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if e.get_id() in recs:
                    out.append(e.get_id())
                stack.extend(e.children())
            return out

        first = used(fs[-1:])
        every = used(fs + self.close(fs))
        res = []
        for i in first or every:
            for j in every:
                if i == j or (j in first and j < i) or len(res) >= limit:
                    continue
                (s1, b1, v1, a1), (s2, b2, v2, a2) = recs[i], recs[j]
                n1, n2 = [x for ax in a1 for x in ax.atoms], [x for ax in a2 for x in ax.atoms]
                if len(n1) != len(n2) or not all(x.term().eq(y.term()) for x, y in zip(n1, n2)):
                    continue
                sk = [z3.Int(self.uid("differ")) for _ in n1]
                rng = t_and(*[in_range(k, x) for k, x in zip(sk, n1)])
                t1, t2 = z3.substitute(b1, *zip(v1, sk)), z3.substitute(b2, *zip(v2, sk))
                res.append(z3.Or(s1 == s2, z3.And(rng, t1 != t2)))
        return res

    def prove(self, name, goal, extra=(), record=True, timeout=None):
        """An obligation: pc and facts imply goal."""
        from . import backend

        goal = lift(goal)
        t0 = time.time()
        g = z3.simplify(goal) if not (z3.is_true(goal) or z3.is_false(goal)) else goal
        if z3.is_true(g):
            ob = Obligation(name, True, "simplify", time.time() - t0)
        else:
            hyps = list(self.pc) + [lift(x) for x in extra]
            ok, be, model, detail = backend.discharge(self, hyps, goal, timeout or self.timeout)
            if not ok:
                ext = self.equal_sums(hyps + [goal])
                if ext:
                    r = backend.discharge(self, hyps + ext, goal, timeout or self.timeout)
                    if r[0]:
                        ok, be, model, detail = r
            dt = time.time() - t0
            self.solver_secs += dt
            ob = Obligation(name, ok, be, dt, detail=detail, model=model)
        ob.path = "".join("T" if d else "F" for d, _ in self.trace)
        if record:
            self.obligations.append(ob)
        return ob.ok


def in_range(t, atom):
    if isinstance(atom.size, int):
        n = z3.IntVal(atom.size)
    else:
        n = atom.size
    return t_and(t_cmp("ge", t, z3.IntVal(0)), t_cmp("lt", t, n))


_CTX = None


def ctx():
    if _CTX is None:
        raise Unsupported("no verification context")
    return _CTX


def set_ctx(c):
    global _CTX
    _CTX = c
