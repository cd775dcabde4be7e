"""Discharging of obligations: z3, then cvc5; polynomial expansion."""

import time
from fractions import Fraction
import z3

from .sym import *  # noqa
from . import sym as S


# ------------------------------------------------------------------ polynomials
def expand(t, limit=400):
    """Sum of monomials [(Fraction, [factor terms])]; non-polynomial parts are factors."""
    return [(c, list(fs)) for fs, c in _expand(t, limit).values()]


def _mk(c, fs):
    fs = sorted(fs, key=lambda x: x.get_id())
    return tuple(f.get_id() for f in fs), fs, c


def _expand(t, limit):
    if is_num(t):
        c = frac_of(t)
        return {(): [[], c]} if c != 0 else {}
    if z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            out = {}
            for x in ch:
                _acc(out, _expand(x, limit), 1)
            return out
        if k == z3.Z3_OP_SUB:
            out = {}
            _acc(out, _expand(ch[0], limit), 1)
            for x in ch[1:]:
                _acc(out, _expand(x, limit), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            out = {}
            _acc(out, _expand(ch[0], limit), -1)
            return out
        if k == z3.Z3_OP_TO_REAL and is_num(ch[0]):
            c = frac_of(ch[0])
            return {(): [[], c]} if c else {}
        if k == z3.Z3_OP_MUL:
            cur = {(): [[], Fraction(1)]}
            for x in ch:
                e = _expand(x, limit)
                nxt = {}
                for fs, c in cur.values():
                    for gs, d in e.values():
                        key, hs, cc = _mk(c * d, fs + gs)
                        if key in nxt:
                            nxt[key][1] += cc
                        else:
                            nxt[key] = [hs, cc]
                if len(nxt) > limit:
                    return {(t.get_id(),): [[t], Fraction(1)]}
                cur = {k2: v for k2, v in nxt.items() if v[1] != 0}
            return cur
        if k == z3.Z3_OP_DIV:
            inv = z3.RealVal(1) / ch[1]
            e = _expand(ch[0], limit)
            out = {}
            for fs, c in e.values():
                key, hs, cc = _mk(c, fs + [inv])
                out[key] = [hs, cc]
            return out
    return {(t.get_id(),): [[t], Fraction(1)]}


def _acc(out, e, sgn):
    for k, (fs, c) in e.items():
        if k in out:
            out[k][1] += sgn * c
            if out[k][1] == 0:
                del out[k]
        else:
            out[k] = [fs, sgn * c]


# ------------------------------------------------------------------ solving
def _model_of(s):
    try:
        return s.model()
    except z3.Z3Exception:
        return None


def ackermann(fs):
    """Replace uninterpreted applications by constants, adding congruence."""
    apps, seen = [], {}
    S.collect_apps(fs, seen, apps)
    apps = [a for a in apps if a.decl().arity() > 0]
    # innermost first
    apps.sort(key=lambda a: _depth(a))
    subs = []
    by = {}
    extra = []
    for a in apps:
        a2 = z3.substitute(a, *subs) if subs else a
        c = z3.FreshConst(a.sort(), "ack")
        for args, c2 in by.get(a.decl().get_id(), []):
            eqs = [x == y for x, y in zip(a2.children(), args)]
            extra.append(z3.Implies(z3.And(*eqs), c == c2))
        by.setdefault(a.decl().get_id(), []).append((a2.children(), c))
        subs.append((a, c))
    # substitute outermost first: substitute handles simultaneous replacement of maximal terms
    rev = list(reversed(subs))
    out = [z3.substitute(f, *rev) for f in fs]
    extra = [z3.substitute(f, *rev) for f in extra]
    return out + extra


_dcache = {}


def _depth(t):
    k = t.get_id()
    h = _dcache.get(k)
    if h is not None and h[0].eq(t):
        return h[1]
    d = 1 + max([_depth(c) for c in t.children()], default=0)
    _dcache[k] = (t, d)
    return d


def try_z3(fs, timeout, tactic=None, seed=0):
    if tactic is None:
        s = z3.Solver()
    else:
        s = tactic.solver()
    s.set("timeout", timeout)
    try:
        s.set("random_seed", seed)
    except z3.Z3Exception:
        pass
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return z3.unknown, None
    return r, (_model_of(s) if r == z3.sat else None)


def try_nlsat(fs, timeout):
    try:
        g = ackermann([z3.simplify(f) for f in fs])
        tac = z3.Then("simplify", "elim-term-ite", "solve-eqs", "purify-arith", "smt") if False else z3.Tactic("qfnra-nlsat")
        t = z3.Then(z3.With("simplify", som=True), "propagate-values", "solve-eqs", "elim-term-ite", "tseitin-cnf", "qfnra-nlsat")
        s = t.solver()
        s.set("timeout", timeout)
        s.add(*g)
        return s.check()
    except z3.Z3Exception:
        return z3.unknown


def try_cvc5(fs, timeout):
    try:
        import cvc5
    except ImportError:
        return z3.unknown
    s = z3.Solver()
    s.add(*fs)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout)))
        slv.setOption("nl-cov", "true")
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            out = str(out).strip()
            if out in ("sat", "unsat", "unknown"):
                res = out
        return {"sat": z3.sat, "unsat": z3.unsat}.get(res, z3.unknown)
    except Exception:
        return z3.unknown


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    return [g]


def relevant(fs, goal):
    """Hypotheses sharing symbols (transitively) with the goal."""
    def syms(t):
        apps, seen = [], {}
        S.collect_apps([t], seen, apps)
        return {a.decl().get_id() for a in apps}

    ss = [(f, syms(f)) for f in fs]
    cur = syms(goal)
    chosen = set()
    changed = True
    while changed:
        changed = False
        for i, (f, s) in enumerate(ss):
            if i not in chosen and (s & cur or not s):
                chosen.add(i)
                if not s <= cur:
                    cur |= s
                changed = True
    return [f for i, (f, _) in enumerate(ss) if i in chosen]


def discharge(c, hyps, goal, timeout):
    """-> (ok, backend, model, detail)"""
    bes = []
    for g in conjuncts(z3.simplify(goal, elim_and=False)) or [goal]:
        ok, be, model, detail = discharge1(c, hyps, g, timeout)
        bes.append(be)
        if not ok:
            return False, be, model, detail
    return True, "+".join(sorted(set(bes))), None, None


def hard(fn, limit):
    """fn() -> picklable, run in a child process that is ended after limit seconds; None if it did not answer."""
    import os, pickle, select, signal

    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.alarm(int(limit) + 5)
            os.write(wr, pickle.dumps(fn()))
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(wr)
    out = None
    try:
        ready, _, _ = select.select([rd], [], [], limit)
        if ready:
            buf = b""
            while True:
                x = os.read(rd, 65536)
                if not x:
                    break
                buf += x
            out = pickle.loads(buf) if buf else None
        else:
            os.kill(pid, signal.SIGKILL)
    finally:
        os.close(rd)
        os.waitpid(pid, 0)
    return out


def nonlinear(fs):
    """Does a product of terms, a quotient or a power occur?"""
    stack, seen = list(fs), set()
    while stack:
        e = stack.pop()
        if e.get_id() in seen or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL and sum(not is_num(x) for x in e.children()) > 1 or k == z3.Z3_OP_POWER or k == z3.Z3_OP_DIV and not is_num(e.arg(1)):
            return True
        stack.extend(e.children())
    return False


def discharge1(c, hyps, goal, timeout):
    neg = z3.Not(goal)
    base = list(hyps) + [neg]
    nl = nonlinear(base)
    t0 = min(1500, timeout)
    # stage 0: without any instantiation
    if nl:
        r = hard(lambda: str(try_z3(base, t0)[0]), t0 / 1000 + 3)
    else:
        r = str(try_z3(base, t0)[0])
    if r == "unsat":
        return True, "z3", None, None
    inst = c.close(base)
    full = base + inst
    if not nl and not nonlinear(inst):
        res = stages(c, full, timeout, bool(inst), r)
    else:
        limit = 8 * timeout / 1000 + 20
        res = hard(lambda: stages(c, full, timeout, bool(inst), r), limit)
        if res is None:
            res = (False, "unknown", "no answer within the time limit")
    ok, be, detail = res
    if ok or detail != "counterexample":
        return ok, be, None, detail
    # the solver's model, for the replay
    for seed in (0, 7):
        r, m = try_z3(full, timeout, seed=seed)
        if r == z3.sat:
            return False, be, m, detail
    return False, be, None, detail


def stages(c, full, timeout, inst, r):
    for t in (1000, timeout // 2):
        if inst or t > 1000:
            r = str(try_z3(full, t)[0])
            if r == "unsat":
                return True, "z3", None
        if r == "sat":
            return False, "z3", "counterexample"
        if t == 1000 and try_nlsat(full, t) == z3.unsat:
            return True, "z3-nlsat", None
    if try_nlsat(full, timeout // 2) == z3.unsat:
        return True, "z3-nlsat", None
    if c.fail_fast:
        return False, "unknown", "not discharged"
    s = z3.SolverFor("QF_UFNIRA")
    s.set("timeout", timeout // 2)
    s.add(*full)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if r == z3.unsat:
        return True, "z3-nira", None
    if r == z3.sat:
        return False, "z3-nira", "counterexample"
    r = try_cvc5(full, timeout)
    if r == z3.unsat:
        return True, "cvc5", None
    if split_ite(c, full, timeout):
        return True, "z3-split", None
    r, m = try_z3(full, timeout, seed=7)
    if r == z3.unsat:
        return True, "z3", None
    if r == z3.sat:
        return False, "z3", "counterexample"
    return False, "unknown", "not discharged within the time limit"


def split_ite(c, fs, timeout, depth=6):
    """Decide if-conditions one by one."""
    t0 = time.time()

    def conds(fs):
        stack, seen = list(fs), set()
        out = []
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
                    out.append(e.arg(0))
                stack.extend(e.children())
        return out

    def rec(fs, d):
        if time.time() - t0 > timeout / 1000.0 * 2:
            return False
        r, _ = try_z3(fs, 400)
        if r == z3.unsat:
            return True
        cs = conds(fs)
        if d == 0 or not cs:
            if try_nlsat(fs, timeout // 2) == z3.unsat:
                return True
            r, _ = try_z3(fs, timeout // 2)
            return r == z3.unsat
        cnt = {}
        for x in cs:
            cnt[x.get_id()] = cnt.get(x.get_id(), 0) + 1
        q = min(cs, key=lambda x: (_depth(x), x.get_id()))
        for val in (True, False):
            sub = [z3.simplify(z3.substitute(f, (q, z3.BoolVal(val)))) for f in fs] + [q if val else z3.Not(q)]
            if not rec(sub, d - 1):
                return False
        return True

    return rec(list(fs), depth)
