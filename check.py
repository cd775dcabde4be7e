#!/usr/bin/env python
"""Decides one property: python check.py P04 [--tier quick|thorough] | --replay FILE"""

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FOXES_REPO", "/repo")
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

from dv import core  # noqa: E402

TRUSTED = [
    "the symbolic executor /verif/dv (sym.py, arr.py, npshim.py): its contracts for numpy functions and array semantics are assumed; they are cross-checked against numpy by `python /verif/selftest.py`",
    "z3 and cvc5 (an obligation counts when one of them answers unsat)",
    "floating point numbers are treated as real numbers; pi is its double value, with sin(pi) = 0",
    "axioms for sqrt, exp, log, pow, trigonometric functions instantiated at the occurring terms (dv/sym.py)",
    "the CPython interpreter, which executes foxes' own control flow on symbolic values; attribute/dict/string operations run natively",
]


def load_contracts(prop):
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.startswith(prop.lower()) and f.endswith(".py"):
            importlib.import_module("contracts." + f[:-3])
    cs = core.CONTRACTS.get(prop, [])
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), "duplicate contract names"
    return cs


# ------------------------------------------------------------------ one task
def sample_loop(con, prm, seed0, n, t_max, stop_on_violation=True):
    st = dict(ok=0, discard=0, violation=0)
    found, first = None, None
    distinct = set()
    t0 = time.time()
    for k in range(n):
        status, detail, inputs = core.run_concrete(con, prm, seed0 + k)
        st[status] += 1
        if status == "ok":
            distinct.add(hash(json.dumps(core.jsonable(inputs), sort_keys=True)))
            if first is None:
                first = core.jsonable(inputs)
        if status == "violation":
            found = dict(detail=detail, inputs=core.jsonable(inputs), seed=seed0 + k)
            if stop_on_violation:
                break
        if time.time() - t0 > t_max:
            break
    return st, found, len(distinct), first


def work(con, prm, tier, seed):
    thorough = tier == "thorough"
    out = dict(contract=con.name, params=core.pstr(prm), mode=con.mode, fail=[], t0=time.time())
    core.load_foxes()
    n = con.samples * (12 if thorough else 1)
    st, found, dist, first = sample_loop(con, prm, seed * 100003, n, con.sample_secs * (6 if thorough else 1))
    out.update(samples=st, distinct=dist, sample=first)
    if con.mode == "proof":
        # the property is decided by the proof; a sampled failure only supplies the failing input
        mon = core.Coverage()
        with mon:
            r = core.run_symbolic(con, prm, seed=seed, budget=con.budget * (3 if thorough else 1),
                                  timeout=con.timeout * (3 if thorough else 1))
        out["functions"] = mon.functions()
        out.update({k: r[k] for k in ("paths", "infeasible", "solver_secs", "secs")})
        out["obligations"] = [[o["name"], o["ok"], o["backend"]] for o in r["obligations"]]
        bad = [o for o in r["obligations"] if not o["ok"]]
        if not r["obligations"] and not r["unsupported"]:
            r["unsupported"] = ["no obligation was generated (vacuous)"]
        if bad or r["unsupported"]:
            if not found:
                for o in bad:
                    v = o["values"]
                    if v and not v.get("_too_large"):
                        s, d, inp = core.run_concrete(con, prm, 0, values=v)
                        if s == "violation":
                            found = dict(detail=d, inputs=core.jsonable(inp), values=core.jsonable(v), from_model=True)
                            break
            if not found:
                _, found, _, _ = sample_loop(con, prm, seed * 100003 + 50000, con.samples * 10, 40.0)
        for o in bad:
            out["fail"].append(dict(kind="obligation", name=o["name"], path=o["path"], detail=f"{o['backend']}: {o['detail']}",
                                    values=core.jsonable(o["values"])))
        for u in r["unsupported"]:
            out["fail"].append(dict(kind="unsupported", name="not-verified", detail=u))
    if found:
        nm = found["detail"].split(":")[0]
        if not any(f["name"].split("[")[0] == nm for f in out["fail"]):
            out["fail"].insert(0, dict(kind="sample", name=nm, detail=found["detail"]))
    if st["ok"] == 0 and not found and not out["fail"]:
        out["fail"].append(dict(kind="vacuous", name="precondition", detail=f"no sample satisfied the precondition: {st}"))
    out["found"] = found
    out["wall"] = time.time() - out["t0"]
    return out


def child(conn, con, prm, tier, seed):
    try:
        conn.send(work(con, prm, tier, seed))
    except BaseException as e:
        conn.send(dict(contract=con.name, params=core.pstr(prm), mode=con.mode, error=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}",
                       fail=[dict(kind="error", name="verifier-error", detail=f"{type(e).__name__}: {e}")], found=None))
    conn.close()
    os._exit(0)


def run_all(cons, tier, seed, limit, jobs=8):
    """Every contract instance in its own process."""
    tasks = [(c, p) for c in cons for p in c.instances()]
    tasks.sort(key=lambda t: -t[0].weight)
    running, res = [], []
    ctx = mp.get_context("fork")
    hard = limit
    t00 = time.time()
    while tasks or running:
        while tasks and len(running) < jobs:
            c, p = tasks.pop(0)
            a, b = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=child, args=(b, c, p, tier, seed))
            pr.start()
            b.close()
            running.append((pr, a, c, p, time.time()))
        progressed = False
        for rec in list(running):
            pr, a, c, p, t0 = rec
            done = None
            if a.poll(0):
                try:
                    done = a.recv()
                except EOFError:
                    done = dict(contract=c.name, params=core.pstr(p), mode=c.mode, found=None,
                                fail=[dict(kind="error", name="verifier-error", detail="process died")])
            elif not pr.is_alive():
                done = dict(contract=c.name, params=core.pstr(p), mode=c.mode, found=None,
                            fail=[dict(kind="error", name="verifier-error", detail="process died")])
            elif time.time() - t00 > hard:
                pr.kill()
                done = dict(contract=c.name, params=core.pstr(p), mode=c.mode, found=None,
                            fail=[dict(kind="timeout", name="not-verified", detail="time limit of the check reached")])
            if done is not None:
                pr.join(5)
                if pr.is_alive():
                    pr.kill()
                done["con"] = c
                res.append(done)
                running.remove(rec)
                progressed = True
        if not progressed:
            time.sleep(0.02)
    return res


# ------------------------------------------------------------------ findings
def known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match_known(kf, r, f):
    """A finding names contract, instance and failing postcondition."""
    for k in kf:
        if k["contract"] == r["contract"] and re.fullmatch(k.get("params", ".*"), r["params"]) and re.fullmatch(k["obligation"], f["name"]):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    if a.replay:
        return replay(a.replay)

    t0 = time.time()
    prop = a.prop
    cons = load_contracts(prop)
    if a.only:
        cons = [c for c in cons if any(o in c.name for o in a.only.split("|"))]
    core.load_foxes()
    limit = 800 if a.tier == "quick" else 3 * 3600
    res = run_all(cons, a.tier, seed, limit)

    kf = known(prop)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "_"):
            os.remove(os.path.join(rdir, f))
    with_input, without_input, known_hit = [], [], {}
    for i, r in enumerate(sorted(res, key=lambda r: (r["contract"], r["params"]))):
        left = []
        for f in r["fail"]:
            k = match_known(kf, r, f)
            if k:
                known_hit[k["id"]] = k
            else:
                left.append(f)
        r["left"] = left
        if not left:
            continue
        found = r["found"]
        if found and match_known(kf, r, dict(name=found["detail"].split(":")[0])):
            found = None
        path = os.path.join(rdir, f"{prop}_{i}.json")
        json.dump(dict(property=prop, contract=r["contract"], params=r["params"], failed=left, failing_input=found,
                       targets=r["con"].targets, statement=r["con"].doc), open(path, "w"), indent=1)
        (with_input if found else without_input).append((r, path))

    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for r, path in with_input + without_input:
        print(f"# {r['contract']}[{r['params']}]: " + "; ".join(f"{f['name']}: {str(f['detail'])[:160]}" for f in r["left"][:1]))
    for r, path in with_input[:10]:
        print(f"#   failing input: {r['found']['detail'][:300]}")
        print(f"VIOLATION property={prop} replay={path}")
    if not with_input:
        for r, path in without_input[:10]:
            print(f"VIOLATION property={prop} replay={path} no-failing-input-found")

    write_evidence(prop, a.tier, seed, cons, res, time.time() - t0, with_input + without_input, known_hit)
    n_ob = sum(len(r.get("obligations", [])) for r in res)
    n_ok = sum(sum(1 for o in r.get("obligations", []) if o[1]) for r in res)
    print(f"{prop} {a.tier}: {len(res)} contract instances, {n_ok}/{n_ob} obligations discharged, "
          f"{sum(r.get('samples', {}).get('ok', 0) for r in res)} samples, {time.time() - t0:.1f}s")
    if a.v:
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:25]:
            print("   ", r["contract"], r["params"], r.get("paths"), len(r.get("obligations", [])), r.get("samples"), f"{r.get('wall', 0):.1f}s", r.get("error", "")[-600:])
    return 1 if with_input or without_input else 0


def write_evidence(prop, tier, seed, cons, res, wall, viols, known_hit):
    obl = [o for r in res for o in r.get("obligations", [])]
    bes = {}
    for _, ok, be in obl:
        if ok:
            bes[be] = bes.get(be, 0) + 1
    per = []
    for c in cons:
        rs = [r for r in res if r["con"] is c]
        per.append(dict(
            contract=c.name, mode=c.mode, statement=c.doc, targets={t: core.source_of(t) for t in c.targets}, instances=len(rs),
            obligations=sum(len(r.get("obligations", [])) for r in rs),
            discharged=sum(1 for r in rs for o in r.get("obligations", []) if o[1]),
            paths=sum(r.get("paths", 0) for r in rs), samples_ok=sum(r.get("samples", {}).get("ok", 0) for r in rs),
            **({"bound": c.bound} if c.bound else {}), **({"assumes": c.assumes} if c.assumes else {})))
    fns = sorted({f for r in res for f in r.get("functions", [])})
    bounded = [p for p in per if p["mode"] == "bounded"]
    samples = [dict(contract=r["contract"], params=r["params"], inputs=r["sample"]) for r in res if r.get("sample")][:3]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=len(obl), discharged=sum(1 for o in obl if o[1]),
            checker_cmd=f"/opt/venv/bin/python /verif/check.py {prop} --tier {tier}",
            trusted_base=TRUSTED,
            back_ends=bes, solver_seconds=round(sum(r.get("solver_secs", 0) for r in res), 2),
            paths=sum(r.get("paths", 0) for r in res),
            functions_under_contract=sorted({t for c in cons if c.mode == "proof" for t in c.targets}),
            foxes_functions_executed_symbolically=fns,
            contracts=per,
            evaluations=sum(sum(r.get("samples", {}).values()) for r in res),
            distinct_nontrivial=sum(r.get("distinct", 0) for r in res),
            rule="seeded random inputs that satisfy the contract's precondition (others are discarded), counted once per distinct input; they only supply failing inputs and sanity checks",
            samples=samples,
            bounded_not_proved=[f"{b['contract']}: {b.get('bound')}" for b in bounded],
        ),
        assumptions=sorted({x for c in cons for x in (c.assumes or [])}) + [f"known finding (still present): {k['what']}" for k in known_hit.values()],
        wall_s=round(wall, 2), violations=len(viols),
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def replay(path):
    rec = json.load(open(path))
    cons = [c for c in load_contracts(rec["property"]) if c.name == rec["contract"]]
    core.load_foxes()
    bad = 0
    for c in cons:
        for p in c.instances():
            if core.pstr(p) != rec["params"]:
                continue
            fi = rec.get("failing_input")
            if fi:
                s, d, _ = core.run_concrete(c, p, fi.get("seed", 0), values=fi.get("values"))
                print("replay on the real code:", s, d)
                bad |= s == "violation"
            else:
                r = core.run_symbolic(c, p)
                for o in r["obligations"]:
                    if not o["ok"]:
                        print("obligation", o["name"], o["backend"], o["detail"])
                        bad = 1
                for u in r["unsupported"]:
                    print("not verified:", u)
                    bad = 1
    return int(bad)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
