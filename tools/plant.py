"""Development helper: turns a planted bug into seeded/<id>/ after confirming it in a scratch copy.

python tools/plant.py SPEC.py [--notest]   SPEC defines a list BUGS of dicts:
  id, prop, edits=[(file, old, new), ...], demo (python source), needs, breaks
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# run with cwd = the repository\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, **kw):
    env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONHASHSEED="0", PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, **kw)


def one(b, test):
    scr = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    d = os.path.join(scr, "repo")
    shutil.copytree("/repo", d, symlinks=True)
    run(["git", "checkout", "-q", "--", "."], d)
    out = os.path.join(scr, b["id"])
    os.makedirs(out)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(b["demo"].lstrip())
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(out + "/meta.json", "w"), indent=1)
    r0 = run(["bash", out + "/demo.sh"], d)
    for f, old, new in b["edits"]:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT", f, "matches", s.count(old))
            shutil.rmtree(scr)
            return False
        open(p, "w").write(s.replace(old, new))
    r1 = run(["bash", out + "/demo.sh"], d)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(b["id"], "demo unchanged", r0.returncode, "patched", r1.returncode, "" if ok else r0.stderr[-800:] + r1.stdout[-300:])
    if "Error" in r1.stderr and "AssertionError" not in r1.stderr:
        print("   note: demo fails with", r1.stderr.strip().splitlines()[-1])
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    if ok and test:
        t = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "0", "tests", "--ignore=tests/1_verification/flappy_0_6/abl_states"] if 0 else
                [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=600", "--ignore=tests/1_verification/flappy_0_6/abl_states", "--junitxml=" + scr + "/j.xml", "tests"], d)
        import xml.etree.ElementTree as ET
        passed = set()
        for tc in ET.parse(scr + "/j.xml").iter("testcase"):
            if not list(tc.iter("failure")) and not list(tc.iter("error")) and not list(tc.iter("skipped")):
                passed.add(f"{tc.get('classname')}::{tc.get('name')}")
        miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
        ok = not miss
        print(b["id"], "stable tests failing with the patch:", miss)
    if ok:
        dst = os.path.join(here, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
    shutil.rmtree(scr)
    return ok


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    bugs = [b for b in bugs if not only or b["id"] in only]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda b: one(b, "--notest" not in sys.argv), bugs))
    print(sum(res), "of", len(res), "kept")
