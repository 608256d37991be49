#!/usr/bin/env python3
"""Builds and confirms planted bugs from a spec module (list BUGS of dicts:
id, property, file, edits [(old, new)...], demo, needs, breaks).

plant.py SPEC [ids...]          confirm (tests pass, demo 0 clean / nonzero patched), write seeded/<id>
plant.py --check SPEC [ids...]  also run the property's quick check against a patched copy
Everything happens in copies under /tmp, removed afterwards."""
import argparse
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$(dirname "$0")/demo.py"
"""
DEMO_HEAD = """import os
import signal
import sys
sys.path.insert(0, os.getcwd())
signal.alarm(60)
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))
    return r.returncode, r.stdout + r.stderr


def tests_pass(repo):
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", repo], cwd=repo, env={"PYTHONPATH": repo})
    return rc == 0 and "31 passed" in out, out[-400:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--all-checks", default="")
    a = ap.parse_args()
    sp = importlib.util.spec_from_file_location("spec", a.spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [b for b in m.BUGS if not a.ids or b["id"] in a.ids]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1 if a.check else 4) as ex:
        for line in ex.map(lambda b: one(b, a), todo):
            print(line, flush=True)


def one(b, a):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo)
        for old, new in b["edits"]:
            p = repo + "/" + b["file"]
            t = open(p).read()
            if t.count(old) != 1:
                n = b.get("nth")
                if n is None or t.count(old) <= n:
                    return "%-28s BADEDIT %d matches" % (b["id"], t.count(old))
                parts = t.split(old)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        rc, diff = sh(["git", "-C", repo, "diff"])
        ok, out = tests_pass(repo)
        if not ok:
            return "%-28s TESTS FAIL: %s" % (b["id"], out[-200:])
        d = tmp + "/demo"
        os.mkdir(d)
        open(d + "/demo.py", "w").write(DEMO_HEAD + b["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        r0, o0 = sh(["bash", d + "/demo.sh"], cwd="/repo")
        r1, o1 = sh(["bash", d + "/demo.sh"], cwd=repo)
        if r0 != 0 or r1 == 0:
            return "%-28s DEMO clean=%d patched=%d %s %s" % (b["id"], r0, r1, o0[-300:], o1[-200:])
        out_dir = ROOT + "/seeded/" + b["id"]
        os.makedirs(out_dir, exist_ok=True)
        open(out_dir + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.py", out_dir)
        shutil.copy(d + "/demo.sh", out_dir)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(out_dir + "/meta.json", "w"), indent=1)
        res = "%-28s ok" % b["id"]
        if a.check:
            v = tmp + "/verif"
            os.mkdir(v)
            for x in ("engine", "harness", "vt.sh", "known_findings.txt", "properties.jsonl"):
                (shutil.copytree if os.path.isdir(ROOT + "/" + x) else shutil.copy)(ROOT + "/" + x, v + "/" + x)
            pids = [b["property"]] + [x for x in a.all_checks.split(",") if x]
            for pid in pids:
                import time
                t0 = time.time()
                rc, out = sh(["./vt.sh", pid, "--tier", "quick"], cwd=v, env={"VERIF_REPO": repo})
                vio = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s" % pid)]
                inc = [l for l in out.splitlines() if l.startswith(("INCOMPLETE", "ERROR"))]
                res += " | %s rc=%d vio=%d inc=%d %.0fs %s" % (pid, rc, len(vio), len(inc), time.time() - t0,
                                                              "CAUGHT" if rc == 1 and vio else "MISSED " + out[-300:])
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
