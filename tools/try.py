#!/opt/veriftools/pyvenv/bin/python
"""Run single harnesses by hand: try.py PID "module:name:k=v,k=v" ... [-- run.py options]  (evidence goes to a scratch copy)"""
import ast
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
tmp = tempfile.mkdtemp(prefix="try_")
try:
    for d in ("engine", "harness"):
        shutil.copytree(ROOT + "/" + d, tmp + "/" + d)
    for f in ("known_findings.txt", "properties.jsonl"):
        shutil.copy(ROOT + "/" + f, tmp)
    args = sys.argv[1:]
    rest = []
    if "--" in args:
        rest = args[args.index("--") + 1:]
        args = args[:args.index("--")]
    jobs = []
    for a in args[1:]:
        m, n, *p = a.split(":", 2)
        jobs.append('job("%s", "%s", %s)' % (m, n, p[0] if p else ""))
    with open(tmp + "/harness/suite.py", "a") as f:
        f.write('\nprop("%s", [%s], [], "")\n' % (args[0], ", ".join(jobs)))
    sys.exit(os.spawnv(os.P_WAIT, sys.executable, [sys.executable, tmp + "/engine/run.py", args[0], "-v"] + rest))
finally:
    shutil.rmtree(tmp)
