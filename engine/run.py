"""python3-vt engine/run.py PROPERTY [--tier quick|thorough]"""
import argparse
import glob
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

from engine.explore import Explorer, Job, WORKERS          # noqa: E402
from engine import loader                                   # noqa: E402

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
REPLAY = os.path.join(HERE, "replay.py")


def known_findings(pid):
    """inputs listed in known_findings.txt:  finding: property=ID match=LABEL text"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("finding: property=%s " % pid):
                    out.append(line.split(None, 2)[2].strip())
    return out


def replay(pid, cand, n):
    """-> path of a reproduced counterexample, or None"""
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    for k, a in enumerate(cand["assignments"]):
        case = {"property": pid, "module": cand["module"], "harness": cand["harness"],
                "params": cand["params"], "label": cand["label"], "assignment": a}
        path = os.path.join(d, "%s-%d-%d.json" % (pid, n, k))
        with open(path, "w") as f:
            json.dump(case, f, indent=1)
        try:
            r = subprocess.run([PY, REPLAY, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=60, cwd="/")
        except subprocess.TimeoutExpired:
            continue
        if r.returncode == 1:
            case["observed"] = r.stdout.decode(errors="replace").strip()[-1500:]
            with open(path, "w") as f:
                json.dump(case, f, indent=1)
            return path, case["observed"]
        os.remove(path)
    return None


def validate(cases):
    """runs sampled members of explored paths on the real code -> (agree, diverge, notes)"""
    if not cases:
        return 0, 0, []
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    agree, diverge, notes = 0, 0, []
    path = os.path.join(d, "validate-%d.json" % os.getpid())
    with open(path, "w") as f:
        json.dump(cases, f)
    try:
        r = subprocess.run([PY, REPLAY, "--batch", path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300, cwd="/")
        res = json.loads(r.stdout.decode())
    except (subprocess.TimeoutExpired, ValueError) as e:
        return 0, 0, ["validation did not run: %s" % e]
    finally:
        os.remove(path)
    for c, r in zip(cases, res):
        if r["status"] == "abandoned":
            continue
        ok = r["status"] == "ok" and _agree(c["expect"], r["observed"], c["theory"])
        if ok:
            agree += 1
        else:
            diverge += 1
            if len(notes) < 5:
                notes.append({"harness": c["harness"], "status": r["status"], "failures": r["failures"][:3],
                              "expect": c["expect"][:4], "observed": r["observed"][:4],
                              "assignment": c["assignment"]})
    return agree, diverge, notes


def _agree(a, b, theory):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(_agree(x, y, theory) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str):
        return a == b
    if isinstance(b, str):
        return False
    if theory == "real":
        if a != a:
            return True
        return abs(a - b) <= 1e-5 * (1 + abs(a) + abs(b))
    return a == b


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    pid, tier = args.property, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    deadline = args.deadline or (720.0 if tier == "quick" else 3.0 * 3600)
    t0 = time.time()

    suite = importlib.import_module("harness.suite")
    spec = suite.SPEC[pid]
    jobs = [Job(h["module"], h["name"], h.get("params"), h.get("opts")) for h in spec["jobs"](tier)]
    if args.only:
        jobs = [j for j in jobs if args.only in j.key]
    count = [0]

    def on_candidate(c):
        count[0] += 1
        r = replay(pid, c, count[0])
        if args.v or r is None:
            print("candidate: %s: %s%s" % (c["harness"], c["label"], "" if r else " (not reproduced)"))
        return (r, c) if r else None

    for old in glob.glob(os.path.join(ROOT, "evidence", "replays", pid + "-*.json")):
        os.remove(old)
    ex = Explorer(pid, jobs, {"seed": seed, "tier": tier, "unknown_cap": 100 if tier == "quick" else 1000}, deadline, on_candidate)
    try:
        ex.run()
        err = None
    except Exception as e:          # a worker died
        err = "%s: %s" % (type(e).__name__, e)
    cases = [c for j in jobs for c in ex.validate[j.key]]
    agree = diverge = 0
    notes = []
    if ex.violation is None and err is None:
        agree, diverge, notes = validate(cases)

    # vacuity: every reachability witness declared by a harness was reached
    missing = []
    if ex.violation is None and err is None and ex.complete and not ex.inconclusive and not ex.beyond:
        for j in jobs:
            from engine.explore import get_harness
            want = getattr(get_harness(j.module, j.name), "witnesses", ())
            want = want(j.params) if callable(want) else want
            for w in want:
                if not any(w in ex.reached[k.key] for k in jobs if (k.module, k.name) == (j.module, j.name)):
                    missing.append("%s: %s" % (j.name, w))

    tot = {}
    for j in jobs:
        for f, v in ex.stats[j.key].dict().items():
            tot[f] = tot.get(f, 0) + v
    wall = time.time() - t0
    violations = 1 if ex.violation else 0
    exact_div = _exact_divergence(notes, jobs)
    cov = {
        "states": tot.get("forks", 0) + tot.get("paths", 0) + tot.get("infeasible", 0),
        "transitions": tot.get("decisions", 0),
        "traces_validated_against_impl": agree,
        "validation_diverged": diverge,
        "validation_notes": notes[:3],
        "exhaustive": bool(ex.complete and not ex.inconclusive and not ex.unreproduced
                           and not ex.beyond and not violations),
        "states_meaning": "nodes of the symbolic execution trees (feasible forks and ended paths); a path stands for "
                          "every value of its symbols",
        "symbolic_paths": tot.get("paths", 0),
        "infeasible_paths": tot.get("infeasible", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_seconds": round(tot.get("solver_s", 0), 2),
        "assertions": tot.get("goals", 0),
        "assertions_closed_by_normal_form": tot.get("goals_by_normal_form", 0),
        "branches_solver_could_not_prune": tot.get("unknown_branch", 0),
        "functions_encoded": sorted(ex.functions),
        "bounds": spec["bounds"](tier),
        "outside": spec.get("outside", ""),
        "harnesses": {j.key: ex.stats[j.key].dict() for j in jobs},
        "assertion_labels": dict(sorted(ex.labels.items(), key=lambda kv: -kv[1])[:60]),
        "samples": [{"harness": c["harness"], "assignment": c["assignment"], "expect": c["expect"][:6]}
                    for c in cases[::max(1, len(cases) // 6)]][:6],
        "inconclusive": ex.inconclusive[:10],
        "counterexamples_not_reproduced": len(ex.unreproduced),
        "workers": WORKERS,
    }
    for h in cov["harnesses"].values():
        h["solver_s"] = round(h["solver_s"], 2)
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "model_checking", "coverage": cov, "assumptions": spec["assumptions"],
          "wall_s": round(wall, 2), "violations": violations}
    txt = json.dumps(ev, indent=1)
    while len(txt) > 60000 and cov["samples"]:
        cov["samples"].pop()
        cov["validation_notes"] = []
        txt = json.dumps(ev, indent=1)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        f.write(txt + "\n")

    print("%s %s: %d paths, %d assertions (%d by normal form), %d solver queries, %.1f s solver, "
          "%d/%d traces agree, %.1f s" % (pid, tier, tot["paths"], tot["goals"], tot["goals_by_normal_form"],
                                          tot["queries"], tot["solver_s"], agree, agree + diverge, wall))
    if args.v:
        for j in jobs:
            print("  ", j.key, ex.stats[j.key].dict(), sorted(ex.reached[j.key]))
        for n in notes:
            print("  diverged:", json.dumps(n)[:1200])
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if ex.violation:
        (path, seen), c = ex.violation
        print("counterexample: %s" % seen)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    # parts without a verdict: reported, and an error only when they are more than a part
    open_ = list(ex.inconclusive)
    if ex.unreproduced:
        open_.append("%d counterexample(s) did not reproduce on the real code" % len(ex.unreproduced))
    open_ += ["%s has too many branches that no solver decides: left" % k for k in ex.beyond]
    if not ex.complete:
        open_.append("time limit of %g s reached before the bounds were exhausted" % deadline)
    for x in open_[:8]:
        print("INCOMPLETE " + x)
    bad = []
    if err:
        bad.append("engine error: " + err)
    if len(ex.inconclusive) + len(ex.unreproduced) > 0.2 * (tot.get("goals", 0) + tot.get("paths", 0)):
        bad.append("most of the property has no verdict")
    bad += ["no assertion reached in " + j.key for j in jobs
            if ex.stats[j.key].goals == 0 and j.key not in ex.beyond]
    bad += ["vacuous: " + x for x in missing[:8]]
    if exact_div:
        bad.append("the encoding and the real code disagree: %s" % json.dumps(notes[0])[:600])
    for b in bad:
        print("ERROR " + b)
    return 2 if bad else 0


def _exact_divergence(notes, jobs):
    from engine.explore import get_harness
    for n in notes:
        for j in jobs:
            if j.name == n["harness"]:
                if dict(getattr(get_harness(j.module, j.name), "opts", {}), **j.opts).get("theory", "int") != "real":
                    return True
    return False


if __name__ == "__main__":
    sys.exit(main())
