#!/usr/bin/env python3
"""Systematic small changes to the code: which of them pass the repository's tests and every check?

mutate.py FILE(relative to solver/) CHECKS... [--func substr] [--jobs N] [--log FILE]
For each changed copy that passes the 31 tests, the listed checks run in order until one reports a violation.
Survivors are printed (with the change) and have to be judged by hand: no change of behaviour, or a missed bug."""
import argparse
import ast
import copy
import os
import shutil
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ROOT, sh, tests_pass      # noqa: E402

SKIP = ("test", "__str__", "__repr__")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.FloorDiv: [ast.Mult]}
NAMES = {"tol_lt": ["tol_le"], "tol_le": ["tol_lt"], "tol_gt": ["tol_ge"], "tol_ge": ["tol_gt"], "sin": ["cos"], "cos": ["sin"], "min": ["max"],
         "max": ["min"], "all": ["any"], "any": ["all"], "is_clockwise": ["is_counterclockwise"], "is_counterclockwise": ["is_clockwise"],
         "ingoing_vertices": ["outgoing_vertices", "adjacent_vertices"], "outgoing_vertices": ["ingoing_vertices", "adjacent_vertices"],
         "_forward": ["_reverse"], "_reverse": ["_forward"], "union": ["intersection"], "add_edge": ["set"], "inputs": ["outputs"], "outputs": ["inputs"],
         "x": ["y"], "y": ["x"], "permutations": ["combinations"], "combinations": ["permutations"]}
EXACT = {"tol_lt": ast.Lt, "tol_le": ast.LtE, "tol_gt": ast.Gt, "tol_ge": ast.GtE, "tol_eq": ast.Eq}


def variants(n):
    """changed copies of one node -> (what, node)"""
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [o()]
            yield "compare", m
    if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield "and/or", m
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            yield "drop operand", rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest)
    if isinstance(n, ast.UnaryOp):
        yield "drop unary", n.operand
    if isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            yield "operator", ast.BinOp(n.left, o(), n.right)
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd)):
            yield "left only", n.left
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield "flip", ast.Constant(not n.value)
        elif isinstance(n.value, (int, float)):
            yield "constant+1", ast.Constant(n.value + 1)
            yield "constant*2", ast.Constant(n.value * 2) if n.value else ast.Constant(1e-3)
    if isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("Scalar", "cls"):
            if f.attr in EXACT and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                yield "exact", ast.Compare(n.args[0], [EXACT[f.attr]()], [n.args[1]])
            if f.attr == "tol_zero":
                yield "exact", ast.Compare(n.args[0], [ast.Eq()], [ast.Constant(0)])
        if isinstance(f, ast.Name) and f.id in ("list", "dict", "set", "float", "frozenset", "tuple", "abs", "sorted", "int") and len(n.args) == 1:
            yield "drop " + f.id, n.args[0]
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            m = copy.deepcopy(n)
            m.args = m.args[::-1]
            yield "swap args", m
        if isinstance(f, ast.Attribute) and f.attr == "copy":
            yield "drop copy", f.value
    if isinstance(n, ast.Attribute):
        for o in NAMES.get(n.attr, []):
            yield "name %s->%s" % (n.attr, o), ast.Attribute(n.value, o, n.ctx)
    if isinstance(n, ast.Name):
        for o in NAMES.get(n.id, []):
            yield "name %s->%s" % (n.id, o), ast.Name(o, n.ctx)
    if isinstance(n, ast.IfExp):
        yield "then", n.body
        yield "else", n.orelse
    if isinstance(n, (ast.For, ast.comprehension)):
        for a, b in ((1, None), (None, 1), (None, 2), (None, 3)):
            m = copy.deepcopy(n)
            m.iter = ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [m.iter], []), ast.Slice(a and ast.Constant(a), b and ast.Constant(b)), ast.Load())
            yield "part of loop", m
    if isinstance(n, ast.comprehension) and n.ifs:
        m = copy.deepcopy(n)
        m.ifs = []
        yield "no filter", m


def is_log(s):
    return isinstance(s, ast.Expr) and "logging" in ast.unparse(s)


def statements(s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or is_log(s):
        return
    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.For, ast.While)):
        yield "delete", [ast.Pass()]
    if isinstance(s, ast.If):
        yield "delete if", [ast.Pass()] if not s.orelse else s.orelse
        yield "if True", s.body
    if isinstance(s, ast.Return) and s.value is not None:
        yield "return None", [ast.Return(None)]


def mutants(src, want):
    """-> (description, source)"""
    tree = ast.parse(src)

    def functions(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                yield from functions(c, prefix + c.name + ".")
            elif isinstance(c, ast.FunctionDef):
                if not any(c.name.startswith(k) for k in SKIP):
                    yield prefix + c.name, c

    for q, fn in list(functions(tree, "")):
        if want and want not in q:
            continue
        for parent in list(ast.walk(fn)):
            for field, old in list(ast.iter_fields(parent)):
                if field in ("decorator_list", "args") and parent is fn or field == "annotation":
                    continue
                items = old if isinstance(old, list) else [old]
                for i, n in enumerate(items):
                    if not isinstance(n, ast.AST):
                        continue
                    if isinstance(n, ast.stmt) and isinstance(old, list):
                        for what, new in statements(n):
                            keep = list(old)
                            old[i:i + 1] = new
                            yield "%s:%d %s: %s" % (q, n.lineno, what, ast.unparse(n).split("\n")[0][:90]), ast.unparse(ast.fix_missing_locations(tree))
                            old[:] = keep
                        if not isinstance(n, ast.For):
                            continue
                    if isinstance(n, ast.expr) and isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                        continue
                    if is_log(parent) or "logging" in (ast.unparse(n) if isinstance(n, ast.expr) else ""):
                        continue
                    for what, new in variants(n):
                        if isinstance(old, list):
                            old[i] = new
                        else:
                            setattr(parent, field, new)
                        try:
                            text = ast.unparse(ast.fix_missing_locations(tree))
                        except Exception:
                            text = None
                        if text:
                            yield "%s:%d %s: %s -> %s" % (q, getattr(n, "lineno", getattr(getattr(n, "iter", None), "lineno", 0)), what,
                                                         ast.unparse(n)[:80], ast.unparse(new)[:80]), text
                        if isinstance(old, list):
                            old[i] = n
                        else:
                            setattr(parent, field, n)


WALL = {}


def auto(file, q):
    import glob
    import json
    if not WALL:
        for f in glob.glob(ROOT + "/evidence/C*.json"):
            d = json.load(open(f))
            WALL[d["property"]] = (d["wall_s"], set(d["coverage"]["functions_encoded"]))
    k = "solver/%s:%s" % (file, q)
    return sorted([p for p, (w, fs) in WALL.items() if k in fs or w < 0], key=lambda p: WALL[p][0])


def one(job):
    desc, text, file, checks = job
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        with open(repo + "/solver/" + file, "w") as f:
            f.write(text)
        try:
            rc, out = sh(["timeout", "30", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", repo], cwd=repo, env={"PYTHONPATH": repo})
        except Exception as e:
            return desc, "tests", str(e)
        if not (rc == 0 and "31 passed" in out):
            return desc, "tests", ""
        v = tmp + "/verif"
        os.mkdir(v)
        for x in ("engine", "harness", "vt.sh", "known_findings.txt", "properties.jsonl"):
            (shutil.copytree if os.path.isdir(ROOT + "/" + x) else shutil.copy)(ROOT + "/" + x, v + "/" + x)
        notes = []
        for pid in checks:
            rc, out = sh(["timeout", "600", "./vt.sh", pid, "--tier", "quick"], cwd=v, env={"VERIF_REPO": repo, "VERIF_WORKERS": "2"})
            if rc == 1 and "VIOLATION property=" in out:
                return desc, pid, ""
            extra = [l for l in out.splitlines() if l.startswith(("INCOMPLETE", "ERROR"))]
            if rc or extra:
                notes.append("%s rc=%d %s" % (pid, rc, "; ".join(extra)[:150]))
        return desc, "SURVIVED", " | ".join(notes)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks", nargs="*", help="none: every check whose evidence lists the changed function")
    ap.add_argument("--func", default="")
    ap.add_argument("--kind", default="", help="only changes whose description contains this")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    src = open("/repo/solver/" + a.file).read()
    seen, jobs = {ast.unparse(ast.parse(src))}, []
    for d, t in mutants(src, a.func):
        if t not in seen and a.kind in d:
            seen.add(t)
            jobs.append((d, t, a.file, [p for p in auto(a.file, d.split(":")[0]) if not a.checks or p in a.checks]))
    print(len(jobs), "changes", flush=True)
    if a.count:
        return
    tally = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for d, r, note in ex.map(one, jobs):
            tally[r] = tally.get(r, 0) + 1
            if r != "tests":
                print(r, "|", d, "|", note, flush=True)
    print(tally, flush=True)


if __name__ == "__main__":
    main()
