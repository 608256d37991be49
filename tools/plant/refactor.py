#!/usr/bin/env python3
"""Runs the checks against behaviour-keeping rewrites: refactor.py SPEC [-j N] [ids...]; every check must stay quiet.

A spec has REFACTORS: list of dicts id, file, funcs {qualified name: new source}, head (text put after the imports), checks."""
import argparse
import ast
import importlib.util
import os
import shutil
import sys
import tempfile
import textwrap
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import ROOT, sh, tests_pass      # noqa: E402


def find(tree, q):
    node = tree
    for part in q.split("."):
        node = [n for n in node.body if getattr(n, "name", None) == part][-1]
    return node


def rewrite(path, funcs, head):
    src = open(path).read()
    for q, new in funcs.items():
        tree = ast.parse(src)
        n = find(tree, q)
        first = min([n.lineno] + [d.lineno for d in n.decorator_list])
        lines = src.split("\n")
        ind = " " * n.col_offset
        body = textwrap.indent(textwrap.dedent(new).strip("\n"), ind).split("\n")
        lines[first - 1:n.end_lineno] = body
        src = "\n".join(lines)
    if head:
        tree = ast.parse(src)
        last = max([n.end_lineno for n in tree.body if isinstance(n, (ast.Import, ast.ImportFrom))] or [tree.body[0].end_lineno])
        lines = src.split("\n")
        lines[last:last] = head.strip("\n").split("\n")
        src = "\n".join(lines)
    open(path, "w").write(src)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", default="")
    a = ap.parse_args()
    sp = importlib.util.spec_from_file_location("spec", a.spec)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for r in m.REFACTORS:
        if a.ids and r["id"] not in a.ids:
            continue
        tmp = tempfile.mkdtemp(prefix="refac_")
        try:
            repo = tmp + "/repo"
            shutil.copytree("/repo", repo)
            for part in r["parts"]:
                rewrite(repo + "/solver/" + part["file"], part.get("funcs", {}), part.get("head", ""))
            ok, out = tests_pass(repo)
            if not ok:
                print("%-20s TESTS FAIL %s" % (r["id"], out[-1500:]), flush=True)
                continue
            v = tmp + "/verif"
            os.mkdir(v)
            for x in ("engine", "harness", "vt.sh", "known_findings.txt", "properties.jsonl"):
                (shutil.copytree if os.path.isdir(ROOT + "/" + x) else shutil.copy)(ROOT + "/" + x, v + "/" + x)
            for pid in (a.checks or r["checks"]).split():
                t0 = time.time()
                rc, out = sh(["./vt.sh", pid, "--tier", "quick"], cwd=v, env={"VERIF_REPO": repo})
                bad = [l for l in out.splitlines() if not l.startswith(pid + " quick")]
                print("%-20s %s rc=%d %.0fs %s" % (r["id"], pid, rc, time.time() - t0, "quiet" if rc == 0 and not bad else
                                                   "NOT QUIET " + "\n".join(bad)[-700:]), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
