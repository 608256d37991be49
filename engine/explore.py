"""Explores the paths of a harness and discharges its assertions."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

import z3

from . import sym as S
from . import realsolve
from .loader import Loader, REPO

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class _Worker(object):
    loader = None
    solver = None


def _init(mem_gb):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    except (ValueError, OSError):
        pass
    z3.set_param("memory_max_size", 2500)
    sys.setrecursionlimit(3000)
    _Worker.loader = Loader()
    _Worker.solver = z3.Solver()
    signal.signal(signal.SIGALRM, _alarm)


def _alarm(*_):
    raise S.PathTimeout("path time limit")


def get_harness(module, name):
    return getattr(importlib.import_module("harness." + module), name)


class Job(object):
    """one harness with its options, as sent to workers"""

    def __init__(self, module, name, params=None, opts=None):
        self.module, self.name = module, name
        self.params = params or {}
        self.opts = opts or {}

    @property
    def key(self):
        p = ",".join("%s=%s" % kv for kv in sorted(self.params.items()))
        return self.name + ("[%s]" % p if p else "")


def run_path(job, prefix, stats, opts, profile=None):
    """executes one path; -> (ctx, kind, detail)"""
    fn = get_harness(job.module, job.name)
    o = dict(getattr(fn, "opts", {}))
    o.update(job.opts)
    o.update(opts)
    solver = _Worker.solver
    o["solver"] = solver
    ctx = S.Ctx(_Worker.loader.fresh(), prefix, stats, o)
    ctx.params = job.params
    S.CUR = ctx
    if ctx.theory != "real":
        solver.push()
    kind, detail = "done", ""
    signal.setitimer(signal.ITIMER_REAL, o.get("path_s", 20.0 if ctx.theory == "int" else 240.0))
    if profile is not None:
        sys.setprofile(profile)
    try:
        if job.params.get("plain"):
            ctx.plain_kind()
        fn(ctx)
    except S.Infeasible:
        kind = "infeasible"
    except S.Unsupported as e:
        kind, detail = "unsupported", str(e) + " @ " + _where(e)
    except S.OutOfBudget as e:
        kind, detail = "budget", str(e)
    except S.PathTimeout:
        kind, detail = "timeout", "path did not end"
    except RecursionError as e:
        kind, detail = "exception", "RecursionError"
    except MemoryError:
        kind, detail = "budget", "memory"
    except z3.Z3Exception as e:
        kind, detail = "budget", "z3: %s" % e
    except Exception as e:
        kind, detail = "exception", "raised %s: %s (%s)" % (type(e).__name__, e, _where(e))
    finally:
        sys.setprofile(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx, kind, detail


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:][::-1])


def finish_path(job, ctx, kind, detail, out):
    """discharges the assertions of a path; appends to out"""
    stats = ctx.stats
    failures, labels = [], []
    if kind in ("exception", "timeout"):
        # the path itself is the counterexample, if it is feasible
        ctx.goals.append((detail, False))
    if ctx.theory == "real":
        for label, cond in _conjuncts(ctx.goals):
            if label is None:
                if realsolve.proved(ctx, cond):
                    ctx.pc.append(cond)
                continue
            r, cands = realsolve.discharge(ctx, cond, label)
            if r == "sat":
                out["candidates"].append(_cand(job, ctx, label, cands))
                return
            if r == "unknown":
                out["inconclusive"].append("%s: %s: no verdict on '%s' (path %s)" % (
                    job.key, kind, label, _short(ctx.taken)))
        return
    false = [l for l, c in ctx.goals if c is False]
    sol = ctx.solver
    ctx.fp_exact = True
    if false:
        r = ctx._check()
        if r == z3.sat:
            out["candidates"].append(_cand(job, ctx, "; ".join(false[:3]), [ctx.assignment(ctx.model())]))
            return
        if r == z3.unknown:
            out["inconclusive"].append("%s: path condition undecided (%s)" % (job.key, false[0]))
        return
    goals = ctx.goals
    if not goals:
        return
    sol.set("timeout", int(ctx.opts.get("goal_ms", 20000)))
    r = ctx._check(z3.Or([z3.Not(c) for _, c in goals]) if len(goals) > 1 else z3.Not(goals[0][1]))
    if r == z3.sat:
        m = ctx.model()
        bad = [l for l, c in goals if z3.is_false(m.eval(c, model_completion=True))]
        out["candidates"].append(_cand(job, ctx, "; ".join(bad[:3]), [ctx.assignment(m)]))
    elif r == z3.unknown:
        for l, c in goals:
            r = ctx._check(z3.Not(c))
            if r == z3.sat:
                out["candidates"].append(_cand(job, ctx, l, [ctx.assignment(ctx.model())]))
                return
            if r == z3.unknown:
                out["inconclusive"].append("%s: no verdict on '%s'" % (job.key, l))


def _short(t):
    return "".join(str(int(x)) for x in t)[:60]


def _conjuncts(goals):
    for l, c in goals:
        if not isinstance(c, bool) and z3.is_and(c):
            for x in c.children():
                yield l, x
        else:
            yield l, c


def _cand(job, ctx, label, assignments):
    return {"module": job.module, "harness": job.name, "params": job.params, "label": label,
            "theory": ctx.theory, "assignments": assignments}


def work(job, prefixes, slice_s, opts, profile_n, sample_every):
    """explores subtrees for about slice_s seconds -> result dict"""
    t0 = time.time()
    stats = S.Stats()
    out = {"candidates": [], "inconclusive": [], "left": [], "functions": set(), "samples": [],
           "reached": set(), "labels": {}, "validate": []}
    todo = list(prefixes)
    n = 0
    while todo:
        if n and time.time() - t0 > slice_s:
            break
        prefix = todo.pop()
        n += 1
        prof = None
        if profile_n > 0:
            profile_n -= 1
            prof = _profiler(out["functions"])
        ctx, kind, detail = run_path(job, prefix, stats, opts, prof)
        try:
            todo.extend(ctx.alts)
            if kind == "infeasible":
                stats.infeasible += 1
                if ctx.pos < len(prefix):
                    out["inconclusive"].append("%s: re-execution diverged" % job.key)
                continue
            if ctx.pos < len(prefix):
                out["inconclusive"].append("%s: re-execution diverged" % job.key)
                continue
            stats.paths += 1
            out["reached"] |= ctx.reached
            if kind in ("unsupported", "budget"):
                out["inconclusive"].append("%s: %s: %s" % (job.key, kind, detail))
                continue
            finish_path(job, ctx, kind, detail, out)
            for l in (l for l, _ in ctx.goals if l):
                out["labels"][l] = out["labels"].get(l, 0) + 1
            if kind == "done" and (stats.paths - 1) % sample_every == 0 and not out["candidates"]:
                v = _validation_case(job, ctx)
                if v is not None:
                    out["validate"].append(v)
        except z3.Z3Exception as e:
            out["inconclusive"].append("%s: solver error %s" % (job.key, e))
        finally:
            if ctx.theory != "real":
                ctx.solver.pop()
            S.CUR = None
        if out["candidates"]:
            break
    out["left"] = todo
    out["stats"] = stats
    out["job"] = job
    return out


def _profiler(found):
    root = os.path.join(REPO, "solver")

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(root):
                found.add("%s:%s" % (os.path.relpath(c.co_filename, REPO), c.co_qualname))
    return prof


def _validation_case(job, ctx):
    """a concrete member of the path and what the encoding says it computes"""
    if ctx.theory == "real":
        if not ctx.alive:
            return None
        j = ctx.alive[0]
        vals = ctx.sample_assignment(j)
        a = ctx.assignment(vals)

        def val(x):
            if isinstance(x, S.SymReal):
                return ctx.reval(x.r, ctx.samples[j])
            return _obs(x)
    else:
        if ctx.theory == "fp":
            ctx.fp_exact = "guess"
        if ctx._check() != z3.sat:
            return None
        m = ctx.model()
        a = ctx.assignment(m)

        def val(x):
            if isinstance(x, S.SymInt):
                return m.eval(x.e, model_completion=True).as_long()
            if isinstance(x, S.SymFP):
                return S._fp_to_float(m.eval(x.e, model_completion=True))
            return _obs(x)
    obs = [[_deep(v, val) for v in vs] for vs in ctx.trace]
    return {"module": job.module, "harness": job.name, "params": job.params, "assignment": a,
            "expect": obs, "theory": ctx.theory}


def _deep(x, val):
    if isinstance(x, (list, tuple)):
        return [_deep(y, val) for y in x]
    return val(x)


def _obs(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return "?"


class Explorer(object):
    def __init__(self, pid, jobs, opts, deadline_s, on_candidate, slice_s=0.8, validate_n=40):
        self.pid, self.jobs, self.opts = pid, jobs, opts
        self.deadline_s = deadline_s
        self.on_candidate = on_candidate
        self.slice_s = slice_s
        self.validate_n = validate_n
        self.stats = {j.key: S.Stats() for j in jobs}
        self.wall = {j.key: 0.0 for j in jobs}
        self.functions = set()
        self.labels = {}
        self.reached = {j.key: set() for j in jobs}
        self.inconclusive = []
        self.validate = {j.key: [] for j in jobs}
        self.complete = True
        self.violation = None
        self.unreproduced = []
        self.dropped = set()
        self.beyond = []

    def run(self):
        t0 = time.time()
        mem = max(2, 26 // WORKERS) if WORKERS > 4 else 6
        ex = cf.ProcessPoolExecutor(WORKERS, mp_context=mp.get_context("fork"),
                                    initializer=_init, initargs=(mem,))
        pending = {}
        queues = {j.key: [[]] for j in self.jobs}
        byk = {j.key: j for j in self.jobs}
        paths = {j.key: 0 for j in self.jobs}
        order = [j.key for j in self.jobs]
        misses = {}
        try:
            while True:
                # keep the pool busy
                while len(pending) < 2 * WORKERS and any(queues.values()):
                    k = min((k for k in order if queues[k]),
                            key=lambda k: (sum(1 for v in pending.values() if v == k), order.index(k)))
                    q = queues[k]
                    q.sort(key=len)
                    total = len(q)
                    n = 1 if total < 4 * WORKERS else min(40, total // (2 * WORKERS))
                    batch, queues[k] = q[:n], q[n:]
                    p = paths[k]
                    every = 1 if p < 12 else 7 if p < 300 else 97
                    f = ex.submit(work, byk[k], batch, self.slice_s if p else 0.3, self.opts,
                                  6 if p < 60 else 1, every)
                    pending[f] = k
                if not pending:
                    break
                left = self.deadline_s - (time.time() - t0)
                if left <= 0:
                    self.complete = False
                    break
                done, _ = cf.wait(list(pending), timeout=left, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    k = pending.pop(f)
                    out = f.result()
                    self.stats[k].add(out["stats"])
                    paths[k] += out["stats"].paths
                    if k not in self.dropped:
                        queues[k].extend(out["left"])
                        if self.stats[k].unknown_branch > self.opts.get("unknown_cap", 100):
                            # too many branches that no solver can decide: a harness beyond reach on this code
                            self.dropped.add(k)
                            self.beyond.append(k)
                            queues[k] = []
                    self.functions |= out["functions"]
                    self.reached[k] |= out["reached"]
                    for l, c in out["labels"].items():
                        self.labels[l] = self.labels.get(l, 0) + c
                    self.inconclusive.extend(out["inconclusive"])
                    v = self.validate[k]
                    if len(v) < self.validate_n:
                        v.extend(out["validate"][:self.validate_n - len(v)])
                    for c in out["candidates"]:
                        r = self.on_candidate(c)
                        if r is not None:
                            self.violation = r
                            return
                        self.unreproduced.append(c)
                        misses[k] = misses.get(k, 0) + 1
                        if misses[k] > 6:
                            # this harness proposes what the real code does not do: leave it, look at the others
                            self.dropped.add(k)
                            queues[k] = []
                        if len(self.unreproduced) > 40:
                            return
        finally:
            for p in list((getattr(ex, "_processes", None) or {}).values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
            self.wall_s = time.time() - t0
