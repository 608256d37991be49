"""Discharging assertions over the reals."""
import ctypes
import math
import os
import pickle
import select
import signal
import time
from fractions import Fraction

import z3

WINS = {}
SLOW = float(os.environ.get("VERIF_SLOW", "0"))

def _syms(ctx, f, cache):
    k = f.get_id()
    r = cache.get(k)
    if r is None:
        from .sym import _real_names
        r = cache[k] = frozenset(_real_names(f, set()))
    return r


_libc = ctypes.CDLL(None)


def ask(ctx, fs, ms, tactic=None):
    """z3's verdict on a conjunction -> (result, input values or None). The query runs in a
    forked child that is ended at the time limit: nonlinear arithmetic does not always
    listen to z3's own timeout."""
    fs = list(fs)
    fs = fs + ctx.definitions(fs)
    t = time.time()
    r, vals = z3.unknown, None
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            _libc.prctl(1, signal.SIGKILL)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.write(wr, _child(ctx, fs, tactic))
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(wr)
    data = b""
    try:
        end = t + ms / 1000.0
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([rd], [], [], left)[0]:
                break
            chunk = os.read(rd, 1 << 16)
            if not chunk:
                if data:
                    k, vals = pickle.loads(data)
                    r = {"sat": z3.sat, "unsat": z3.unsat}.get(k, z3.unknown)
                break
            data += chunk
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(rd)
    ctx.stats.queries += 1
    ctx.stats.solver_s += time.time() - t
    return r, vals


def _child(ctx, fs, tactic):
    if tactic is None:
        s = z3.SolverFor("QF_NRA")
    elif tactic == "smt":
        s = z3.SimpleSolver()
    else:
        s = z3.Then(z3.Tactic("simplify"), z3.Tactic("propagate-values"), z3.Tactic("purify-arith"),
                    z3.Tactic("qfnra-nlsat")).solver()
    s.add(*fs)
    r = str(s.check())
    return pickle.dumps((r, ctx.real_assignment(s.model()) if r == "sat" else None))


def near(ctx, fs, goal):
    """the path-condition conjuncts that share a symbol with the goal"""
    cache = {}
    gs = _syms(ctx, goal, cache)
    return [f for f in fs if _syms(ctx, f, cache) & gs]


def discharge(ctx, cond, label=""):
    t = time.time()
    r = _discharge(ctx, cond)
    if SLOW and time.time() - t > SLOW:
        print("  slow %.1f s %s: %s" % (time.time() - t, label, r[0]), flush=True)
    return r


def _discharge(ctx, cond):
    """pc and not cond -> ('unsat', []) | ('sat', assignments) | ('unknown', [])"""
    neg = [] if cond is False else [z3.simplify(z3.Not(cond))]
    pc = ctx.pc
    c = numeric(ctx, neg)
    if c:
        return "sat", c
    base = int(ctx.opts.get("goal_ms", 4000))
    sub = near(ctx, pc, neg[0]) if neg else pc
    parts = {"goal": [], "few": sub[:6], "near": sub, "all": pc}
    tries = [(p, t) for p in ("goal", "few", "near", "all") for t in (None, "nlsat", "smt")]
    if not neg:
        tries = [("all", t) for t in (None, "nlsat", "smt")]
    elif len(sub) == len(pc):
        tries = [x for x in tries if x[0] != "near"]
    if neg and len(sub) <= 6:
        tries = [x for x in tries if x[0] != "few"]
    # what worked before goes first; unsat of a part is unsat of the whole
    for rnd, ms in enumerate((base // 16, base // 2, 3 * base, 15 * base)):
        for k in sorted(tries, key=lambda x: -WINS.get(x, 0)):
            if k[0] == "goal" and rnd > 1:
                continue
            r, m = ask(ctx, neg + list(parts[k[0]]), ms, k[1])
            if r == z3.unsat:
                WINS[k] = WINS.get(k, 0) + 1
                return "unsat", []
            if r == z3.sat and k[0] == "all":
                return "sat", clear(ctx, cond, pc) + models(ctx, neg + pc, m)
            if r == z3.sat:
                # no use in asking again about this part
                tries = [x for x in tries if x[0] != k[0]]
        if rnd == 1:
            c = guided(ctx, neg + pc)
            if c:
                return "sat", c
    return "unknown", []


def proved(ctx, cond):
    neg = [z3.simplify(z3.Not(cond))]
    for part in ([], near(ctx, ctx.pc, neg[0])):
        for tac in ("nlsat", None):
            r, _ = ask(ctx, neg + list(part), 1500, tac)
            if r != z3.unknown:
                break
        if r == z3.unsat:
            return True
    return False


def clear(ctx, cond, pc):
    """counterexamples that miss the tolerance by far"""
    if isinstance(cond, bool):
        return []
    for f in ctx.far_from(cond):
        for tac in ("nlsat", None):
            r, m = ask(ctx, pc + [f], 2000, tac)
            if r == z3.sat:
                return models(ctx, pc + [f], m)
            if r == z3.unsat:
                break
    return []


def models(ctx, fs, m):
    """the model, and neighbours of it with short decimals (easier to replay)"""
    out = [ctx.assignment(m)]
    out.extend(guided(ctx, fs, n=6, start=m))
    return out


def guided(ctx, fs, n=14, start=None):
    """counterexamples with all inputs but some fixed to short decimals (directions to
    rational ones)"""
    ins = [i for name, (k, i) in ctx.inputs.items() if k in ("real", "angle")]
    out = []
    if not ins:
        return out
    pts = []
    if start is not None:
        for d in (0, 1, 2):
            pts.append({i: round(v, d) for i, v in start.items()})
    for j in list(ctx.alive)[:n] + list(range(0, ctx.n_samples))[:n]:
        pts.append({i: round(ctx.samples[j][i], 2) for i in ins})
    for q, p in enumerate(pts):
        for free in _free_sets(ins, q):
            fix = [g for i in ins if i not in free for g in _fix(ctx, i, p[i])]
            r, m = ask(ctx, fs + fix, 300)
            if r == z3.sat:
                out.append(ctx.assignment(m))
                if len(out) >= 4:
                    return out
                break
    return out


def _fix(ctx, i, v):
    cs = ctx.trig_of(i)
    if cs is None:
        return [ctx.zvar(i) == z3.RealVal(str(Fraction(repr(float(v)))))]
    h = v / 2.0
    if abs(math.cos(h)) < 1e-3:
        c, s = Fraction(-1), Fraction(0)
    else:
        t = Fraction(repr(round(math.tan(h), 2)))
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    return [ctx.zvar(cs[0]) == z3.RealVal(str(c)), ctx.zvar(cs[1]) == z3.RealVal(str(s))]


def _free_sets(ins, q):
    if len(ins) <= 1:
        return [set(ins)]
    a = ins[q % len(ins)]
    b = ins[(q * 3 + 1) % len(ins)]
    return [set(), {a}, {a, b}]


def numeric(ctx, neg):
    """sample points that follow the path and seem to break the goal (proposals only:
    the real code decides)"""
    out = []
    for j in ctx.alive:
        if all(ctx.zholds(f, j, 3e-9) is True for f in neg):
            out.append(ctx.assignment(ctx.sample_assignment(j)))
            if len(out) >= 5:
                break
    return out
