"""python replay.py FILE...   runs counterexamples against the real code.

Exit 1 if the first one reproduces (prints what failed), 0 if none does.
--batch FILE: JSON list of cases on one line each -> JSON results on stdout."""
import importlib
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from engine import conc                                     # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


def run_case(case, limit=20.0):
    """-> dict(status, failures, observed)"""
    mod = importlib.import_module("harness." + case["module"])
    fn = getattr(mod, case["harness"])
    opts = dict(getattr(fn, "opts", {}))
    opts.update(case.get("opts", {}))
    signal.signal(signal.SIGALRM, _alarm)
    ctx = conc.Conc(conc.RealModules(REPO), case["assignment"], opts)
    ctx.params = case.get("params", {})
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        if ctx.params.get("plain"):
            ctx.plain_kind()
        fn(ctx)
        st = "violated" if ctx.failures else "ok"
        fl = ctx.failures
    except conc.Abandon as e:
        # what failed before the assignment stopped deciding things still counts
        st, fl = ("violated", ctx.failures) if ctx.failures else ("abandoned", [str(e)])
    except Timeout:
        st, fl = "violated", ["does not terminate within %g s" % limit]
    except RecursionError as e:
        st, fl = "violated", ["RecursionError"]
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:][::-1])
        st, fl = "violated", ["raised %s: %s (%s)" % (type(e).__name__, e, where)]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"status": st, "failures": fl, "observed": _plain(ctx.observed)}


def _plain(v):
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if v is None or isinstance(v, (bool, int, str)):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return "?"


def main(argv):
    if argv and argv[0] == "--batch":
        with open(argv[1]) as f:
            cases = json.load(f)
        print(json.dumps([run_case(c) for c in cases]))
        return 0
    for path in argv:
        with open(path) as f:
            case = json.load(f)
        r = run_case(case)
        print("%s: %s %s" % (case["harness"], r["status"], "; ".join(r["failures"])))
        if r["status"] == "violated":
            return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
