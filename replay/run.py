"""run.py PROPERTY --seed N --budget SECONDS --tier quick|thorough

Bounded search for an input on which the real code breaks the executable form of the
property's contracts.  The last line of the output is a JSON summary."""
import argparse
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def one(mod, case):
    """None, or what the case shows to be wrong"""
    from lib import Fail
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        mod.check(case)
        return None
    except Fail as e:
        return str(e)
    except Timeout:
        return "did not terminate within 20 s"
    except AssertionError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
        return "unexpected %s: %s (in %s)" % (type(e).__name__, str(e)[:300], where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--case", help="replay one case from a file")
    a = ap.parse_args()
    random.seed(a.seed)
    signal.signal(signal.SIGALRM, on_alarm)
    sys.setrecursionlimit(3000)
    out = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "known": [],
           "error": None, "rule": ""}
    try:
        mod = importlib.import_module(a.property.lower())
        if a.case:
            with open(a.case) as f:
                case = json.load(f)
            case = case.get("case", case)
            print(one(mod, case))
            return
        out["rule"] = mod.__doc__.strip()
        for k in getattr(mod, "KNOWN", []):
            what = one(mod, k["case"])
            if what:
                out["known"].append("%s: %s" % (k["id"], k["what"]))
        t0 = time.time()
        rng = random.Random(a.seed)
        seen = set()
        last_new = None

        def stream():
            for c in mod.fixed():
                yield c
            lim = mod.LIMIT if a.tier == "quick" else mod.LIMIT * 20
            for _ in range(lim):
                yield mod.rand(rng)
        for case in stream():
            now = time.time()
            if now - t0 > a.budget:
                break
            if out["failures"] and now - last_new > 3:
                break
            key = json.dumps(case, sort_keys=True)
            out["evaluations"] += 1
            if key in seen:
                continue
            seen.add(key)
            if len(out["samples"]) < 3 and out["evaluations"] % 37 == 1:
                out["samples"].append(case)
            what = one(mod, case)
            if what:
                f = {"property": a.property, "what": what, "case": case,
                     "how": "python replay/run.py %s --case <this file>" % a.property}
                out["failures"].append(f)
                last_new = last_new or now
                if len(out["failures"]) > 20:
                    break
        out["failures"].sort(key=lambda f: len(json.dumps(f["case"])))
        out["failures"] = out["failures"][:3]
        out["distinct"] = len(seen)
    except Exception:
        out["error"] = "replay harness error: " + traceback.format_exc()[-1500:]
    print(json.dumps(out))


main()
