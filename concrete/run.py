"""Concrete oracles: CPython runs the real code of the tree under test on generated cases.

  python -m concrete.run PID --seed S --tier quick --out FILE [--budget SECONDS]
  python -m concrete.run PID --replay FILE      exit 1 if the recorded case still fails
"""
import argparse
import importlib
import json
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")


class Hang(Exception):
    pass


def one(mod, case, limit=60):
    """None, or the description of the failure."""

    def alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.run(case)
    except Hang:
        return f"no result within {limit} s"
    except RecursionError as e:
        return f"RecursionError: {e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb][-1]
        return f"{type(e).__name__}: {e} ({where})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--cases", help="file with extra cases (JSON list) to run first")
    a = ap.parse_args()
    try:
        mod = importlib.import_module(f"concrete.{a.pid.lower()}")
    except Exception as e:
        # the tree under test cannot even be imported
        msg = f"{type(e).__name__}: {e}"
        if a.out:
            json.dump({"error": msg, "failures": [], "evaluations": 0}, open(a.out, "w"))
        print(msg)
        traceback.print_exc()
        sys.exit(3)
    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = one(mod, case)
        print("fails: " + r if r else "holds")
        sys.exit(1 if r else 0)
    budget = a.budget or {"quick": 100, "thorough": 500}[a.tier]
    t0 = time.time()
    n = nt = 0
    seen, samples, failures = set(), [], []
    extra = json.load(open(a.cases)) if a.cases else []
    me, of = map(int, a.shard.split("/"))
    count = -(-mod.COUNT[a.tier] // of)
    k = 0
    while k < count + len(extra) and time.time() - t0 < budget and not failures:
        if k < len(extra):
            case = extra[k]
        else:
            case = mod.gen(random.Random(f"{a.pid}:{a.seed}:{me + of * (k - len(extra))}"))
        k += 1
        key = json.dumps(case, sort_keys=True)
        n += 1
        if key not in seen:
            seen.add(key)
            if mod.nontrivial(case):
                nt += 1
                if len(samples) < 2 and len(key) < 1500:
                    samples.append(case)
        r = one(mod, case)
        if r:
            failures.append({"case": case, "what": r})
    res = {
        "evaluations": n,
        "distinct_nontrivial": nt,
        "rule": mod.RULE,
        "samples": samples or [json.loads(next(iter(seen)))],
        "failures": failures,
        "wall_s": time.time() - t0,
        "planned": count + len(extra),
    }
    if a.out:
        json.dump(res, open(a.out, "w"))
    print(f"{a.pid}: {n} cases, {nt} distinct non-trivial, {len(failures)} failures, {res['wall_s']:.1f} s")
    for f in failures:
        print("  ", f["what"], json.dumps(f["case"])[:600])
    sys.exit(1 if failures else 0)


if __name__ == "__main__":
    main()
