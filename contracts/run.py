"""Generate and discharge the obligations of one property from /repo's current source.

  python3-vt -m contracts.run C01 --out FILE
"""
import argparse
import importlib
import json
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--out")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    from contracts.base import Check

    t0 = time.time()
    ck = Check(a.pid, verbose=a.verbose)

    def dump(err=None):
        if a.out:
            res = {
                "obligations": [o.row() for o in ck.obs],
                "functions": sorted(ck.functions),
                "libraries": sorted(map(str, ck.libs)),
                "callee_contracts": ck.contracts_used,
                "assumptions": ck.assumptions,
                "error": err,
                "wall_s": time.time() - t0,
            }
            with open(a.out + ".tmp", "w") as f:
                json.dump(res, f)
            import os

            os.replace(a.out + ".tmp", a.out)

    ck.on_add = dump
    err = None
    try:
        importlib.import_module("contracts." + a.pid.lower()).build(ck)
    except Exception as e:
        err = f"{type(e).__name__}: {e}"
        if a.verbose:
            traceback.print_exc()
        ck.add(a.pid + ".generation", a.pid, "undecided", "obligations could not be generated: " + err)
    dump(err)
    st = {s: sum(o.status == s for o in ck.obs) for s in ("proved", "refuted", "undecided")}
    print(a.pid, len(ck.obs), st, f"{time.time() - t0:.1f} s")


if __name__ == "__main__":
    main()
