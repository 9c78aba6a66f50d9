#!/usr/bin/env python3
"""Decide one property:  python3 check.py C01 [--tier quick|thorough]

1. The verifier (pyvc, contracts/) generates the obligations of the property from the current
   source in /repo and discharges them.
2. CPython runs the real code on generated cases against independent oracles (concrete/): this is
   the bounded stand-in for everything not proved, and the source of replayable failing inputs.

exit 0 held, exit 1 "VIOLATION property=<id> replay=<path>".
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
VENV = "/opt/venv/bin/python"
VT = "python3-vt"
SHARDS = 4
LIMIT = {"quick": 780, "thorough": 3000}
BUDGET = {"quick": 75, "thorough": 500}
FINDINGS = os.path.join(HERE, "known-findings.txt")


def env_real():
    e = dict(os.environ)
    e.update(
        PATH="/opt/venv/bin:" + e.get("PATH", ""),
        PYTHONPATH=f"{REPO}:{HERE}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OMPI_ALLOW_RUN_AS_ROOT="1",
        OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_ess_singleton_isolated="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
    )
    return e


def env_vt():
    e = dict(os.environ)
    e.update(PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYVC_REPO=REPO)
    return e


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def findings(pid):
    """Recorded, unrepaired defects of the property: [(replay file, text)]."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith(f"known: property={pid} "):
                rest = line.split(None, 2)[2].strip()
                case, text = rest.split(None, 1)
                out.append((os.path.join(HERE, case.split("=", 1)[1]), text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.pid.upper(), a.tier if a.tier in LIMIT else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(HERE, "out")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    has_proof = os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))
    tag = os.path.join(out, pid)
    for k in range(SHARDS):
        if os.path.exists(f"{tag}.c{k}.json"):
            os.remove(f"{tag}.c{k}.json")
    if os.path.exists(tag + ".proof.json"):
        os.remove(tag + ".proof.json")
    proof = None
    if has_proof:
        proof = subprocess.Popen(
            [VT, "-m", "contracts.run", pid, "--out", tag + ".proof.json"], cwd=HERE, env=env_vt(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            start_new_session=True,
        )

    def start(k):
        return subprocess.Popen(
            [VENV, "-m", "concrete.run", pid, "--seed", str(seed), "--shard", f"{k}/{SHARDS}", "--tier", tier,
             "--budget", str(BUDGET[tier]), "--out", f"{tag}.c{k}.json"],
            cwd=HERE, env=env_real(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )

    def finish(k, p, until):
        """(result or None, what went wrong)"""
        try:
            log = p.communicate(timeout=max(5, until - time.time()))[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            log = "time limit"
            p.communicate()
        res = load(f"{tag}.c{k}.json")
        if res is None:
            return None, log[-2000:]
        return (None, res["error"]) if res.get("error") else (res, "")

    def repeats(res):
        """the failing case fails again on its own (otherwise the whole shard is run again)"""
        path = f"{tag}.again.json"
        with open(path, "w") as f:
            json.dump(res["failures"][0], f)
        r = subprocess.run([VENV, "-m", "concrete.run", pid, "--replay", path], cwd=HERE, env=env_real(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return r.returncode == 1

    shards = [start(k) for k in range(SHARDS)]
    until = time.time() + BUDGET[tier] + 120
    failures, runs, broken, transient = [], [], [], []
    for k, p in enumerate(shards):
        res, log = finish(k, p, until)
        if broken or failures:
            pass
        elif res is None or (res["failures"] and not repeats(res)):
            # a start-up failure of the MPI library or a stall of a loaded machine does not come back; a defect does
            what = log or res["failures"][0]["what"]
            if os.path.exists(f"{tag}.c{k}.json"):
                os.remove(f"{tag}.c{k}.json")
            res, log = finish(k, start(k), time.time() + BUDGET[tier] + 120)
            if res is not None and not res["failures"]:
                transient.append(what[-500:])
        if res is None:
            broken.append(log)
        else:
            runs.append(res)
            failures += res["failures"]
    pres = None
    if proof:
        try:
            # a failing input settles the verdict; the obligations are then decided as far as a shorter time allows
            limit = min(300, LIMIT[tier]) if failures else LIMIT[tier]
            plog = proof.communicate(timeout=max(60, limit - (time.time() - t0)))[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(proof.pid, signal.SIGKILL)
            proof.communicate()
            plog = "time limit of the verifier reached"
        pres = load(tag + ".proof.json")
        if pres is None:
            pres = {"obligations": [{"name": pid + ".generation", "function": "", "status": "undecided", "detail": plog[-1500:], "seconds": 0, "backend": ""}],
                    "functions": [], "libraries": [], "callee_contracts": {}, "assumptions": [], "error": plog[-1500:], "wall_s": 0}
    for path, text in findings(pid):
        r = subprocess.run([VENV, "-m", "concrete.run", pid, "--replay", path], cwd=HERE, env=env_real(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            print(f"KNOWN-FINDING: property={pid} {text}")
    # ---- verdict
    violation = None
    replay = os.path.join(out, f"replay_{pid}.json")
    if os.path.exists(replay):
        os.remove(replay)
    bad = [o for o in pres["obligations"] if o["status"] == "refuted"] if pres else []
    undecided = [o for o in pres["obligations"] if o["status"] == "undecided"] if pres else []
    how = f"cd /verif && python -m concrete.run {pid} --replay <this file>   (environment: check.py env_real)"
    if failures:
        violation = {"property": pid, "case": failures[0]["case"], "what": failures[0]["what"], "failed_obligations": bad[:5], "replay_with": how}
        tail = ""
    elif bad:
        violation = {"property": pid, "failed_obligations": bad, "note": "no failing input found", "verifier_output": bad}
        tail = " no-failing-input-found"
    elif broken:
        # the code under test cannot be run at all
        violation = {"property": pid, "what": "the code under test cannot be imported or does not return", "output": broken[:2]}
        tail = ""
    obs = pres["obligations"] if pres else []
    done = [o for o in obs if o["status"] == "proved"]
    evals = sum(r["evaluations"] for r in runs)
    nt = sum(r["distinct_nontrivial"] for r in runs)
    samples = [s for r in runs for s in r["samples"]][:2]
    concrete = {"evaluations": evals, "distinct_nontrivial": nt, "rule": runs[0]["rule"] if runs else "", "samples": samples,
                "wall_s": round(sum(r["wall_s"] for r in runs), 2)}
    if transient:
        concrete["not_repeatable"] = transient      # failed once, held when the same shard was run again
    if has_proof:
        backends = {}
        for o in done:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        coverage = {
            "obligations": len(obs),
            "discharged": len(done),
            "checker_cmd": f"python3-vt -m contracts.run {pid} --verbose",
            "trusted_base": trusted(pres),
            "functions_under_contract": pres["functions"],
            "callee_contracts_used": pres["callee_contracts"],
            "discharged_by_backend": backends,
            "verifier_seconds": round(pres["wall_s"], 1),
            "obligation_list": [{k: o[k] for k in ("name", "function", "status", "backend", "seconds")} for o in obs],
            "undischarged": [{"name": o["name"], "status": o["status"], "detail": o["detail"][:300]} for o in obs if o["status"] != "proved"],
            "bounded_stand_in": dict(concrete, note="bounded: generated cases executed by CPython on the real code, never counted as discharged"),
        }
        level = "proof"
    else:
        coverage = dict(concrete, bounded=True)
        level = "exploration"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": (pres["assumptions"] if pres else []) + STANDING,
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{pid} [{tier}] obligations {len(done)}/{len(obs)} discharged, {len(bad)} refuted, {len(undecided)} undecided; "
          f"bounded: {evals} cases, {nt} distinct non-trivial; {time.time() - t0:.1f} s")
    for o in undecided[:10]:
        print(f"  undecided {o['name']}: {o['detail'][:200]}")
    if violation:
        with open(replay, "w") as f:
            json.dump(violation, f, indent=1, default=str)
        for o in bad[:10]:
            print(f"  failed obligation {o['name']} ({o['function']}): {o['detail'][:300]}")
        if failures:
            print("  failing input:", failures[0]["what"][:600])
        for b in broken[:1]:
            print("  ", b[-600:])
        print(f"VIOLATION property={pid} replay={replay}{tail}")
        sys.exit(1)
    if (obs and not done and not evals) or (not obs and not evals):
        print("no obligation discharged and no case run")
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        json.dump({"property": pid, "what": "nothing could be checked"}, open(replay, "w"))
        sys.exit(1)
    sys.exit(0)


STANDING = [
    "IEEE floating point numbers are treated as exact reals/complex numbers in all obligations",
    "pyvc's model of the Python core language (evaluation order, containers, exceptions) agrees with CPython",
    "machine memory and recursion are unlimited; dictionaries iterate in insertion order",
]


def trusted(pres):
    return ["pyvc engine (/verif/pyvc): symbolic executor, loop summaries and exact ring normaliser", "z3"] + [
        "library contract: " + x for x in pres["libraries"]
    ]


if __name__ == "__main__":
    main()
