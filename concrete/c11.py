import copy
import json
import os
import subprocess
import sys
import time

from impurityModel.ed import finite

from . import ref, util

RULE = "random operators, starting sets and restrictions, store partly filled; oracle: breadth-first closure; non-trivial: the space grows at least twice"
COUNT = {"quick": 2400, "thorough": 19200}


def chain(rng, n):
    """Hopping along some bonds, a few pair processes, on-site terms."""
    sites = list(range(n))
    rng.shuffle(sites)
    out = []
    for a, b in zip(sites, sites[1 : rng.randint(2, max(2, n))]):
        out.append([[[a, "c"], [b, "a"]], util.amp(rng, True)])
        if rng.random() < 0.5:
            out.append([[[b, "c"], [a, "a"]], util.amp(rng, True)])
    for a in rng.sample(sites, min(n, 2)):
        out.append([[[a, "c"], [a, "a"]], util.amp(rng, True)])
    if n > 3 and rng.random() < 0.5:
        a, b, c, d = rng.sample(sites, 4)
        out.append([[[a, "c"], [b, "c"], [c, "a"], [d, "a"]], util.amp(rng, True)])
    rng.shuffle(out)
    return out


def gen(rng):
    n = util.size(rng, 10)
    if rng.random() < 0.7:
        n = max(n, rng.choice([4, 6, 8]))
    basis = []
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        o = util.occ_list(rng, n)
        if o not in basis:
            basis.append(o)
    case = {
        "n": n,
        "op": chain(rng, n) if rng.random() < 0.6 else util.op_case(rng, n, rng.choice([0, 2, 4, 6, 9]), exact=True, conserving=rng.random() < 0.5),
        "basis": basis,
        "restr": rng.choice([None, util.restrictions_case(rng, n)]),
        "prefill": rng.random(),
        "history": rng.random() < 0.5,
    }
    if rng.random() < 0.004 and closure(util.op_of(case["op"]), [frozenset(o) for o in basis], util.restrictions_of(case["restr"]))[1] > 1:
        case["hash"] = True
    return case


def closure(op, start, r):
    seen, layer, layers = list(start), list(start), 0
    known = set(seen)
    while layer:
        new = set()
        for s in layer:
            new |= {o for o, v in ref.op_action(op, s, r).items() if abs(v) ** 2 >= 1e-12}
        new -= known
        layer = sorted(new, key=sorted)
        known |= new
        seen += layer
        layers += bool(layer)
        if len(seen) > 1200:
            return None, layers
    return seen, layers


def nontrivial(case):
    c, k = closure(util.op_of(case["op"]), [frozenset(o) for o in case["basis"]], util.restrictions_of(case["restr"]))
    return c is not None and k > 1


def run(case):
    n = case["n"]
    op, r = util.op_of(case["op"]), util.restrictions_of(case["restr"])
    start = [frozenset(o) for o in case["basis"]]
    want, _ = closure(op, start, r)
    if want is None:
        return None
    E = lambda o: ref.enc_bytes(o, n)
    action = lambda o: {E(x): v for x, v in ref.op_action(op, o, r).items() if abs(v) ** 2 >= 1e-12}
    store = {}
    for k, o in enumerate(want):
        if ((k * 7919 + 13) % 101) / 101.0 < case["prefill"] * 0.6:
            store[E(o)] = action(o)
    marks = {k: id(v) for k, v in store.items()}
    before = copy.deepcopy(store)
    for again in range(2 if case["history"] else 1):
        basis0 = tuple(E(o) for o in start)
        got = util.quiet(finite.expand_basis, n, store, op, {b: 1 for b in basis0}.keys() if again else basis0, r)
        if type(got) is not tuple:
            return f"returns {type(got).__name__}"
        if got[: len(basis0)] != basis0:
            return "does not start with the starting set"
        if len(set(got)) != len(got):
            return "repetition in the basis"
        if set(got) != {E(o) for o in want}:
            x = sorted(set(got) ^ {E(o) for o in want})[0]
            return f"{sorted(ref.dec_bytes(x, n))} {'unreachable but present' if x in got else 'reachable but missing'}"
        for b in got:
            if b not in store:
                return f"action of {sorted(ref.dec_bytes(b, n))} not stored"
            d = util.diff(util.decode(store[b], n), util.decode(action(ref.dec_bytes(b, n)), n))
            if d:
                return f"stored action of {sorted(ref.dec_bytes(b, n))}: {d}"
        for k, v in before.items():
            if store.get(k) != v:
                return "previously stored action changed"
        if set(store) - set(before) - set(got):
            return "stored action of a state outside the basis"
        if again and got != first:
            return "order depends on what was stored before"
        first = got
    if case.get("hash"):
        outs = {hashed(case, seed) for seed in ("1", "2", "77")}
        if len(outs) > 1:
            return "order of the basis depends on the hash seed"
    return None


PROG = """
import sys, json
from concrete import c11, util, ref
from impurityModel.ed import finite
case = json.loads(sys.argv[1])
n = case["n"]
basis = tuple(ref.enc_bytes(frozenset(o), n) for o in case["basis"])
got = util.quiet(finite.expand_basis, n, {}, util.op_of(case["op"]), basis, util.restrictions_of(case["restr"]))
print("BASIS", [b.hex() for b in got])
"""


def hashed(case, seed):
    env = dict(os.environ, PYTHONHASHSEED=seed)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env["PYTHONPATH"] = root + os.pathsep + env.get("PYTHONPATH", "")
    for _ in range(4):
        p = subprocess.run([sys.executable, "-c", PROG, json.dumps(case)], env=env, capture_output=True, text=True, timeout=120)
        lines = [x for x in p.stdout.splitlines() if x.startswith("BASIS")]
        if lines or "MPI_INIT" not in p.stderr:      # start-up of the MPI library may fail on a loaded machine
            break
        time.sleep(1)
    if not lines:
        raise AssertionError("expand_basis failed: " + p.stderr[-300:])
    return lines[0]
