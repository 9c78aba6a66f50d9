import contextlib
import io
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite

from . import ref, util

RULE = "random many-body states with other shells and baths around the 3d shell; non-trivial: several product states"
COUNT = {"quick": 2500, "thorough": 20000}


def spec(rng):
    ls = rng.choice([[2], [2], [1, 2], [2, 1], [0, 2], [2, 0], [1, 2, 0]])
    return [[l, rng.choice([0, 0, 1, 2, 3, 10])] for l in ls]


def nbaths(case):
    return OrderedDict((a, b) for a, b in case["spec"])


def state(rng, n, idx, l):
    """Product states connected by ladder operators occur together."""
    psi = util.psi_case(rng, n, rng.choice([1, 2, 3]))
    shell = [idx[x] for x in ref.shell_labels(l)]
    for o, _ in list(psi):
        for _ in range(rng.choice([0, 1, 3])):
            x = set(o)
            full = [i for i in shell if i in x]
            empty = [i for i in shell if i not in x]
            if full and empty:
                x.remove(rng.choice(full))
                x.add(rng.choice(empty))
                if sorted(x) not in [q for q, _ in psi]:
                    psi.append([sorted(x), util.amp(rng)])
    return psi


def gen(rng):
    sp = spec(rng)
    case = {"spec": sp}
    nb = nbaths(case)
    idx = ref.index(nb)
    n = len(idx)
    case["psi"] = state(rng, n, idx, 2)
    case["norm"] = rng.random() < 0.5
    case["print"] = rng.random() < 0.2
    return case


def nontrivial(case):
    return len(case["psi"]) > 1


def run(case):
    nb = nbaths(case)
    idx = ref.index(nb)
    n = len(idx)
    psi = util.psi_sets(case["psi"])
    if case["norm"]:
        k = sum(abs(v) ** 2 for v in psi.values()) ** 0.5
        psi = {o: v / k for o, v in psi.items()}
    sb = {ref.enc_bytes(o, n): v for o, v in psi.items()}
    keep = dict(sb)
    L, S = ref.shell(2)
    labs = ref.shell_labels(2)
    op = lambda m: ref.relabel(ref.one_body(m, labs), idx)
    ops = {"Lz": op(L["z"]), "L+": op(L["+"]), "L-": op(L["-"]), "Sz": op(S["z"]), "S+": op(S["+"]), "S-": op(S["-"])}
    acts = {k: ref.apply_op(o, psi) for k, o in ops.items()}
    for k, f in (
        ("Lz", finite.applyLz3d),
        ("Sz", finite.applySz3d),
        ("L+", finite.applyLplus3d),
        ("L-", finite.applyLminus3d),
        ("S+", finite.applySplus3d),
        ("S-", finite.applySminus3d),
    ):
        d = util.diff(util.decode(f(nb, sb), n), acts[k])
        if d:
            return f"{k}|psi>: {d}"
    N = ref.apply_op(op(np.eye(10)), psi)
    sq = lambda x: (
        ref.inner(acts[x + "z"], acts[x + "z"]) + (ref.inner(acts[x + "+"], acts[x + "+"]) + ref.inner(acts[x + "-"], acts[x + "-"])) / 2
    )
    want = {
        "Lz": ref.inner(psi, acts["Lz"]),
        "Sz": ref.inner(psi, acts["Sz"]),
        "L2": sq("L"),
        "S2": sq("S"),
        "N": ref.inner(psi, N),
    }
    got = {
        "Lz": finite.getLz3d(nb, sb),
        "Sz": finite.getSz3d(nb, sb),
        "L2": finite.getLsqr3d(nb, sb),
        "S2": finite.getSsqr3d(nb, sb),
        "N": finite.getTraceDensityMatrix(nb, sb),
    }
    for k in want:
        if not util.close(got[k], want[k], 1e-8):
            return f"<{k}> = {got[k]}, expected {want[k]}"
    if sb != keep:
        return "state modified"
    if case["print"] and sb:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            finite.printExpValues(nb, np.array([-3.5, -1.25]), [{next(iter(sb)): 1.0}, sb])
        row = [x.split() for x in buf.getvalue().splitlines() if x.split()[:1] == ["1"]][0]
        vals = [float(x) for x in row[2:3] + row[7:]]
        exp = [want["N"], want["Lz"], want["Sz"], want["L2"], want["S2"]]
        if float(row[1]) != 2.25 or any(abs(a - b) > 6e-3 for a, b in zip(vals, exp)):
            return f"printed {row}, expected N, Lz, Sz, L2, S2 = {exp}"
    return None
