import contextlib
import io
import math
import re

import numpy as np

from impurityModel.ed import average, finite

from . import ref, util

RULE = "random energies (shifted, degenerate, far apart), observables of several shapes, temperatures 1e-3..1e4 K; printed thermal values; non-trivial: at least two states"
COUNT = {"quick": 12500, "thorough": 100000}


def gen(rng):
    m = rng.choice([1, 2, 3, 5])
    return {
        "kind": rng.choice(["avg", "avg", "avg", "print"]),
        "es": [rng.choice([0.0, 0.01, 0.05, rng.uniform(0, 0.2), rng.uniform(0, 5)]) + 0.0 for _ in range(m)],
        "shift": rng.choice([0.0, -100.0, 1e4, rng.uniform(-5, 5)]),
        "shape": rng.choice([[], [2], [3, 2]]),
        "T": rng.choice([1e-3, 1.0, 77.0, 300, 1000.0, 1e4]),
        "seed": rng.randint(0, 10**6),
        "as": rng.choice(["list", "tuple", "array"]),
        "default": rng.random() < 0.2,
    }


def nontrivial(case):
    return len(case["es"]) > 1


KB = 8.617333262e-5


def boltzmann(es, obs, T):
    e0 = min(es)
    ws = [math.exp(-(e - e0) / (KB * T)) for e in es]
    return sum(w * o for w, o in zip(ws, obs)) / sum(ws)


def run(case):
    g = np.random.default_rng(case["seed"])
    T = 300 if case["default"] else case["T"]
    kw = {} if case["default"] else {"T": T}
    if abs(average.k_B - KB) > 1e-12:
        return f"k_B = {average.k_B}"
    es = [e + case["shift"] for e in case["es"]]
    if case["kind"] == "print":
        return printed(case, g, T, kw)
    obs = g.normal(size=[len(es)] + case["shape"])
    conv = {"list": list, "tuple": tuple, "array": np.array}[case["as"]]
    got = average.thermal_average(conv(es), obs if case["shape"] else conv(list(obs)), **kw)
    want = boltzmann(es, obs, T)
    tol = 1e-4 * (1 + abs(case["shift"]) * 1e-9 / (KB * T))
    if np.shape(got) != tuple(case["shape"]) or util.mx(got - want) > tol:
        return f"average of {obs.tolist()} at energies {es}, T={T}: {got}, expected {want}"
    if np.any(got < obs.min(axis=0) - 1e-9) or np.any(got > obs.max(axis=0) + 1e-9):
        return "average outside the range of the observable"
    for bad in (es + [0.0], es[:-1]):
        try:
            average.thermal_average(conv(bad), obs, **kw)
            return f"{len(bad)} energies and {len(obs)} observables accepted"
        except ValueError:
            pass
    return None


def printed(case, g, T, kw):
    """Printed values of states of a 3d shell with known diagonal properties."""
    from collections import OrderedDict

    nb = OrderedDict([(2, 1)])
    n = 11
    idx = ref.index(nb)
    m = len(case["es"])
    es = np.array(sorted(case["es"]))
    psis = []
    for k in range(m):
        occ = [i for i in range(n) if g.random() < 0.5]
        psis.append({ref.enc_bytes(frozenset(occ), n): 1.0})
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        finite.printThermalExpValues(nb, es + case["shift"], psis, **kw)
    vals = dict(re.findall(r"<([^>]*)> = *(-?[0-9.]+)", buf.getvalue()))
    N, Lz, Sz = [], [], []
    for p in psis:
        occ = ref.dec_bytes(next(iter(p)), n)
        labs = [lab for lab, i in idx.items() if i in occ and len(lab) == 3]
        N.append(len(labs))
        Lz.append(sum(lab[2] for lab in labs))
        Sz.append(sum(lab[1] - 0.5 for lab in labs))
    sel = [i for i in range(m) if es[i] - es[0] < 10 * KB * T]
    margin = min([abs((es[i] - es[0]) / (10 * KB * T) - 1) for i in range(m)])
    if margin < 1e-6:
        return None
    # the other values: averages of what the single states have (C20, C21)
    oc = [finite.getEgT2gOccupation(nb, p) for p in psis]
    rest = [(q, [float(np.real(x[j])) for x in oc]) for j, q in enumerate(("N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)"))]
    rest += [("L^2(3d)", [float(finite.getLsqr3d(nb, p)) for p in psis]), ("S^2(3d)", [float(finite.getSsqr3d(nb, p)) for p in psis])]
    for name, o in [("N(3d)", N), ("Lz(3d)", Lz), ("Sz(3d)", Sz), ("E-E0", list(es - es[0]))] + rest:
        want = boltzmann([es[i] for i in sel], [o[i] for i in sel], T)
        if name not in vals or abs(float(vals[name]) - want) > 6e-4 * (1 + abs(want)):
            return f"printed <{name}> = {vals.get(name)}, expected {want} at T = {T}"
    return None
