import json
import os
import pickle
import tempfile
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite, get_spectra as gs, get_spectra_using_CF as cf

from . import c18, c19, c24, ref, util

RULE = "random interaction, spin-orbit, field, double-counting and one-particle terms (pickle and crystal-field), non-Hermitian input; dc_MLFT alone; non-trivial: full assembly"
COUNT = {"quick": 360, "thorough": 2880}


def gen(rng):
    f = lambda: rng.choice([0, 0.0, rng.uniform(-3, 9)])
    h0 = []
    for _ in range(rng.choice([0, 1, 3, 6])):
        h0.append([rng.randrange(16), rng.randrange(16), rng.uniform(-2, 2), rng.uniform(-2, 2)])
    return {
        "kind": rng.choice(["pickle", "pickle", "cf", "dc", "dc", "dc"]),
        "nb": rng.choice([[0, 10], [0, 10], [0, 20], [2, 10]]),
        "order": rng.random() < 0.8,
        "Fdd": [f() for _ in range(5)],
        "Fpp": [f() for _ in range(3)],
        "Fpd": [f() for _ in range(3)],
        "Gpd": [f() for _ in range(4)],
        "xi": [f(), f()],
        "n": [rng.choice([6, 6, 6, 6.0, 5, 6.5, None]), rng.choice([0, 1, 7, 8, 8.0, 8.5, 10])],
        "c": rng.choice([0, 1.5, rng.uniform(-3, 3)]),
        "h": [rng.choice([0, 0.0001, rng.uniform(-1, 1)]) for _ in range(3)],
        "h0": h0,
        "bad": rng.random() < 0.2,
        "cf": c24.gen(rng)["par"],
        "drop": rng.choice([None, None, "Fpd", "Gpd", "both"]),
    }


def nontrivial(case):
    return case["kind"] != "dc"


def dc(n3, c, Fdd, n2, Fpd, Gpd):
    """Expected value, or None if the input must be rejected."""
    if n3 != int(n3) or (n2 is not None and n2 != int(n2)):
        return None
    U = Fdd[0] - 14 / 441 * (Fdd[2] + Fdd[4])
    if n2 is None and Fpd is None and Gpd is None:
        return U * n3 - c
    if n2 != 6 or Fpd is None or Gpd is None:
        return None
    V = Fpd[0] - Gpd[1] / 15 - 3 / 70 * Gpd[3]
    return [U * n3 + V * 6 - c, V * (n3 + 1) - c]


def run_dc(case):
    n2, n3 = case["n"]
    Fpd = None if case["drop"] in ("Fpd", "both") else case["Fpd"]
    Gpd = None if case["drop"] in ("Gpd", "both") else case["Gpd"]
    want = dc(n3, case["c"], case["Fdd"], n2, Fpd, Gpd)
    try:
        got = finite.dc_MLFT(n3_i := n3, case["c"], case["Fdd"], n2, Fpd, Gpd)
    except ValueError:
        return None if want is None else "rejected"
    if want is None:
        return f"dc_MLFT accepts n3d={n3}, n2p={n2}, Fpd={Fpd}, Gpd={Gpd}: {got}"
    if np.shape(got) != np.shape(want) or util.mx(np.subtract(got, want)) > 1e-9:
        return f"dc_MLFT = {got}, expected {want}"
    return None


def run(case):
    if case["kind"] == "dc":
        return run_dc(case)
    items = list(zip((1, 2), case["nb"]))
    if case["kind"] == "cf":
        items = [(1, case["nb"][0]), (2, 20 if case["nb"][1] == 20 else 10)]
    if not case["order"]:
        items.reverse()
    nb = OrderedDict(items)
    nv = OrderedDict((l, 10 if l == 2 else n) for l, n in items)
    idx = ref.index(nb)
    n3 = int(case["n"][1])
    n0 = {1: 6, 2: n3}
    labs = ref.labels(nb)
    pick = [x for x in labs if x[0] == 2]
    h0 = {}
    for i, j, a, b in case["h0"]:
        x, y = pick[i % len(pick)], pick[(7 * j + 3) % len(pick)]
        v = complex(a, b if x != y else 0)
        h0[(x, "c"), (y, "a")] = h0.get(((x, "c"), (y, "a")), 0) + v
        if x != y:
            h0[(y, "c"), (x, "a")] = h0.get(((y, "c"), (x, "a")), 0) + v.conjugate()
    bad = case["bad"] and case["kind"] == "pickle"
    if bad:
        h0[(pick[0], "c"), (pick[-1], "a")] = 0.5 + 0.25j
        h0[(pick[-1], "c"), (pick[0], "a")] = 0.5 + 0.25j
    sc = [case["Fdd"], case["Fpp"], case["Fpd"], case["Gpd"]]
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, "h0")
        args = (nb, nv, sc, case["xi"], [n0, case["c"]], case["h"], name)
        try:
            if case["kind"] == "cf":
                with open(name, "w") as f:
                    json.dump(case["cf"], f)
                h0 = c24.expected(case["cf"], nb[2] == 20, "spherical")
                got = util.quiet(cf.get_hamiltonian_operator_using_CF, *args)
            else:
                with open(name, "wb") as f:
                    pickle.dump(h0, f)
                got = util.quiet(gs.get_hamiltonian_operator, *args)
        except AssertionError:
            return None if bad else "Hermitian input rejected"
    if bad:
        return "non-Hermitian one-particle part accepted"
    shift = dc(n3, case["c"], case["Fdd"], 6, case["Fpd"], case["Gpd"])
    edc = {((x, "c"), (x, "a")): -e for l, e in ((2, shift[0]), (1, shift[1])) for x in ref.shell_labels(l)}
    want = c18.total([c18.pd(*sc), c19.field(*case["h"], 2), c19.soc(case["xi"][0], 1), c19.soc(case["xi"][1], 2), edc, h0])
    return util.diff(ref.normal_form(got), ref.normal_form(ref.relabel(want, idx)), 1e-8)
