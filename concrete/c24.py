import json
import os
import tempfile
from collections import OrderedDict

import numpy as np

from impurityModel.ed import finite, get_spectra_using_CF as cf

from . import c21, ref, util

RULE = "random crystal-field files (parameters missing, zero, negative), with and without conduction baths, both bath bases; non-trivial: splitting nonzero"
COUNT = {"quick": 3200, "thorough": 25600}
DEFAULTS = {
    "e_imp": -1.31796,
    "e_deltaO_imp": 0.60422,
    "e_val_eg": -4.4,
    "e_val_t2g": -6.5,
    "e_con_eg": 3,
    "e_con_t2g": 2,
    "v_val_eg": 1.883,
    "v_val_t2g": 1.395,
    "v_con_eg": 0.6,
    "v_con_t2g": 0.4,
}


def gen(rng):
    par = {k: rng.choice([0, 0.0, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.randint(-3, 3)]) for k in DEFAULTS if rng.random() < 0.75}
    con = rng.random() < 0.5
    return {"par": par, "con": con, "p": rng.choice([None, 0, 2]), "first": rng.random() < 0.7, "bath": rng.choice([None, "spherical", "cubic"])}


def nontrivial(case):
    return case["par"].get("e_deltaO_imp", 1) != 0


def expected(par, con, bath):
    P = dict(DEFAULTS, **par)
    out = {}
    u = finite.get_spherical_2_cubic_matrix()
    lev = lambda eg, t2g: np.diag([eg, eg, t2g, t2g, t2g]).astype(complex)
    imp = u @ lev(P["e_imp"] + 0.6 * P["e_deltaO_imp"], P["e_imp"] - 0.4 * P["e_deltaO_imp"]) @ u.conj().T
    ub = np.eye(5) if bath == "cubic" else u
    labs = lambda s: [(2, s, m) for m in range(-2, 3)]
    for s in range(2):
        out.update(ref.one_body(imp, labs(s)))
        for kind, off in (("val", 0), ("con", 10)) if con else (("val", 0),):
            bl = [(2, off + 5 * s + i) for i in range(5)]
            out.update(ref.one_body(ub @ lev(P[f"e_{kind}_eg"], P[f"e_{kind}_t2g"]) @ ub.conj().T, bl))
            v = ub @ lev(P[f"v_{kind}_eg"], P[f"v_{kind}_t2g"]) @ u.conj().T
            for i, b in enumerate(bl):
                for j, a in enumerate(labs(s)):
                    if v[i, j] != 0:
                        out[((b, "c"), (a, "a"))] = v[i, j]
                        out[((a, "c"), (b, "a"))] = v[i, j].conjugate()
    return out


def specs(case):
    items = [(2, 20 if case["con"] else 10)]
    val = [(2, 10)]
    if case["p"] is not None:
        items.append((1, case["p"]))
        val.append((1, case["p"]))
    if case["first"]:
        items.reverse()
        val.reverse()
    return OrderedDict(items), OrderedDict(val)


def run(case):
    d = c21.matrix_ok()
    if d:
        return d
    nb, nv = specs(case)
    with tempfile.TemporaryDirectory() as tmp:
        name = os.path.join(tmp, "h0.json")
        with open(name, "w") as f:
            json.dump(case["par"], f)
        got = cf.get_CF_hamiltonian(nb, nv, name, *([] if case["bath"] is None else [case["bath"]]))
        vals = cf.read_h0_CF_file(name)
    P = dict(DEFAULTS, **case["par"])
    if list(vals) != [P[k] for k in DEFAULTS]:
        return f"read_h0_CF_file = {vals}, expected {list(P.values())}"
    want = expected(case["par"], case["con"], case["bath"])
    for p in got:
        if [a for _, a in p] != ["c", "a"]:
            return f"process {p}"
    d = util.diff(got, want)
    if d:
        return d
    return util.diff({k: complex(v) for k, v in got.items()}, ref.dagger(got), 1e-12)
