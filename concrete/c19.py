import numpy as np

from impurityModel.ed import finite

from . import ref, util

RULE = "random coupling constants, fields (with zero and negative components) and shells l = 0..4; non-trivial: l > 0"
COUNT = {"quick": 4800, "thorough": 38400}


def gen(rng):
    f = lambda: rng.choice([0, 0.0, 1, -1.5, rng.uniform(-3, 3)])
    return {"l": rng.choice([0, 1, 2, 2, 3, 4]), "xi": f(), "h": [f(), f(), f()], "default": rng.random() < 0.2}


def nontrivial(case):
    return case["l"] > 0


def soc(xi, l):
    L, S = ref.shell(l)
    return ref.one_body(xi * (L["z"] @ S["z"] + (L["+"] @ S["-"] + L["-"] @ S["+"]) / 2), ref.shell_labels(l))


def field(hx, hy, hz, l):
    _, S = ref.shell(l)
    return ref.one_body(hx * S["x"] + hy * S["y"] + hz * S["z"], ref.shell_labels(l))


def run(case):
    l = 2 if case["default"] else case["l"]
    kw = {} if case["default"] else {"l": l}
    for name, got, want in (
        ("getSOCop", finite.getSOCop(case["xi"], **kw), soc(case["xi"], l)),
        ("gethHfieldop", finite.gethHfieldop(*case["h"], **kw), field(*case["h"], l)),
    ):
        for p in got:
            if len(p) != 2 or (p[0][1], p[1][1]) != ("c", "a"):
                return f"{name}: process {p}"
        d = util.diff(got, want)
        if d:
            return f"{name}: {d}"
        if {k: complex(v) for k, v in got.items()} != {k: complex(v) for k, v in finite.daggerOp(got).items()}:
            return f"{name}: not Hermitian"
    return None
