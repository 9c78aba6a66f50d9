from collections import OrderedDict

from impurityModel.ed import finite

from . import ref, util

RULE = "random system specifications (single and shared baths); every label, every index, labels and indices outside; non-trivial: at least one bath state"
COUNT = {"quick": 9000, "thorough": 72000}


def gen(rng):
    ls = list(range(5))
    rng.shuffle(ls)
    keys = []
    while ls and len(keys) < rng.choice([1, 2, 3]):
        k = rng.choice([1, 1, 1, 2, 3])
        part, ls = ls[:k], ls[k:]
        keys.append(part[0] if k == 1 else part)
    return {"spec": [[k, rng.choice([0, 0, 1, 2, 5, 10])] for k in keys]}


def nontrivial(case):
    return any(n for _, n in case["spec"])


def spec(case):
    return OrderedDict((tuple(k) if isinstance(k, list) else k, n) for k, n in case["spec"])


def run(case):
    nb = spec(case)
    labs = ref.labels(nb)
    for i, lab in enumerate(labs):
        got = finite.c2i(nb, lab)
        if got != i:
            return f"c2i({lab}) = {got}, expected {i}"
        got = finite.i2c(nb, i)
        if got != lab:
            return f"i2c({i}) = {got}, expected {lab}"
    N = len(labs)
    for i in (-1, -2, -N, N, N + 1, N + 100):
        if i >= 0 and i < N:
            continue
        try:
            got = finite.i2c(nb, i)
        except Exception:
            continue
        return f"i2c({i}) = {got} although there are only {N} spin-orbitals"
    bad = [(7, 0, 0), (0, 2, 0), (0, -1, 0), (7, 0), (0,), ()]
    for k, n in nb.items():
        bad += [(k, n), (k, -1)]
        for l in k if isinstance(k, tuple) else (k,):
            bad += [(l, 0, l + 1), (l, 1, -l - 1), (l, 2, 0), (l, -1, 0)]
            if isinstance(k, tuple):
                bad += [(l, 0)]
    for lab in bad:
        if lab in labs:
            continue
        try:
            got = util.quiet(finite.c2i, nb, lab)
        except Exception:
            continue
        return f"c2i({lab}) = {got} although the label is not in the system"
    if list(nb.items()) != list(spec(case).items()):
        return "specification modified"
    return None
