from collections import OrderedDict

from impurityModel.ed import finite, spectra

from . import ref, util

RULE = "random polarization vectors (real and complex) and shell pairs; photoemission operators of every shell; non-trivial: polarization not along an axis"
COUNT = {"quick": 2400, "thorough": 19200}


def gen(rng):
    comp = lambda: rng.choice([0, 0, 1, -1, 0.5, rng.uniform(-1, 1), [rng.uniform(-1, 1), rng.uniform(-1, 1)], [0.0, 1.0]])
    l1 = rng.choice([0, 1, 1, 1, 2, 3])
    l2 = rng.choice([x for x in range(4) if x != l1])
    if rng.random() < 0.6:
        l1, l2 = 1, 2
    return {"l": [l1, l2], "nb": [rng.choice([0, 1, 10]), rng.choice([0, 3, 10])], "ns": [[comp(), comp(), comp()] for _ in range(rng.choice([1, 2, 3]))]}


def nontrivial(case):
    return any(sum(1 for x in n if x) > 1 for n in case["ns"])


def dipole(nb, n):
    """<l2 m| n.r/r |l1 m'> with C^1_q: n.r = nz C_0 + (-nx+i ny)/sqrt2 C_1 + (nx+i ny)/sqrt2 C_-1."""
    l1, l2 = nb
    idx = ref.index(nb)
    x, y, z = map(util.num, n)
    q = {0: z, 1: (-x + 1j * y) / 2**0.5, -1: (x + 1j * y) / 2**0.5}
    out = {}
    for m in range(-l2, l2 + 1):
        for mp in range(-l1, l1 + 1):
            if m - mp in q:
                v = ref.ck(1, l2, m, l1, mp) * q[m - mp]
                for s in range(2):
                    if abs(v) > 1e-14:
                        out[((idx[l2, s, m], "c"), (idx[l1, s, mp], "a"))] = v
    return out


def run(case):
    nb = OrderedDict(zip(case["l"], case["nb"]))
    ns = [[util.num(x) for x in n] for n in case["ns"]]
    want = [dipole(nb, n) for n in case["ns"]]
    got = [spectra.getDipoleOperator(nb, n) for n in ns]
    for what, ops, exp in (
        ("getDipoleOperator", got, want),
        ("getDipoleOperators", spectra.getDipoleOperators(nb, ns), want),
        ("getDaggeredDipoleOperators", spectra.getDaggeredDipoleOperators(nb, ns), [ref.dagger(w) for w in want]),
    ):
        if len(ops) != len(exp):
            return f"{what}: {len(ops)} operators for {len(exp)} polarizations"
        for a, b, n in zip(ops, exp, ns):
            d = util.diff(a, b)
            if d:
                return f"{what}, polarization {n}: {d}"
    idx = ref.index(nb)
    for l in case["l"] + ([None] if 2 in case["l"] else []):
        for f, a in ((spectra.getPhotoEmissionOperators, "a"), (spectra.getInversePhotoEmissionOperators, "c")):
            ops = f(nb) if l is None else f(nb, l=l)
            exp = [{((idx[x], a),): 1} for x in ref.shell_labels(2 if l is None else l)]
            key = lambda o: sorted(map(repr, o.items()))
            if sorted(ops, key=key) != sorted(exp, key=key):
                return f"{f.__name__}(l={l}) = {ops}"
    return None
