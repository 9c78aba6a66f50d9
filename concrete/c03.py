from impurityModel.ed import finite

from . import ref, util

RULE = "random many-body states: ladder operators, anticommutators, inner product, norm, sums; non-trivial: state not empty"
COUNT = {"quick": 15000, "thorough": 120000}


def gen(rng):
    n = util.size(rng, 20)
    i = rng.randrange(n)
    psi = util.psi_case(rng, n)
    phi = util.psi_case(rng, n)
    if psi and rng.random() < 0.6:
        for o, _ in rng.sample(psi, rng.randint(1, len(psi))):
            if o not in [p for p, _ in phi]:
                phi.append([o, util.amp(rng)])
    return {
        "n": n,
        "i": i,
        "j": rng.choice([i, rng.randrange(n)]),
        "psi": psi,
        "phi": phi,
        "mul": rng.choice([1, 0, -1, 2, 0.5, [0.0, 1.0], [-0.5, 0.25]]),
        "same": rng.random() < 0.1,
    }


def nontrivial(case):
    return bool(case["psi"])


def ladder(psi, i, action):
    out = {}
    for occ, v in psi.items():
        r = ref.step(occ, i, action)
        if r:
            out[r[0]] = v * r[1]
    return out


def run(case):
    n, i, j, mul = case["n"], case["i"], case["j"], util.num(case["mul"])
    B = lambda x: util.psi_bytes(x, n)
    psi, phi = util.psi_sets(case["psi"]), util.psi_sets(case["phi"])
    for name, f in (("a", finite.a), ("c", finite.c)):
        arg = B(case["psi"])
        got = util.decode(f(n, i, arg), n)
        d = util.diff(got, ladder(psi, i, name))
        if d:
            return f"{name}(i={i}): {d}"
        if arg != B(case["psi"]):
            return f"{name} changed its argument"
    # anticommutators of the code's operators
    F = {"a": finite.a, "c": finite.c}
    for x, y in (("a", "c"), ("a", "a"), ("c", "c")):
        s = {}
        for p, q, k, l in ((x, y, i, j), (y, x, j, i)):
            for st, v in F[p](n, k, F[q](n, l, B(case["psi"]))).items():
                s[st] = s.get(st, 0) + v
        want = psi if (x != y and i == j) else {}
        d = util.diff(util.decode(s, n), want)
        if d:
            return f"anticommutator {x}{i},{y}{j}: {d}"
    got, want = finite.inner(B(case["phi"]), finite.a(n, i, B(case["psi"]))), finite.inner(finite.c(n, i, B(case["phi"])), B(case["psi"]))
    if not util.close(got, want):
        return f"adjoint: {got} != {want}"
    got, want = finite.inner(B(case["phi"]), B(case["psi"])), ref.inner(phi, psi)
    if not util.close(got, want):
        return f"inner = {got}, expected {want}"
    got, want = finite.norm2(B(case["psi"])), sum(abs(v) ** 2 for v in psi.values())
    if not util.close(got, want):
        return f"norm2 = {got}, expected {want}"
    for first in (False, True):
        a = B(case["psi"])
        b = a if case["same"] else B(case["phi"])
        ref_b = psi if case["same"] else phi
        want = dict(psi)
        for k, v in ref_b.items():
            want[k] = want.get(k, 0) + mul * v
        keep_b = dict(b)
        for default in (False, True):
            if default and mul != 1:
                continue
            a1 = dict(a)
            b1 = a1 if case["same"] else dict(b)
            args = (a1, b1) if default else (a1, b1, mul)
            if first:
                if finite.addToFirst(*args) is not None:
                    return "addToFirst returns a value"
                got = a1
            else:
                got = finite.add(*args)
                if a1 != a or got is a1:
                    return "add changed its first argument"
            if not case["same"] and b1 != keep_b:
                return "second argument changed"
            d = util.diff(util.decode(got, n), want)
            if d:
                return f"{'addToFirst' if first else 'add'}: {d}"
    return None
