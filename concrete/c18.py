from impurityModel.ed import finite

from . import ref, util

RULE = "random Slater-Condon parameters and shells s, p, d, f; operators compared after normal ordering; Gaunt coefficients against exact 3j symbols; non-trivial: some parameter nonzero"
COUNT = {"quick": 300, "thorough": 2400}


def gen(rng):
    kind = rng.choice(["gaunt", "gaunt", "U", "U", "nospin", "pd", "add"])
    a, b = rng.choice([0, 1, 2, 2, 3]), rng.choice([0, 1, 2, 2])
    if kind in ("U", "nospin") and rng.random() < 0.8:
        a = min(a, 2)
    R = lambda m: [rng.choice([0, 0.0, 1, rng.uniform(-2, 9), rng.uniform(0, 9)]) for _ in range(m)]
    return {
        "kind": kind,
        "l": rng.choice([[a, a, a, a], [a, b, b, a], [a, b, a, b], [a, b, b, a], [b, a, a, b]]),
        "R": R(rng.choice([1, 3, 5])),
        "pd": [R(5), R(3), R(3), R(4)],
        "ops": [util.op_case(rng, 6, rng.choice([0, 2, 5])) for _ in range(rng.choice([0, 1, 2, 3]))],
        "default": rng.random() < 0.2,
    }


def nontrivial(case):
    return any(case["R"])


def coulomb(l1, l2, l3, l4, R):
    """1/2 sum R_k c^k(l1m1,l4m4) c^k(l3m3,l2m2) c+_1 c+_2 c_3 c_4, spin conserved at each vertex."""
    out = {}
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                m4 = m1 + m2 - m3
                if abs(m4) > l4:
                    continue
                u = sum(x * ref.ck(k, l1, m1, l4, m4) * ref.ck(k, l3, m3, l2, m2) for k, x in enumerate(R) if x)
                if abs(u) < 1e-14:
                    continue
                for s in range(2):
                    for t in range(2):
                        p = (((l1, s, m1), "c"), ((l2, t, m2), "c"), ((l3, t, m3), "a"), ((l4, s, m4), "a"))
                        out[p] = out.get(p, 0) + u / 2
    return out


def total(ops):
    out = {}
    for op in ops:
        for p, v in op.items():
            out[p] = out.get(p, 0) + v
    return out


def pd(Fdd, Fpp, Fpd, Gpd):
    return total(
        [
            coulomb(2, 2, 2, 2, Fdd),
            coulomb(1, 1, 1, 1, Fpp),
            coulomb(1, 2, 2, 1, Fpd),
            coulomb(2, 1, 1, 2, Fpd),
            coulomb(1, 2, 1, 2, Gpd),
            coulomb(2, 1, 2, 1, Gpd),
        ]
    )


def compare(got, want):
    for p, v in got.items():
        cr = [x for x, a in p if a == "c"]
        an = [x for x, a in p if a == "a"]
        if len(set(cr)) < len(cr) or len(set(an)) < len(an):
            return f"Pauli-forbidden process {p}"
    return util.diff(ref.normal_form(got), ref.normal_form(want), 1e-8)


def run(case):
    l1, l2, l3, l4 = case["l"]
    R = case["R"]
    if case["kind"] == "gaunt":
        for k in range(l1 + l2 + 2):
            for m in range(-l1, l1 + 1):
                for mp in range(-l2, l2 + 1):
                    got, want = finite.gauntC(k, l1, m, l2, mp), ref.ck(k, l1, m, l2, mp)
                    if abs(m - mp) <= k and abs(got - want) > 1e-10:
                        return f"gauntC({k},{l1},{m},{l2},{mp}) = {got}, expected {want}"
        return None
    if case["kind"] == "nospin":
        got = finite.getNoSpinUop(l1, l2, l3, l4, R)
        want = {}
        for p, v in coulomb(l1, l2, l3, l4, R).items():
            if p[0][0][1] == 0 and p[1][0][1] == 1:
                want[tuple((x[0], x[2]) for x, _ in p)] = v
        return util.diff(got, want, 1e-8)
    if case["kind"] == "U":
        return compare(finite.getUop(l1, l2, l3, l4, R), coulomb(l1, l2, l3, l4, R))
    if case["kind"] == "add":
        ops = [util.op_of(o) for o in case["ops"]]
        keep = [dict(o) for o in ops]
        got = finite.addOps(ops)
        if ops != keep or any(got is o for o in ops):
            return "addOps modifies or returns its argument"
        want = total(ops)
        if any(p not in want for p in got):
            return "addOps invents a process"
        return util.diff(got, want)
    Fdd, Fpp, Fpd, Gpd = case["pd"]
    if case["default"]:
        return compare(finite.get2p3dSlaterCondonUop(), pd((9, 0, 8, 0, 6), (20, 0, 8), (10, 0, 8), (0, 3, 0, 2)))
    got = finite.get2p3dSlaterCondonUop(Fdd=Fdd, Fpp=Fpp, Fpd=Fpd, Gpd=Gpd)
    d = compare(got, pd(Fdd, Fpp, Fpd, Gpd))
    if d:
        return d
    conj = ref.dagger(got)
    return util.diff({k: complex(v) for k, v in got.items()}, conj, 1e-10)
