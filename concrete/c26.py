import numpy as np

from impurityModel.ed import finite

from . import c11, ref, util

RULE = "random Hermitian operators in random bases, both modes, several numbers of states and cutoffs; non-trivial: off-diagonal elements"
COUNT = {"quick": 3000, "thorough": 24000}


def gen(rng):
    n = rng.choice([4, 5, 6, 7, 8, 9, 10])
    basis = []
    ne = rng.randint(1, n - 1)
    for _ in range(rng.choice([4, 6, 10, 16])):
        o = sorted(rng.sample(range(n), ne if rng.random() < 0.8 else rng.randint(0, n)))
        if o not in basis:
            basis.append(o)
    while len(basis) < 4:
        o = util.occ_list(rng, n)
        if o not in basis:
            basis.append(o)
    return {
        "n": n,
        "op": c11.chain(rng, n) + [[[[i, "c"], [i, "a"]], rng.uniform(-3, 3)] for i in range(n) if rng.random() < 0.8],
        "basis": basis,
        "k": rng.choice([1, 2, 3, len(basis)]),
        "mode": rng.choice(["Lanczos", "full", None]),
        "cut": rng.choice([None, None, 0, 0.01, 0.2]),
    }


def matrix(case):
    seen = {}
    for p, v in case["op"]:
        seen[tuple(map(tuple, p))] = v
    op = util.hermitian([[list(map(list, p)), v] for p, v in seen.items()])
    occs = [frozenset(o) for o in case["basis"]]
    return op, occs, ref.op_matrix(op, case["n"], occs)


def nontrivial(case):
    h = matrix(case)[2]
    return bool(np.any(h - np.diag(np.diag(h))))


def run(case):
    n = case["n"]
    op, occs, h = matrix(case)
    m = len(occs)
    basis = tuple(ref.enc_bytes(o, n) for o in occs)
    lanczos = case["mode"] != "full"
    k = min(case["k"], m - 2 if lanczos else m + 2)
    if lanczos and not np.any(h):
        return None
    kw = {} if case["mode"] is None else {"groundDiagMode": case["mode"]}
    if case["cut"] is not None:
        kw["slaterWeightMin"] = case["cut"]
    cut = 1e-7 if case["cut"] is None else case["cut"]
    es, psis = util.quiet(finite.eigensystem, n, op, basis, k, **kw)
    want, vec = np.linalg.eigh(h)
    k = min(k, m)
    if len(es) != k or len(psis) != k:
        return f"{len(es)} energies and {len(psis)} states, expected {k}"
    scale = max(1, util.mx(want))
    d = util.lowest(list(es), want, 1e-6 * scale)
    if d == "copies" and lanczos and not case.get("strict"):
        return None
    if d != "ok":
        return d if d != "copies" else f"energies {list(es)}, expected {list(want[:k])}: a degenerate copy is missing"
    if any(es[i] > es[i + 1] + 1e-9 * scale for i in range(k - 1)):
        return f"energies not ascending: {es}"
    V = np.zeros((m, k), dtype=complex)
    pos = {b: i for i, b in enumerate(basis)}
    for j, p in enumerate(psis):
        for b, v in p.items():
            if b not in pos:
                return "state outside the basis"
            if abs(v) ** 2 < cut * (1 - 1e-9):
                return f"amplitude {v} below the cutoff kept"
            V[pos[b], j] = v
    # projector on the eigenspace of energy j: weights of kept amplitudes
    tol = 1e-5
    for j in range(k):
        same = [i for i in range(m) if abs(want[i] - want[j]) < 1e-6 * scale]
        if len(same) == 1:
            x = vec[:, j]
            w = np.abs(x) ** 2
            keep = w >= cut
            if np.any(np.abs(w - cut) < 1e-5):
                continue
            if np.any(keep != (np.abs(V[:, j]) > 0)) and np.any((keep != (np.abs(V[:, j]) > 0)) & (np.abs(w - cut) > 1e-4)):
                return f"state {j}: kept amplitudes on {np.nonzero(V[:, j])[0]}, expected {np.nonzero(keep)[0]}"
            y = np.where(keep, x, 0)
            a = np.vdot(y, V[:, j])
            if abs(a) < 1e-12:
                return f"state {j} is not the eigenvector of energy {j}"
            if util.mx(V[:, j] - y * (a / abs(a))) > tol:
                return f"state {j} is not the eigenvector of energy {j}: {V[:, j]}, expected {y} up to a phase"
        elif cut < 1e-6:
            r = h @ V[:, j] - want[j] * V[:, j]
            if util.mx(r) > 4e-3 * scale or abs(np.linalg.norm(V[:, j]) - 1) > 1e-2:
                return f"state {j} is not an eigenvector of energy {j}"
    return None
