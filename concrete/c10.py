import numpy as np

from impurityModel.ed import finite

from . import fakempi, ref, util

RULE = "random operators (also non-Hermitian) in random bases, all construction modes, 1..3 ranks; non-trivial: matrix not zero"
COUNT = {"quick": 4000, "thorough": 32000}
MODES = ["dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"]


def gen(rng):
    n = util.size(rng, 12)
    op = util.op_case(rng, n, rng.choice([0, 3, 6, 10]), conserving=rng.random() < 0.7)
    basis = []
    for _ in range(rng.choice([1, 2, 4, 8, 13])):
        o = util.occ_list(rng, n)
        if o not in basis:
            basis.append(o)
    # add states reached by the operator so that the matrix is not empty
    o2 = util.op_of(op)
    for o in list(basis):
        for x in ref.op_action(o2, frozenset(o)):
            if rng.random() < 0.6 and sorted(x) not in basis:
                basis.append(sorted(x))
    rng.shuffle(basis)
    return {"n": n, "op": op, "basis": basis[:20], "herm": rng.random() < 0.4, "ranks": rng.choice([1, 1, 2, 3]), "closed": rng.random() < 0.5}


def setup(case):
    n = case["n"]
    op = util.hermitian(case["op"]) if case["herm"] else util.op_of(case["op"])
    occs = [frozenset(o) for o in case["basis"]]
    return n, op, occs, tuple(ref.enc_bytes(o, n) for o in occs)


def nontrivial(case):
    n, op, occs, _ = setup(case)
    return bool(np.any(ref.op_matrix(op, n, occs)))


def dense(h):
    return np.asarray(h.todense() if hasattr(h, "todense") else h)


def cmp(h, want, what):
    h = dense(h)
    if h.shape != want.shape:
        return f"{what}: shape {h.shape}, expected {want.shape}"
    if h.size and util.mx(h - want) > 1e-9:
        i, j = np.unravel_index(np.argmax(np.abs(h - want)), h.shape)
        return f"{what}: element ({i},{j}) = {h[i, j]}, expected {want[i, j]}"
    return None


def run(case):
    n, op, occs, basis = setup(case)
    want = ref.op_matrix(op, n, occs)
    R = case["ranks"]
    for mode in MODES:
        if R == 1:
            hs = [util.quiet(finite.get_hamiltonian_matrix, n, op, basis, mode)]
        else:
            hs = util.quiet(fakempi.run, R, lambda p, r: p.finite.get_hamiltonian_matrix(n, op, basis, mode))
        for r, h in enumerate(hs):
            d = cmp(h, want, f"{mode} rank {r} of {R}")
            if d:
                return d
    # from stored actions: restricted to the basis (the store must not lead outside)
    inside = set(basis)
    store = {b: {ref.enc_bytes(o, n): v for o, v in ref.op_action(op, s).items() if ref.enc_bytes(o, n) in inside} for b, s in zip(basis, occs)}
    full = dict(store)
    outside = ref.enc_bytes(frozenset(range(n)), n)
    if outside not in inside:
        full[outside] = {outside: 5.0}
    for mode in ("dense", "sparse"):
        keep = {k: dict(v) for k, v in full.items()}
        h, bi = util.quiet(finite.get_hamiltonian_matrix_from_h_dict, full, basis, mode=mode)
        if full != keep:
            return "stored actions modified"
        if bi != {b: i for i, b in enumerate(basis)}:
            return "index map wrong"
        d = cmp(h, want, f"from_h_dict {mode}")
        if d:
            return d

    for local in (False, True):

        def part(p, r):
            mine = {b: full[b] for k, b in enumerate(full) if k % R == r}
            return p.finite.get_hamiltonian_matrix_from_h_dict(mine, basis, "H_build", local, "sparse")

        hs = util.quiet(fakempi.run, R, part) if R > 1 else [util.quiet(finite.get_hamiltonian_matrix_from_h_dict, full, basis, "H_build", local, "sparse")]
        if local:
            d = cmp(sum(dense(h) for h, _ in hs), want, f"sum of {R} local matrices")
            if d:
                return d
        else:
            for h, bi in hs:
                d = cmp(h, want, f"H_build, {R} ranks")
                if d:
                    return d
                if bi != {b: i for i, b in enumerate(basis)}:
                    return "index map wrong"
    if case["herm"] and util.mx(want - want.conj().T) > 1e-12:
        return "reference matrix not Hermitian"
    return None
