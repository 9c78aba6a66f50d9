import numpy as np

from impurityModel.ed import finite

from . import c10, c11, fakempi, ref, util

RULE = "distributed expansion, matrix and Lanczos coefficients on 1..4 ranks, store distributed over the ranks; non-trivial: more than one rank and the space grows"
COUNT = {"quick": 1400, "thorough": 11200}


def gen(rng):
    case = c11.gen(rng)
    case.pop("hash", None)
    case["ranks"] = rng.choice([1, 2, 2, 3, 4])
    case["seed"] = rng.randint(0, 10**6)
    case["krylov"] = rng.choice([1, 2, 3, 5, 10])
    if not case["basis"]:
        case["basis"] = [util.occ_list(rng, case["n"])]
    return case


def parts(case):
    op = util.hermitian(case["op"])
    r = util.restrictions_of(case["restr"])
    start = [frozenset(o) for o in case["basis"]]
    return op, r, start, c11.closure(op, start, r)[0]


def nontrivial(case):
    _, _, start, want = parts(case)
    return case["ranks"] > 1 and want is not None and len(want) > len(start)


def run(case):
    import random

    n, R = case["n"], case["ranks"]
    op, restr, start, want = parts(case)
    if want is None or len(want) > 600:
        return None
    rng = random.Random(case["seed"])
    E = lambda o: ref.enc_bytes(o, n)
    act = lambda o: {E(x): v for x, v in ref.op_action(op, o, restr).items() if abs(v) ** 2 >= 1e-12}
    stores = [{} for _ in range(R)]
    # the store of earlier calls: each state on at most one rank
    for o in want:
        if rng.random() < case["prefill"] * 0.6:
            stores[rng.randrange(R)][E(o)] = act(o)
    if rng.random() < 0.5:
        alien = E(frozenset(range(n)))
        if alien not in {E(o) for o in want}:
            stores[rng.randrange(R)][alien] = {alien: 1.0}
    before = [dict(s) for s in stores]
    basis0 = tuple(E(o) for o in start)
    serial = util.quiet(finite.expand_basis, n, {}, op, basis0, restr)
    got = util.quiet(
        fakempi.run, R, lambda p, r: p.finite.expand_basis(n, stores[r], op, basis0, restr, parallelization_mode="H_build")
    )
    for r, b in enumerate(got):
        if b != serial:
            return f"rank {r} of {R}: basis differs from the serial one ({len(b)} and {len(serial)} states)"
    for b in serial:
        k = [r for r in range(R) if b in stores[r]]
        if len(k) != 1:
            return f"action of {sorted(ref.dec_bytes(b, n))} stored on ranks {k}"
        d = util.diff(util.decode(stores[k[0]][b], n), util.decode(act(ref.dec_bytes(b, n)), n))
        if d:
            return f"stored action: {d}"
    for r in range(R):
        if any(stores[r].get(k) != v for k, v in before[r].items()):
            return "previously stored action changed"
        if set(stores[r]) - set(before[r]) - set(serial):
            return "stored action of a state outside the basis"
    hs, _ = util.quiet(finite.get_hamiltonian_matrix_from_h_dict, {E(o): act(o) for o in want}, serial)
    hs = c10.dense(hs)
    for local in (True, False):
        out = util.quiet(
            fakempi.run,
            R,
            lambda p, r: p.finite.expand_basis_and_hamiltonian(n, stores[r], op, basis0, restr, "H_build", local),
        )
        for h, bi in out:
            if bi != {b: i for i, b in enumerate(serial)}:
                return "index map differs from the serial one"
        mats = [c10.dense(h) for h, _ in out]
        d = c10.cmp(sum(mats), hs, "sum of local matrices") if local else None
        for h in mats if not local else []:
            d = d or c10.cmp(h, hs, "distributed matrix")
        if d:
            return d
        if local:
            locals_ = [h for h, _ in out]
    m = len(serial)
    g = np.random.default_rng(case["seed"])
    psi0 = g.normal(size=m) + 1j * g.normal(size=m)
    psi0 /= np.linalg.norm(psi0)
    K = case["krylov"]
    import scipy.sparse

    for mode in ("sparse", "dense"):
        full = err = dist = None
        try:
            full = util.quiet(finite.get_tridiagonal_krylov_vectors, scipy.sparse.csr_matrix(hs), psi0.copy(), K, mode=mode)
        except ValueError:
            err = True
        if err or (len(full[1]) and np.min(full[1]) < 1e-6):
            continue
        dist = util.quiet(
            fakempi.run, R, lambda p, r: p.finite.get_tridiagonal_krylov_vectors(locals_[r], psi0.copy(), K, True, mode)
        )[0]
        for x, y, name in zip(dist, full, ("alpha", "beta")):
            if x.shape != y.shape or (x.size and util.mx(x - y) > 1e-6 * max(1, util.mx(y))):
                return f"{name} of the distributed recurrence {x}, full matrix {y}"
    return None
