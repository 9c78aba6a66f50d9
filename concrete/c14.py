import numpy as np
import scipy.sparse

from impurityModel.ed import finite, spectra

from . import ref, util

RULE = "random Hermitian matrices and operators: tridiagonal coefficients against projected matrix elements, Green's function against the resolvent; non-trivial: space dimension above 1"
COUNT = {"quick": 15000, "thorough": 120000}


def gen(rng):
    kind = rng.choice(["matrix", "green", "green", "empty"]) if rng.random() < 0.97 else "empty"
    n = util.size(rng, 8)
    return {
        "kind": kind,
        "n": n,
        "dim": rng.choice([1, 2, 3, 5, 8]),
        "chain": rng.choice([None, [1, 1.0], [rng.choice([1, 50, 1000]), rng.choice([1e-4, 1e-2, 1.0])]]),
        "long": rng.random() < 0.1,
        "krylov": rng.choice([1, 2, 3, 5, 20, 150]),
        "seed": rng.randint(0, 10**6),
        "op": util.op_case(rng, n, rng.choice([2, 4, 8]), conserving=True),
        "psi": util.psi_case(rng, n, rng.choice([1, 2, 3])),
        "restr": rng.choice([None, None, util.restrictions_case(rng, n)]),
        "delta": rng.choice([0.1, 0.3, -0.2]),
        "e": rng.uniform(-2, 2),
        "mode": rng.choice(["sparse", "dense"]),
        "par": rng.choice(["serial", "H_build"]),
        "store": rng.random() < 0.5,
    }


def nontrivial(case):
    return case["kind"] == "green" or (case["kind"] == "matrix" and case["dim"] > 1)


def lanczos(h, v, k):
    """Reference recurrence with full reorthogonalisation; stops when the space is exhausted."""
    vs, al, be = [v], [], []
    for j in range(min(k, len(v))):
        w = h @ vs[-1]
        al.append(np.vdot(vs[-1], w).real)
        for _ in range(2):
            for x in vs:
                w = w - np.vdot(x, w) * x
        b = np.linalg.norm(w)
        if j + 1 == min(k, len(v)):
            break
        if b < 1e-7:
            return al, be, False
        be.append(b)
        vs.append(w / b)
    return al, be, True


def cf(z, al, be):
    g = np.zeros(len(z), dtype=complex)
    for i in range(len(al) - 1, -1, -1):
        g = 1 / (z - al[i] - (be[i] ** 2 * g if i + 1 < len(al) else 0))
    return g


def run(case):
    g = np.random.default_rng(case["seed"])
    K, delta, e = case["krylov"], case["delta"], case["e"]
    w = np.linspace(-3, 3, 7)
    n = case["n"]
    if case["kind"] == "empty":
        got = spectra.getGreen(n, e, {}, util.hermitian(case["op"]), w, delta, K, 0)
        return None if got.shape == w.shape and np.all(got == 0) else f"empty state gives {got}"
    if case["kind"] == "matrix":
        m = case["dim"]
        tol = 1e-6
        if case.get("chain"):
            # tridiagonal in a permuted basis, weak and strong couplings mixed
            m = 30 if case["long"] else m
            s1, s2 = case["chain"]
            h = np.diag(s1 * g.normal(size=m)).astype(complex)
            for i in range(m - 1):
                h[i, i + 1] = g.choice([s2, 1.0, 10.0]) * np.exp(1j * g.uniform(0, 6)) * g.uniform(0.5, 1.5)
                h[i + 1, i] = np.conj(h[i, i + 1])
            pm = g.permutation(m)
            h, start = h[np.ix_(pm, pm)], int(np.argmin(pm))
            v = np.zeros(m, dtype=complex)
            v[start] = np.exp(1j * g.uniform(0, 6))
            tol = 1e-6 * s1
        else:
            h = v = None
        if h is None:
            h = g.normal(size=(m, m)) + 1j * g.normal(size=(m, m))
            h = h + h.conj().T
            v = g.normal(size=m) + 1j * g.normal(size=m)
            v /= np.linalg.norm(v)
        al, be, full = lanczos(h, v, K)
        if be and min(be) < 1e-2 and not case.get("chain"):
            return None
        for mode in ("sparse", "dense"):
            a, b = util.quiet(finite.get_tridiagonal_krylov_vectors, scipy.sparse.csr_matrix(h), v.copy(), K, mode=mode)
            if len(a) != min(K, m) or len(b) != min(K, m) - 1:
                return f"lengths {len(a)}, {len(b)} for dimension {m}, Krylov size {K}"
            k = min(len(al), len(a))
            if case.get("chain"):
                # rounding errors grow along the recurrence: compare as far as they stay negligible
                est, c = 1e-15, 0
                while c < k and est < 1e-9:
                    est *= 1 + 4 * s1 / be[c] if c < len(be) else 1
                    c += 1
                k = c
            if util.mx(a[:k] - al[:k]) > tol or (k > 1 and util.mx(b[: k - 1] - be[: k - 1]) > tol):
                return f"coefficients {a}, {b}; expected {al}, {be}"
        return None
    op = util.hermitian(case["op"])
    restr = util.restrictions_of(case["restr"])
    psi = util.psi_sets(case["psi"])
    norm = np.sqrt(sum(abs(v) ** 2 for v in psi.values()))
    psi = {o: v / norm for o, v in psi.items()}
    from . import c11

    states, _ = c11.closure(op, list(psi), restr)
    if states is None or len(states) > 300:
        return None
    # restricted operator on the closed space (states of psi may violate the restrictions: columns only)
    idx = {s: i for i, s in enumerate(states)}
    h = np.zeros((len(states), len(states)), dtype=complex)
    for s in states:
        for o, v in ref.op_action(op, s, restr).items():
            if abs(v) ** 2 >= 1e-12:
                h[idx[o], idx[s]] = v
    if util.mx(h - h.conj().T) > 1e-12:
        return None
    v = np.array([psi.get(s, 0) for s in states], dtype=complex)
    al, be, full = lanczos(h, v, K)
    sb = {ref.enc_bytes(o, n): x for o, x in psi.items()}
    keep = dict(sb)
    store = {} if case["store"] else None
    z = w + 1j * delta + e
    try:
        got = util.quiet(
            spectra.getGreen, n, e, sb, op, w, delta, K, 0, restr, store, case["mode"], case["par"]
        )
    except ValueError as err:
        return None if not full and "beta" in str(err) else f"ValueError: {err}"
    if sb != keep:
        return "state modified"
    want = cf(z, al, be)
    if len(al) == len(states) or not full:
        exact = np.array([np.vdot(v, np.linalg.solve(x * np.eye(len(states)) - h, v)) for x in z])
        if util.mx(exact - want) > 1e-6 * max(1, util.mx(exact)):
            return None  # reference itself not accurate
        want = exact
    if got.shape != w.shape or util.mx(got - want) > 1e-5 * max(1, util.mx(want)):
        return f"Green's function {got}, expected {want}"
    if delta > 0 and np.any(got.imag >= 0):
        return "imaginary part not negative"
    return None
