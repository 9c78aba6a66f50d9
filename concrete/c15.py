import numpy as np

from impurityModel.ed import spectra

from . import c11, c14, fakempi, ref, util

RULE = "several states and operators, both modes, 1..3 ranks, entries compared with resolvent of each excited state; non-trivial: at least two operators or states"
COUNT = {"quick": 6000, "thorough": 48000}


def gen(rng):
    n = util.size(rng, 8)
    return {
        "n": n,
        "op": util.op_case(rng, n, rng.choice([2, 4, 7]), conserving=True),
        "tops": [util.op_case(rng, n, rng.choice([0, 1, 1, 2, 3])) for _ in range(rng.choice([1, 2, 3]))],
        "psis": [util.psi_case(rng, n, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2, 3]))],
        "es": [rng.uniform(-2, 2) for _ in range(3)],
        "restr": rng.choice([None, None, util.restrictions_case(rng, n)]),
        "delta": rng.choice([0.2, -0.3]),
        "ranks": rng.choice([1, 1, 2, 3]),
        "krylov": rng.choice([None, None, 2, 4]),
        "cut": rng.choice([None, None, 0.0, 0.3]),
    }


def nontrivial(case):
    return len(case["tops"]) * len(case["psis"]) > 1


def resolvent(op, n, psi, e, w, delta, restr, K):
    """<psi|((w+i delta+e) - H)^-1|psi> of a normalised state; None if not decidable."""
    if not psi:
        return np.zeros(len(w), dtype=complex)
    states, _ = c11.closure(op, list(psi), restr)
    if states is None or len(states) > 250:
        return None
    idx = {s: i for i, s in enumerate(states)}
    h = np.zeros((len(states), len(states)), dtype=complex)
    for s in states:
        for o, v in ref.op_action(op, s, restr).items():
            if abs(v) ** 2 >= 1e-12:
                h[idx[o], idx[s]] = v
    if util.mx(h - h.conj().T) > 1e-12:
        return None
    v = np.array([psi.get(s, 0) for s in states], dtype=complex)
    al, be, full = c14.lanczos(h, v, K)
    return c14.cf(np.asarray(w) + 1j * delta + e, al, be)


def excite(top, psi, restr, cut):
    out = ref.apply_op(top, psi, restr)
    for v in out.values():
        w = abs(v) ** 2
        if cut and 0.5 * cut < w < 2 * cut:
            return None, None
    out = {o: v for o, v in out.items() if not (abs(v) ** 2 < cut)}
    out = {o: v for o, v in out.items() if abs(v) > 1e-13}
    norm = sum(abs(v) ** 2 for v in out.values())
    return {o: v / np.sqrt(norm) for o, v in out.items()}, norm


def run(case):
    n, R = case["n"], case["ranks"]
    op = util.hermitian(case["op"])
    tops = [util.op_of(t) for t in case["tops"]]
    restr = util.restrictions_of(case["restr"])
    psis = [util.psi_sets(p) for p in case["psis"]]
    psib = [{ref.enc_bytes(o, n): v for o, v in p.items()} for p in psis]
    es = tuple(case["es"][: len(psis)])
    w = np.linspace(-2, 2, 5)
    delta = case["delta"]
    K = case["krylov"] or 150
    cut = 1e-7 if case["cut"] is None else case["cut"]
    kw = {}
    if case["krylov"]:
        kw["krylovSize"] = K
    if case["cut"] is not None:
        kw["slaterWeightMin"] = cut
    want = np.zeros((len(psis), len(tops), len(w)), dtype=complex)
    skip = set()
    for i, p in enumerate(psis):
        for t, top in enumerate(tops):
            # The store of the H_build mode drops contributions below the cutoff: only clear cases are compared
            small = any(0 < abs(v) ** 2 < 2 * cut for o in p for v in ref.op_action(top, o, restr).values())
            x, norm = excite(top, p, restr, cut)
            g = None if x is None or small else resolvent(op, n, x, es[i], w, delta, restr, K)
            if g is None:
                skip.add((i, t))
            else:
                want[i, t] = norm * g
    for mode in ("eigen_states", "H_build"):
        keep = [dict(p) for p in psib], [dict(t) for t in tops]
        try:
            if R == 1:
                outs = [util.quiet(spectra.getSpectra, n, op, tops, psib, es, w, delta, restr, parallelization_mode=mode, **kw)]
            else:
                outs = util.quiet(
                    fakempi.run, R, lambda p, r: p.spectra.getSpectra(n, op, tops, psib, es, w, delta, restr, parallelization_mode=mode, **kw)
                )
        except ValueError as err:
            if "beta" in str(err):
                return None
            raise
        if (psib, tops) != (list(keep[0]), list(keep[1])):
            return "states or operators modified"
        for r, got in enumerate(outs if mode == "eigen_states" else outs[:1]):
            if got.shape != want.shape:
                return f"shape {got.shape}, expected {want.shape}"
            for i in range(len(psis)):
                for t in range(len(tops)):
                    if (i, t) in skip:
                        continue
                    if util.mx(got[i, t] - want[i, t]) > 1e-4 * max(1e-3, util.mx(want[i, t])):
                        return f"{mode}, {R} ranks, state {i}, operator {t}: {got[i, t]}, expected {want[i, t]}"
    return None
