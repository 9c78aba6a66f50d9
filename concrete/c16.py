import numpy as np

from impurityModel.ed import spectra

from . import c11, c15, fakempi, ref, util

RULE = "several states, incoming/outgoing operators and energies, four modes, 1..3 ranks; each value compared with the direct formula; non-trivial: at least two combinations"
COUNT = {"quick": 1800, "thorough": 14400}


def gen(rng):
    n = util.size(rng, 6)
    conserving = rng.random() < 0.5

    def top(kind):
        if conserving:
            return util.op_case(rng, n, rng.choice([1, 2, 3]), conserving=True)
        return [[[[i, kind]], util.amp(rng)] for i in rng.sample(range(n), rng.randint(1, min(3, n)))]

    return {
        "n": n,
        "op": util.op_case(rng, n, rng.choice([2, 4, 6]), conserving=True),
        "tin": [top("a") for _ in range(rng.choice([1, 2]))],
        "tout": [top("c") for _ in range(rng.choice([1, 2, 3]))],
        "psis": [util.psi_case(rng, n, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2]))],
        "es": [rng.uniform(-2, 2) for _ in range(3)],
        "win": [rng.uniform(-2, 2) for _ in range(rng.choice([1, 2, 3]))],
        "restr": rng.choice([None, None, None, util.restrictions_case(rng, n)]),
        "d1": rng.choice([0.5, 1.0]),
        "d2": rng.choice([0.2, 0.4]),
        "ranks": rng.choice([1, 1, 2, 3]),
        "ground": rng.random() < 0.3,
    }


def nontrivial(case):
    return len(case["tin"]) * len(case["tout"]) * len(case["psis"]) * len(case["win"]) > 1


def run(case):
    n, R = case["n"], case["ranks"]
    op = util.hermitian(case["op"])
    tin, tout = [util.op_of(t) for t in case["tin"]], [util.op_of(t) for t in case["tout"]]
    restr = util.restrictions_of(case["restr"])
    psis = [util.psi_sets(p) for p in case["psis"]]
    psib = [{ref.enc_bytes(o, n): v for o, v in p.items()} for p in psis]
    es = tuple(case["es"][: len(psis)])
    win, loss = np.array(case["win"]), np.linspace(-1, 2, 4)
    d1, d2, cut = case["d1"], case["d2"], 1e-7
    want = {}
    for iE, p in enumerate(psis):
        for a, x in enumerate(tin):
            psi1 = {o: v for o, v in ref.apply_op(x, p, restr).items() if abs(v) ** 2 >= 1e-7}
            states, _ = c11.closure(op, list(psi1), restr)
            if states is None or len(states) > 120:
                continue
            idx = {s: i for i, s in enumerate(states)}
            h = np.zeros((len(states),) * 2, dtype=complex)
            for s in states:
                for o, v in ref.op_action(op, s, restr).items():
                    h[idx[o], idx[s]] = v
            y = np.array([psi1.get(s, 0) for s in states], dtype=complex)
            for k, wi in enumerate(win):
                sol = np.linalg.solve((wi + 1j * d1 + es[iE]) * np.eye(len(states)) - h, y) if states else []
                psi2 = {s: sol[i] for s, i in idx.items()}
                for b, t in enumerate(tout):
                    psi3 = {o: v for o, v in ref.apply_op(t, psi2, restr).items() if abs(v) > 1e-4}
                    norm = sum(abs(v) ** 2 for v in psi3.values())
                    g = c15.resolvent(op, n, {o: v / np.sqrt(norm) for o, v in psi3.items()}, es[iE], loss, d2, restr, 150)
                    if g is not None:
                        want[iE, a, b, k] = norm * g
    shape = (len(psis), len(tin), len(tout), len(win), len(loss))
    for mode in ("serial", "wIn", "H_build", "H_build_wIn"):
        if R > 1 and mode == "serial":
            continue
        keep = [dict(p) for p in psib], [dict(t) for t in tin + tout]
        kw = {"h_dict_ground": {}} if case["ground"] else {}
        args = (n, op, tin, tout, psib, es, win, loss, d1, d2, restr)
        try:
            if R == 1:
                outs = [util.quiet(spectra.getRIXSmap, *args, parallelization_mode=mode, **kw)]
            else:
                outs = util.quiet(
                    fakempi.run, R, lambda p, r: p.spectra.getRIXSmap(*args, parallelization_mode=mode, **({"h_dict_ground": {}} if kw else {}))
                )
        except ValueError as err:
            if "beta" in str(err):
                return None
            raise
        if (psib, tin + tout) != (list(keep[0]), list(keep[1])):
            return "states or operators modified"
        for got in outs[:1]:
            if got.shape != shape:
                return f"shape {got.shape}, expected {shape}"
            for key, v in want.items():
                x = got[key]
                # iterative solver: relative tolerance 1e-5 on |psi2>; weights below 1e-7 dropped
                if util.mx(x - v) > 0.02 * max(5e-3, util.mx(v)):
                    return f"{mode}, {R} ranks, (state, in, out, energy) = {key}: {x}, expected {v}"
    return None
