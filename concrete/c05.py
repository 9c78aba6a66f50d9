from impurityModel.ed import finite

from . import ref, util

RULE = "random operators and states under random occupation restrictions, with and without a store; non-trivial: some reached product state violates a restriction"
COUNT = {"quick": 20000, "thorough": 160000}


def gen(rng):
    n = util.size(rng, 18)
    exact = rng.random() < 0.4
    r = util.restrictions_case(rng, n)
    psi = util.psi_case(rng, n, exact=exact)
    if r and psi and rng.random() < 0.5:
        # limits close to the occupation actually present
        for x in r:
            k = len(set(x[0]) & set(psi[0][0]))
            x[1], x[2] = rng.choice([(k, k), (k, k + 1), (max(0, k - 1), k), (k + 1, k + 1), (0, max(0, k - 1))])
    return {"n": n, "op": util.op_case(rng, n, rng.choice([2, 4, 8]), exact), "psi": psi, "restr": r, "cut": rng.choice([None, 0.0, 0.25])}


def nontrivial(case):
    r = util.restrictions_of(case["restr"])
    return any(not ref.allowed(o, r) for o in ref.apply_op(util.op_of(case["op"]), util.psi_sets(case["psi"])))


def run(case):
    n = case["n"]
    op, r = util.op_of(case["op"]), util.restrictions_of(case["restr"])
    cut = 1e-12 if case["cut"] is None else case["cut"]
    want = ref.apply_op(op, util.psi_sets(case["psi"]), r)
    for store in (None, {}):
        psi = util.psi_bytes(case["psi"], n)
        r0 = dict(r)
        got = util.decode(finite.applyOp(n, op, psi, cut, r, store), n)
        if r != r0:
            return "restrictions modified"
        bad = [o for o in got if not ref.allowed(o, r)]
        if bad:
            return f"forbidden product state {sorted(bad[0])} in the result"
        d = util.diff_cut(got, want, cut)
        if d:
            return f"{'with' if store is not None else 'without'} store: {d}"
        for s, res in (store or {}).items():
            for o in util.decode(res, n):
                if not ref.allowed(o, r):
                    return f"forbidden product state {sorted(o)} remembered"
    return None
