import copy

from impurityModel.ed import finite

from . import ref, util

RULE = "histories of operator applications sharing one store; non-trivial: some product state occurs twice in the history"
COUNT = {"quick": 15000, "thorough": 120000}


def gen(rng):
    n = util.size(rng, 14)
    exact = rng.random() < 0.5
    psis = [util.psi_case(rng, n, rng.choice([1, 2, 3, 5]), exact) for _ in range(rng.choice([2, 3, 4]))]
    for k in range(1, len(psis)):
        for o, _ in psis[k - 1]:
            if rng.random() < 0.6 and o not in [p for p, _ in psis[k]]:
                psis[k].insert(rng.randint(0, len(psis[k])), [o, util.amp(rng, exact)])
    for k in range(1, len(psis)):
        if rng.random() < 0.25:
            # a product state seen before
            psis[k] = [[rng.choice(rng.choice(psis[:k]))[0], rng.choice([1, 1.0, util.amp(rng, exact)])]]
    cut = rng.choice([None, 0.0, 0.0, 0.25, 1.0])
    return {
        "n": n,
        "op": util.op_case(rng, n, rng.choice([2, 4, 8]), exact),
        "psis": psis,
        "restr": rng.choice([None, util.restrictions_case(rng, n)]),
        "cuts": [rng.choice([None, 0.0, 0.25, 1.0]) if rng.random() < 0.3 else cut for _ in psis],
    }


def nontrivial(case):
    seen = [tuple(o) for p in case["psis"] for o, _ in p]
    return len(set(seen)) < len(seen)


def run(case):
    n = case["n"]
    op, r = util.op_of(case["op"]), util.restrictions_of(case["restr"])
    store = {}
    for step, pc in enumerate(case["psis"]):
        c = case["cuts"][step]
        cut = 1e-12 if c is None else c
        kw = {} if c is None else {"slaterWeightMin": c}
        psi = util.psi_bytes(pc, n)
        before = copy.deepcopy(store)
        raw = finite.applyOp(n, op, psi, restrictions=r, opResult=store, **kw)
        got = util.decode(raw, n)
        # the caller may change the result (spectra normalise it)
        kept = copy.deepcopy(store)
        for s in raw:
            raw[s] *= 3
        if store != kept:
            return f"step {step}: changing the result changes the stored actions"
        for s in before:
            if store.get(s) != before[s]:
                return f"step {step}: stored action of {sorted(ref.dec_bytes(s, n))} changed"
        extra = set(store) - set(before) - set(psi)
        if extra:
            return f"step {step}: unexpected stored states"
        # expected: exact contribution of every newly computed state, stored (cut) action for remembered ones
        want = {}
        for s, amp in psi.items():
            occ = ref.dec_bytes(s, n)
            exact = ref.op_action(op, occ, r)
            if s not in store:
                return f"step {step}: action of {sorted(occ)} not stored"
            d = None if s in before else util.diff_cut(util.decode(store[s], n), exact, cut)
            if d:
                return f"step {step}: stored action of {sorted(occ)}: {d}"
            use = util.decode(store[s], n) if s in before else exact
            for o, v in use.items():
                want[o] = want.get(o, 0) + amp * v
        d = util.diff_cut(got, want, cut)
        if d:
            return f"step {step}: {d}"
    return None
