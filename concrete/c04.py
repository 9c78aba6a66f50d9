from impurityModel.ed import finite

from . import ref, util

RULE = "random operators (processes of length 0..6, repeated indices) on random states, with cutoffs; non-trivial: result not empty"
COUNT = {"quick": 20000, "thorough": 160000}


def gen(rng):
    n = util.size(rng, 20)
    exact = rng.random() < 0.4
    return {
        "n": n,
        "op": util.op_case(rng, n, exact=exact),
        "psi": util.psi_case(rng, n, exact=exact),
        "cut": rng.choice([None, None, 0.0, 1e-12, 0.25, 0.0625, 1.0, 4.0]),
        "store": rng.random() < 0.3,
    }


def nontrivial(case):
    return bool(ref.apply_op(util.op_of(case["op"]), util.psi_sets(case["psi"])))


def run(case):
    n = case["n"]
    op, psi = util.op_of(case["op"]), util.psi_bytes(case["psi"], n)
    kw = {} if case["cut"] is None else {"slaterWeightMin": case["cut"]}
    if case["store"]:
        kw["opResult"] = {}
    op0, psi0 = dict(op), dict(psi)
    got = util.decode(finite.applyOp(n, op, psi, **kw), n)
    if list(op.items()) != list(op0.items()):
        return "operator modified"
    if list(psi.items()) != list(psi0.items()):
        return "input state modified"
    want = ref.apply_op(op, util.psi_sets(case["psi"]))
    return util.diff_cut(got, want, 1e-12 if case["cut"] is None else case["cut"])
