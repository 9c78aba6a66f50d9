from impurityModel.ed import finite

from . import ref, util

RULE = "random operators: conjugate, double conjugate, adjointness, Hermiticity check; non-trivial: operator not empty"
COUNT = {"quick": 15000, "thorough": 120000}


def gen(rng):
    n = util.size(rng, 10)
    return {
        "n": n,
        "op": util.op_case(rng, n),
        "make": rng.choice(["any", "herm", "herm", "nearly", "phase"]),
        "x": util.psi_case(rng, n, 3),
        "y": util.psi_case(rng, n, 3),
        "pick": rng.random(),
    }


def nontrivial(case):
    return bool(case["op"])


def run(case):
    n = case["n"]
    op = util.op_of(case["op"])
    if case["make"] != "any":
        op = util.hermitian(case["op"])
        if op:
            k = sorted(op, key=repr)[int(case["pick"] * len(op))]
            if case["make"] == "nearly":
                op[k] = op[k] + 1e-9
            elif case["make"] == "phase":
                op[k] = op[k] * 1j
    keep = dict(op)
    got = finite.daggerOp(op)
    if op != keep or list(op) != list(keep):
        return "operator modified"
    want = ref.dagger(op)
    if set(got) != set(want) or any(complex(got[k]) != want[k] for k in want):
        return f"daggerOp({op}) = {got}, expected {want}"
    back = finite.daggerOp(got)
    if set(back) != set(op) or any(complex(back[k]) != complex(op[k]) for k in op):
        return f"double conjugation of {op} gives {back}"
    x, y = util.psi_bytes(case["x"], n), util.psi_bytes(case["y"], n)
    lhs = finite.inner(x, finite.applyOp(n, op, y, 0))
    rhs = finite.inner(finite.applyOp(n, got, x, 0), y)
    if not util.close(lhs, rhs):
        return f"<x|Oy> = {lhs}, <O+x|y> = {rhs}"
    herm = {k: complex(v) for k, v in op.items()} == want
    try:
        finite.assert_hermitian(op)
        ok = True
    except AssertionError:
        ok = False
    if ok != herm:
        return f"assert_hermitian {'accepts' if ok else 'rejects'} {op}"
    if op != keep:
        return "operator modified by the check"
    for bad in ({((0, "x"),): 1.0},):
        try:
            finite.daggerOp(bad)
            return "unknown action accepted"
        except Exception:
            pass
    return None
