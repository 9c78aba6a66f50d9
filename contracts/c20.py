"""C20: angular-momentum operators and expectation values of the 3d shell, arbitrary states, symbolic bath counts."""
from .base import *
from .c03 import psi_map, value_at, zero, sgn
from . import opalg as oa
from . import states

MOD = ED + ".finite"
T, F = z3.BoolVal(True), z3.BoolVal(False)
SPECS = ([2], [1, 2], [2, 1], [0, 2], [2, 3])


def shell_idx(ls, l, s, m):
    """impurity shells in the given order; spin down first, m ascending"""
    return sum(2 * (2 * k + 1) for k in ls[:ls.index(l)]) + (2 * l + 1) * s + m + l


def idx(ls, s, m):
    return shell_idx(ls, 2, s, m)


def spec(vm, ls):
    nbs = []
    n = z3.IntVal(sum(2 * (2 * l + 1) for l in ls))
    for l in ls:
        nb = smt.fresh_int("nb")
        vm.assume(nb >= 0)
        nbs.append((l, nb))
        n = n + nb
    vm.state_n = z3.simplify(n)
    return ordered_dict(vm, nbs)


def amp_hop(psi, D, B, i, j):
    """amplitude of B in c_i^+ c_j |psi>"""
    A0 = z3.Store(B, i, F)
    A = z3.Store(A0, j, T)
    return (sc.ind(z3.And(z3.Select(B, i), z3.Not(z3.Select(A0, j)), D(A))) * sc.app(psi, A) * sgn(A0, j) * sgn(B, i))


def hops(op, ls):
    """matrix elements of the operator: [(to, from, strength)]"""
    out = []
    for s in range(2):
        for m in range(-2, 3):
            i = idx(ls, s, m)
            if op == "Sz":
                out.append((i, i, sc.HALF * (2 * s - 1)))
            if op == "Lz" and m:
                out.append((i, i, Scalar.of(m)))
            if op == "S+" and s == 0:
                out.append((idx(ls, 1, m), i, Scalar.of(1)))
            if op == "S-" and s == 1:
                out.append((idx(ls, 0, m), i, Scalar.of(1)))
            if op == "L+" and m < 2:
                out.append((idx(ls, s, m + 1), i, oa.sqrt_int((2 - m) * (2 + m + 1))))
            if op == "L-" and m > -2:
                out.append((idx(ls, s, m - 1), i, oa.sqrt_int((2 + m) * (2 - m + 1))))
    return out


NAMES = {"applySz3d": "Sz", "applyLz3d": "Lz", "applySplus3d": "S+", "applySminus3d": "S-", "applyLplus3d": "L+",
         "applyLminus3d": "L-"}


def build(ck):
    S = {}
    for ls in SPECS:
        for f, op in NAMES.items():
            def thunk(vm, ls=ls, f=f):
                states.use(vm)
                nb = spec(vm, ls)
                psi, D = psi_map(vm, "psi")
                S.update(psi=psi, D=D)
                return vm.function(MOD, f), [nb, psi], {}

            def post(vm, value, ls=ls, op=op):
                D = S["D"]
                B = fresh_state(vm, "B")
                v, d = value_at(vm, value, B)
                want = sc.SZERO
                for i, j, w in hops(op, ls):
                    want = want + w * amp_hop("psi", D, B, i, j)
                w, dw = value_at(vm, S["psi"], B)
                return [("amplitude of every product state", *zero(vm, v - want)),
                        ("argument unchanged", *zero(vm, w - sc.ind(D(B)) * sc.app("psi", B)))]
            run1(ck, "C20.%s%s" % (f, ls), "finite." + f, thunk, post)

    # expectation values of the diagonal operators
    def diag(f, weight, l=None):
        def one(ls, l):
            def thunk(vm):
                vm.merge_all = f == "getTraceDensityMatrix"
                nb = spec(vm, ls)
                psi, D = psi_map(vm, "psi")
                S.update(psi=psi, D=D)
                return vm.function(MOD, f), [nb, psi], ({} if l is None else {"l": l})

            def post(vm, value):
                D = S["D"]
                X = smt.fresh_arr("X")
                w = sc.SZERO
                L = 2 if l is None else l
                for s in range(2):
                    for m in range(-L, L + 1):
                        w = w + sc.ind(z3.Select(X, shell_idx(ls, L, s, m))) * weight(s, m)
                p = sc.app("psi", X)
                return [("expectation value", *zero(vm, Scalar.of(vm.as_scalar(value)) - sc.Sum(X, sc.ind(D(X)) * p * p.conj() * w)))]
            run1(ck, "C20.%s%s%s" % (f, ls, "" if l is None else " l=%d" % l), "finite." + f, thunk, post)
        for ls in SPECS:
            for k in ([None] if l is None else [None] + ls):
                one(ls, k)
    diag("getLz3d", lambda s, m: Scalar.of(m))
    diag("getSz3d", lambda s, m: sc.HALF * (2 * s - 1))
    diag("getTraceDensityMatrix", lambda s, m: Scalar.of(1), l=True)

    # squares: sums of squared norms of the component operators (their contracts are above)
    for f, parts in (("getSsqr3d", ("applySz3d", "applySplus3d", "applySminus3d")),
                     ("getLsqr3d", ("applyLz3d", "applyLplus3d", "applyLminus3d"))):
        def thunk(vm, f=f, parts=parts):
            states.use(vm)
            nb = spec(vm, [1, 2])
            psi, D = psi_map(vm, "psi")
            for g in NAMES:
                def contract(vm, bound, g=g):
                    b, p = list(bound.values())[:2]
                    if b != nb or p != psi:
                        raise Unsupported("component operator applied to something else")
                    return psi_map(vm, NAMES[g])[0]
                vm.contracts[MOD, g] = contract
            return vm.function(MOD, f), [nb, psi], {}

        def post(vm, value, parts=parts):
            want = sc.SZERO
            for g, w in zip(parts, (Scalar.of(1), sc.HALF, sc.HALF)):
                D = z3.Function(NAMES[g] + "!in", smt.Arr, z3.BoolSort())
                want = want + w * states.total(lambda X: sc.ind(D(X)) * sc.app(NAMES[g], X).conj() * sc.app(NAMES[g], X))
            return [("sum of squared norms", *zero(vm, Scalar.of(vm.as_scalar(value)) - want))]
        run1(ck, "C20." + f, "finite." + f, thunk, post)

    from . import printing
    printing.table(ck, "C20")
