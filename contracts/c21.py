"""C21: density matrix of a shell, its cubic form, eg/t2g occupations; arbitrary states, symbolic bath counts."""
from .base import *
from .c03 import psi_map, zero, summand
from .c20 import spec, shell_idx, amp_hop, MOD, SPECS
from . import c24, states
from . import opalg as oa

T, F = z3.BoolVal(True), z3.BoolVal(False)


def labels(l):
    return [(l, s, m) for s in range(2) for m in range(-l, l + 1)]


def expect(D, i, j):
    """<psi| c_i^+ c_j |psi>"""
    return states.total(lambda X: sc.ind(D(X)) * sc.app("psi", X).conj() * amp_hop("psi", D, X, i, j))


def entries(vm, ref):
    """{key: (presence, value)} of a dictionary with concrete keys"""
    o = vm.get(ref) if isinstance(ref, Ref) else None
    if not isinstance(o, DictObj):
        raise Unsupported("not a dictionary with concrete keys")
    return {k: (p, Scalar.of(vm.as_scalar(v))) for k, (p, _, v) in o.d.items()}


def matrix(vm, v):
    a = vm.get(v)
    if not isinstance(a, NdObj):
        raise Unsupported("not an array")
    return [[Scalar.of(vm.as_scalar(x)) for x in row] for row in a.a]


def allzero(vm, xs):
    out = ("proved", "")
    for x in xs:
        out = worst(out, zero(vm, x))
    return out


def present(p):
    return sc.SONE if p is True else sc.ind(p)


def dm_rows(vm, es, want):
    rows = [("no other elements", "proved" if set(es) <= set(want) else "refuted", "")]
    st = ("proved", "")
    for k, w in want.items():
        got = present(es[k][0]) * es[k][1] if k in es else sc.SZERO
        st = worst(st, zero(vm, got - w))
    return rows + [("every element", *st)]


def build(ck):
    S = {}
    ck.assume_note("floats are exact real/complex numbers")
    # the transformation
    for l in (1, 2):
        for spin in (False, True):
            def thunk(vm, l=l, spin=spin):
                return vm.function(MOD, "get_spherical_2_cubic_matrix"), [], {"l": l, "spinpol": spin}

            def post(vm, v, l=l, spin=spin):
                u = matrix(vm, v)
                n = len(u)
                k = 2 * l + 1
                if n != (2 * k if spin else k) or any(len(r) != n for r in u):
                    return [("shape", "refuted", "")]
                rows = [("unitary", *allzero(vm, [sum((u[m][i].conj() * u[m][j] for m in range(n)), sc.SZERO)
                                                  - (1 if i == j else 0) for i in range(n) for j in range(n)]))]
                cub = c24.cubic(l)
                dev = []
                for b in range(2 if spin else 1):
                    for j in range(k):
                        ov = sum((cub[m, j].conj() * u[b * k + m + l][b * k + j] for m in range(-l, l + 1) if (m, j) in cub), sc.SZERO)
                        dev.append(ov * ov.conj() - 1)
                rows.append(("columns are the cubic harmonics, spin by spin", *allzero(vm, dev)))
                return rows
            run1(ck, "C21.matrix l=%d%s" % (l, " with spin" if spin else ""), "finite.get_spherical_2_cubic_matrix", thunk, post)

    # spherical density matrix
    for ls in SPECS:
        for l in [x for x in ls if x in (0, 1, 2)] + [None]:
            def thunk(vm, ls=ls, l=l):
                states.use(vm)
                nb = spec(vm, ls)
                psi, D = psi_map(vm, "psi")
                S.update(psi=psi, D=D)
                return vm.function(MOD, "getDensityMatrix"), [nb, psi], {} if l is None else {"l": l}

            def post(vm, v, ls=ls, l=l):
                L = 2 if l is None else l
                ix = {x: shell_idx(ls, *x) for x in labels(L)}
                return dm_rows(vm, entries(vm, v), {(x, y): expect(S["D"], ix[y], ix[x]) for x in labels(L) for y in labels(L)})
            run1(ck, "C21.getDensityMatrix%s%s" % (ls, "" if l is None else " l=%d" % l), "finite.getDensityMatrix", thunk, post)

    # Hermitian: <c_j^+ c_i> and conj <c_i^+ c_j> are sums over product states whose terms agree under the exchange of
    # the occupations of i and j (a one-to-one map)
    def go():
        vm = Vm()
        n = smt.fresh_int("n")
        vm.state_n = n
        i, j = smt.fresh_int("i"), smt.fresh_int("j")
        vm.assume(z3.And(n >= 1, 0 <= i, i < j, j < n))
        D = z3.Function("psi!in", smt.Arr, z3.BoolSort())
        X = fresh_state(vm, "X")

        def term(a, b, X):
            return sc.ind(D(X)) * sc.app("psi", X).conj() * amp_hop("psi", D, X, a, b)
        # c_i^+ c_j contributes at X with i filled, j empty; its partner is Y with i empty, j filled
        Y = z3.Store(z3.Store(X, i, F), j, T)
        cond = z3.And(z3.Select(X, i), z3.Not(z3.Select(X, j)))
        return [("terms agree", *zero(vm, term(i, j, X) - term(j, i, Y).conj(), cond)),
                ("no other terms", *zero(vm, term(i, j, X), z3.Not(cond)))]
    ck.run("C21.hermitian", "specification", go)

    # trace: <c_i^+ c_i> is the occupation
    def go():
        vm = Vm()
        n = smt.fresh_int("n")
        vm.state_n = n
        i = smt.fresh_int("i")
        vm.assume(z3.And(n >= 1, 0 <= i, i < n))
        D = z3.Function("psi!in", smt.Arr, z3.BoolSort())
        X = fresh_state(vm, "X")
        w = sc.ind(z3.And(D(X), z3.Select(X, i))) * sc.app("psi", X)
        return [("", *zero(vm, amp_hop("psi", D, X, i, i) - w))]
    ck.run("C21.diagonal elements are occupations", "specification", go)

    # cubic density matrix of an arbitrary spherical one
    def thunk(vm):
        vm.merge_all = True
        nb = spec(vm, [1, 2])
        psi, D = psi_map(vm, "psi")
        has = {}
        d = {}
        for x in labels(2):
            for y in labels(2):
                tag = "_".join(map(str, x + y))
                has[x, y] = z3.Bool("has" + tag)
                d[x, y] = (has[x, y], (x, y), sc.par("n" + tag, real=False))
        ref = vm.alloc(DictObj(d))
        S["n"] = {k: sc.ind(has[k]) * d[k][2] for k in d}

        def contract(vm, bound):
            b, p, l = list(bound.values())[:3]
            if b != nb or p != psi or l != 2:
                raise Unsupported("density matrix of something else")
            return ref
        vm.contracts[MOD, "getDensityMatrix"] = contract
        S["u"] = matrix(vm, vm.call(vm.function(MOD, "get_spherical_2_cubic_matrix"), [], {}))
        return vm.function(MOD, "getDensityMatrixCubic"), [nb, psi], {}

    def post(vm, v):
        u, n = S["u"], S["n"]
        want = {}
        for s in range(2):
            for t in range(2):
                for i in range(5):
                    for j in range(5):
                        w = sc.SZERO
                        for k in range(5):
                            for m in range(5):
                                w = w + u[m][i].conj() * n[(2, s, m - 2), (2, t, k - 2)] * u[k][j]
                        want[(s, i), (t, j)] = w
        return dm_rows(vm, entries(vm, v), want)
    run1(ck, "C21.getDensityMatrixCubic", "finite.getDensityMatrixCubic", thunk, post)

    # eg / t2g occupations
    for ls in SPECS[:2]:
        def thunk(vm, ls=ls):
            states.use(vm)
            nb = spec(vm, ls)
            psi, D = psi_map(vm, "psi")
            S.update(D=D)
            S["u"] = matrix(vm, vm.call(vm.function(MOD, "get_spherical_2_cubic_matrix"), [], {}))
            return vm.function(MOD, "getEgT2gOccupation"), [nb, psi], {}

        def post(vm, v, ls=ls):
            items = vm.concrete_items(v)
            if items is None or len(items) != 4:
                return [("four values", "refuted", "")]
            u, D = S["u"], S["D"]
            rows = []
            for q, (orbs, s) in enumerate([((0, 1), 0), ((0, 1), 1), ((2, 3, 4), 0), ((2, 3, 4), 1)]):
                w = sc.SZERO
                for i in orbs:
                    for j in range(5):
                        for k in range(5):
                            f = u[j][i] * u[k][i].conj()
                            if f.t:
                                w = w + f * expect(D, shell_idx(ls, 2, s, j - 2), shell_idx(ls, 2, s, k - 2))
                x = Scalar.of(vm.as_scalar(items[q][1]))
                d = x - w
                rows.append(("%s spin %d" % ("eg" if q < 2 else "t2g", s), *zero(vm, d + d.conj())))
            return rows
        run1(ck, "C21.getEgT2gOccupation%s" % ls, "finite.getEgT2gOccupation", thunk, post)
