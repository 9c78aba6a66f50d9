"""C25: assembled Hamiltonian and double counting, all parameters symbolic."""
from .base import *
from . import opalg as oa
from .c18 import coulomb_pd
from .c19 import soc, field
from . import c24

GS = ED + ".get_spectra"
CF = c24.CF
FIN = ED + ".finite"
SZERO, SONE = sc.SZERO, sc.SONE


def dc(n3, c, Fdd, Fpd, Gpd):
    U = Fdd[0] - c24.frac("14/441") * (Fdd[2] + Fdd[4])
    V = Fpd[0] - c24.frac("1/15") * Gpd[1] - c24.frac("3/70") * Gpd[3]
    n3 = Scalar.of(n3)
    return U * n3 + V * 6 - c, V * (n3 + 1) - c


def par_sets():
    return params("Fdd", 5), params("Fpp", 3), params("Fpd", 3), params("Gpd", 4)


def label_index(nb):
    """[(l, number)] -> {label: index}: impurity shells in order, then the baths in order"""
    out, i = {}, 0
    for l, _ in nb:
        for s in range(2):
            for m in range(-l, l + 1):
                out[l, s, m] = i
                i += 1
    for l, n in nb:
        for b in range(n):
            out[l, b] = i
            i += 1
    return out


def relabel(ts, idx):
    return [(tuple((idx[x], a) for x, a in p), v) for p, v in ts]


def hermitian_h0(labels):
    """every pair of labels, arbitrary values v_ij = conj(v_ji), arbitrary symmetric presence"""
    d = {}
    for i, x in enumerate(labels):
        for j, y in enumerate(labels):
            if j < i:
                continue
            v = sc.par("v_%d_%d" % (i, j), real=i == j)
            has = z3.Bool("h0_%d_%d" % (i, j))
            d[(x, "c"), (y, "a")] = (has, v)
            if i != j:
                d[(y, "c"), (x, "a")] = (has, v.conj())
    return d


def build(ck):
    ck.assume_note("pickle.load returns the one-particle operator stored in the file; json.load(s) the parameter dictionary")
    ck.assume_note("sympy.physics.wigner.gaunt is exact (see C18); floats are exact reals")
    Fdd, Fpp, Fpd, Gpd = par_sets()
    c = sc.par("c", real=True)
    xi = [sc.par("xi2p", real=True), sc.par("xi3d", real=True)]
    h = params("h", 3)

    # ---- double counting
    def fdc(args, kw):
        return lambda vm: (vm.function(FIN, "dc_MLFT"), args(vm), kw(vm))

    def n3sym(vm):
        vm.n3 = smt.fresh_int("n3")
        vm.assume(z3.And(0 <= vm.n3, vm.n3 <= 10))
        return vm.n3

    def post2(vm, v):
        items = vm.concrete_items(v)
        if items is None or len(items) != 2:
            return [("form", "undecided", "not two values")]
        want = dc(vm.n3, c, Fdd, Fpd, Gpd)
        return [("%s shift" % l, *c24.same(vm, c24.value(vm, x), w)) for l, (_, x), w in zip(("3d", "2p"), items, want)]
    run1(ck, "C25.dc_MLFT.2p and 3d", "finite.dc_MLFT",
         fdc(lambda vm: [n3sym(vm), c, tuple(Fdd)], lambda vm: {"n2p_i": 6, "Fpd": tuple(Fpd), "Gpd": tuple(Gpd)}), post2)

    def post1(vm, v):
        U = Fdd[0] - c24.frac("14/441") * (Fdd[2] + Fdd[4])
        return [("3d shift", *c24.same(vm, c24.value(vm, v), U * Scalar.of(vm.n3) - c))]
    run1(ck, "C25.dc_MLFT.3d only", "finite.dc_MLFT", fdc(lambda vm: [n3sym(vm), c, tuple(Fdd)], lambda vm: {}), post1)

    half = c24.frac("1/2")
    for tag, n3, kw in [("3d not an integer", half, {}), ("3d 17/2", half * 17, dict(n2p_i=6, Fpd=tuple(Fpd), Gpd=tuple(Gpd))),
                        ("2p not an integer", 8, dict(n2p_i=half * 13, Fpd=tuple(Fpd), Gpd=tuple(Gpd))),
                        ("2p not 6", 8, dict(n2p_i=5, Fpd=tuple(Fpd), Gpd=tuple(Gpd))),
                        ("Fpd missing", 8, dict(n2p_i=6, Gpd=tuple(Gpd))), ("Gpd missing", 8, dict(n2p_i=6, Fpd=tuple(Fpd))),
                        ("2p without integrals", 8, dict(n2p_i=6)), ("integrals without 2p", 8, dict(Fpd=tuple(Fpd), Gpd=tuple(Gpd)))]:
        rejects(ck, "C25.dc_MLFT.rejects %s" % tag, "finite.dc_MLFT", fdc(lambda vm, n3=n3: [n3, c, tuple(Fdd)], lambda vm, kw=kw: kw))

    # ---- assembly
    for nb in ([(1, 0), (2, 10)], [(2, 10), (1, 2)], [(1, 0), (2, 20)]):
        idx = label_index(nb)
        for kind in ("pickle", "cf"):
            if kind == "cf" and nb == [(2, 10), (1, 2)]:
                nb = [(2, 20), (1, 2)]
                idx = label_index(nb)
            labels = [(2, 0, -1), (2, 1, 2), (2, 3), (2, 9), (1, 0, 0)]
            h0 = hermitian_h0(labels)
            P = {k: sc.par("p_" + k, real=True) for k in c24.DEFAULTS}

            def call(vm, nb=nb, kind=kind, h0=h0, P=P):
                if kind == "cf":
                    name = c24.file_params(vm, P)
                    f = vm.function(CF, "get_hamiltonian_operator_using_CF")
                else:
                    ref = vm.alloc(DictObj({k: (has, k, v) for k, (has, v) in h0.items()}))
                    vm.files = {"h0.pickle": ("pickle", ref)}
                    name = "h0.pickle"
                    f = vm.function(GS, "get_hamiltonian_operator")
                nbd = ordered_dict(vm, nb)
                nv = ordered_dict(vm, [(l, 10 if l == 2 else n) for l, n in nb])
                n0 = ordered_dict(vm, [(1, 6), (2, n3sym(vm))])
                return (f, [nbd, nv, vm.alloc(ListObj([tuple(Fdd), tuple(Fpp), tuple(Fpd), tuple(Gpd)])),
                            vm.alloc(ListObj(list(xi))), vm.alloc(ListObj([n0, c])), tuple(h), name], {})

            def post(vm, v, nb=nb, kind=kind, h0=h0, P=P, idx=idx):
                ts = oa.terms(vm, v)
                e = dict(zip((2, 1), dc(vm.n3, c, Fdd, Fpd, Gpd)))
                want = coulomb_pd(Fdd, Fpp, Fpd, Gpd) + field(h, 2) + soc(xi[0], 1) + soc(xi[1], 2)
                want += [((((l, s, m), "c"), ((l, s, m), "a")), -e[l]) for l in (1, 2) for s in range(2) for m in range(-l, l + 1)]
                if kind == "cf":
                    want = want + c24.expected(P, dict(nb)[2] == 20, None)
                else:
                    want = want + [(p, sc.mask(has, x)) for p, (has, x) in h0.items()]
                bad = [p for p, x in ts for i, a in p if not isinstance(i, int) or a not in ("c", "a")]
                return [("sum of all terms", *oa.equal_ops(ts, relabel(want, idx))),
                        ("indices only", "refuted" if bad else "proved", str(bad[:1]))]
            run1(ck, "C25.%s.%s" % (kind, nb), "get_spectra.get_hamiltonian_operator", call, post)

    # ---- rejection of a non-Hermitian one-particle part
    def nonherm(vm):
        v, w = sc.par("x"), sc.par("y")
        a, b = (2, 0, 0), (2, 4)
        vm.assume(sc.as_z3(sc.cond_nz(v - w.conj())))
        ref = vm.alloc(DictObj({k: (True, k, x) for k, x in {((a, "c"), (b, "a")): v, ((b, "c"), (a, "a")): w}.items()}))
        vm.files = {"h0.pickle": ("pickle", ref)}
        nb = [(1, 0), (2, 10)]
        return (vm.function(GS, "get_hamiltonian_operator"),
                [ordered_dict(vm, nb), ordered_dict(vm, nb), vm.alloc(ListObj([tuple(Fdd), tuple(Fpp), tuple(Fpd), tuple(Gpd)])),
                 vm.alloc(ListObj(list(xi))), vm.alloc(ListObj([ordered_dict(vm, [(1, 6), (2, 8)]), c])), tuple(h), "h0.pickle"], {})
    rejects(ck, "C25.non-Hermitian one-particle part rejected", "get_spectra.get_hamiltonian_operator", nonherm)
