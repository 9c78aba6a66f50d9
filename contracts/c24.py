"""C24: crystal-field Hamiltonian, all parameter values symbolic."""
from fractions import Fraction
from .base import *
from . import opalg as oa
from pyvc.num import Num

CF = ED + ".get_spectra_using_CF"
FIN = ED + ".finite"
DEFAULTS = {
    "e_imp": "-1.31796", "e_deltaO_imp": "0.60422", "e_val_eg": "-4.4", "e_val_t2g": "-6.5", "e_con_eg": "3",
    "e_con_t2g": "2", "v_val_eg": "1.883", "v_val_t2g": "1.395", "v_con_eg": "0.6", "v_con_t2g": "0.4",
}


def frac(s):
    return Scalar.of(Num({(1, 0, 0): Fraction(s)}))


def cubic(l):
    """{(m, cubic index): coefficient} of the documented cubic harmonics"""
    r = oa.sqrt_int(2).inverse()
    i = sc.SI
    if l == 2:
        return {(0, 0): SONE, (-2, 1): r, (2, 1): r, (-1, 2): -i * r, (1, 2): -i * r, (-1, 3): r, (1, 3): -r,
                (-2, 4): i * r, (2, 4): -i * r}
    return {(-1, 0): i * r, (1, 0): i * r, (-1, 1): r, (1, 1): -r, (0, 2): SONE}


SONE, SZERO = sc.SONE, sc.SZERO


def level(eg, t2g):
    return [eg, eg, t2g, t2g, t2g]


def expected(P, con, bath):
    """operator from parameters (dict of Scalars): impurity cubic orbital k is sum_m u_mk |m>"""
    u = cubic(2)
    out = []
    imp = lambda s, k: [((2, s, m), u[m, k]) for m in range(-2, 3) if (m, k) in u]

    def orb(off, s, k):
        if bath == "cubic":
            return [((2, off + 5 * s + k), SONE)]
        return [((2, off + 5 * s + m + 2), u[m, k]) for m in range(-2, 3) if (m, k) in u]

    def term(A, B, e):       # e |A><B|
        for a, x in A:
            for b, y in B:
                out.append((((a, "c"), (b, "a")), e * x * y.conj()))

    d = P["e_deltaO_imp"]
    e_imp = level(P["e_imp"] + frac("3/5") * d, P["e_imp"] - frac("2/5") * d)
    for s in range(2):
        for k in range(5):
            term(imp(s, k), imp(s, k), e_imp[k])
            for kind, off in (("val", 0), ("con", 10))[: 2 if con else 1]:
                e = level(P["e_%s_eg" % kind], P["e_%s_t2g" % kind])[k]
                v = level(P["v_%s_eg" % kind], P["v_%s_t2g" % kind])[k]
                b = orb(off, s, k)
                term(b, b, e)
                term(b, imp(s, k), v)
                term(imp(s, k), b, v)
    return out


def file_params(vm, given):
    """content of the file: given maps name -> Scalar"""
    ref = ordered_dict(vm, list(given.items()))
    vm.files = {"cf.json": ("json", ref)}
    return "cf.json"


def value(vm, v):
    return Scalar.of(vm.as_scalar(v))


def same(vm, a, b):
    d = a - b
    r = True if not d.t else sc.is_zero(d, vm.asms())
    return ("proved", "") if r is True else ("refuted" if r is False else "undecided", "got %s, specified %s" % (short(a), short(b)))


def cases():
    names = list(DEFAULTS)
    yield "all given", names
    yield "none given", []


def build(ck):
    ck.assume_note("json.load(s) of the parameter file yields the dictionary of its (real) values; floats are exact reals")
    ck.assume_note("numpy array operations follow the contracts of pyvc/nd.py")
    u2 = {}
    for l in (1, 2):
        def postu(vm, v, l=l):
            o = vm.get(v)
            want = cubic(l)
            if not isinstance(o, NdObj) or o.a.shape != (2 * l + 1, 2 * l + 1):
                return [("shape", "undecided", str(type(o)))]
            rows = []
            for m in range(-l, l + 1):
                for k in range(2 * l + 1):
                    rows.append(("elements", *same(vm, value(vm, o.a[m + l, k]), want.get((m, k), SZERO))))
            for j in range(2 * l + 1):
                for k in range(2 * l + 1):
                    s = SZERO
                    for m in range(2 * l + 1):
                        s = s + value(vm, o.a[m, j]).conj() * value(vm, o.a[m, k])
                    rows.append(("unitary", *same(vm, s, SONE if j == k else SZERO)))
            return rows
        run1(ck, "C24.get_spherical_2_cubic_matrix.l=%d" % l, "finite.get_spherical_2_cubic_matrix",
             lambda vm, l=l: (vm.function(FIN, "get_spherical_2_cubic_matrix"), [], {"l": l}), postu)

    # the file: any subset of the parameters, any values
    P = {k: sc.par("p_" + k, real=True) for k in DEFAULTS}

    def read(vm):
        pres = {k: z3.Bool("has_" + k) for k in DEFAULTS}
        ref = vm.alloc(DictObj({k: (pres[k], k, P[k]) for k in DEFAULTS}))
        vm.files = {"cf.json": ("json", ref)}
        vm.pres = pres
        return vm.function(CF, "read_h0_CF_file"), ["cf.json"], {}

    def postr(vm, v):
        if not isinstance(v, tuple) or len(v) != 10:
            return [("values", "undecided", "result of another form")]
        rows = []
        for x, k in zip(v, DEFAULTS):
            p = vm.pres[k]
            want = sc.mask(p, P[k]) + sc.mask(z3.Not(p), frac(DEFAULTS[k]))
            rows.append((k, *same(vm, value(vm, x), want)))
        return rows
    run1(ck, "C24.read_h0_CF_file", "get_spectra_using_CF.read_h0_CF_file", read, postr)

    baths = [([(1, 0), (2, 10)], False), ([(1, 0), (2, 20)], True), ([(2, 10)], False), ([(2, 20), (1, 0)], True),
             ([(1, 3), (2, 20)], True)]
    for nb, con in baths:
        for bath in (None, "spherical", "cubic"):
            for tag, given in cases():
                Q = {k: P[k] if k in given else frac(DEFAULTS[k]) for k in DEFAULTS}

                def call(vm, nb=nb, bath=bath, given=given):
                    name = file_params(vm, {k: P[k] for k in given})
                    nv = ordered_dict(vm, [(l, 10 if l == 2 else n) for l, n in nb])
                    return (vm.function(CF, "get_CF_hamiltonian"), [ordered_dict(vm, nb), nv, name],
                            {} if bath is None else {"bath_state_basis": bath})

                def post(vm, v, Q=Q, con=con, bath=bath):
                    ts = oa.terms(vm, v)
                    bad = [p for p, x in ts if x.t and (len(p) != 2 or p[0][1] != "c" or p[1][1] != "a")]
                    return [("stated terms and no others", *oa.equal_ops(ts, expected(Q, con, bath))),
                            ("one-body", "refuted" if bad else "proved", str(bad[:1])),
                            ("Hermitian", *equal_terms(vm, ts, oa.dagger(ts)))]
                run1(ck, "C24.get_CF_hamiltonian.%s.%s.%s" % (dict(nb), bath, tag), "get_spectra_using_CF.get_CF_hamiltonian", call, post)


    # any subset of the parameters in the file, any number of bath states per shell
    pres = {k: z3.Bool("has_" + k) for k in DEFAULTS}
    Q = {k: sc.mask(pres[k], P[k]) + sc.mask(z3.Not(pres[k]), frac(DEFAULTS[k])) for k in DEFAULTS}
    for bath in (None, "cubic"):
        for order in ((1, 2), (2, 1)):
            def call(vm, bath=bath, order=order):
                ref = vm.alloc(DictObj({k: (pres[k], k, P[k]) for k in DEFAULTS}))
                vm.files = {"cf.json": ("json", ref)}
                nb = {1: smt.fresh_int("nb1"), 2: smt.fresh_int("nb2")}
                nv = {1: smt.fresh_int("nv1"), 2: 10}
                vm.assume(z3.And(0 <= nv[1], nv[1] <= nb[1], nb[2] >= 10))
                vm.con = nb[2] == 20
                return (vm.function(CF, "get_CF_hamiltonian"),
                        [ordered_dict(vm, [(l, nb[l]) for l in order]), ordered_dict(vm, [(l, nv[l]) for l in order]), "cf.json"],
                        {} if bath is None else {"bath_state_basis": bath})

            def post(vm, v, bath=bath):
                ts = oa.terms(vm, v)
                want = [(p, x if all(i[1] < 10 for i, _ in p if len(i) == 2) else sc.mask(vm.con, x))
                        for p, x in expected(Q, True, bath)]
                return [("stated terms and no others", *oa.equal_ops(ts, want)), ("Hermitian", *equal_terms(vm, ts, oa.dagger(ts)))]
            run1(ck, "C24.get_CF_hamiltonian.any subset.%s.%s" % (bath, order), "get_spectra_using_CF.get_CF_hamiltonian", call, post)


def equal_terms(vm, a, b):
    """same processes with the same values (not only the same operator)"""
    x, y = dict(), dict()
    for p, v in a:
        x[p] = x.get(p, SZERO) + v
    for p, v in b:
        y[p] = y.get(p, SZERO) + v
    for p in set(x) | set(y):
        st, d = same(vm, x.get(p, SZERO), y.get(p, SZERO))
        if st != "proved":
            return st, "%s: %s" % (p, d)
    return "proved", ""
