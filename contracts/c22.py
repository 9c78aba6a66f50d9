"""C22: dipole and photoemission operators, symbolic polarisation and symbolic numbers of bath states."""
from .base import *
from . import opalg as oa

MOD = ED + ".spectra"


def index(ls, nbath):
    """label -> index for the impurity spin-orbitals (nBaths keys ls in order)"""
    out, i = {}, 0
    for l in ls:
        for s in range(2):
            for m in range(-l, l + 1):
                out[l, s, m] = i
                i += 1
    return out


def dipole(ls, n):
    l1, l2 = ls
    idx = index(ls, None)
    x, y, z = n
    r2 = oa.sqrt_int(2).inverse()
    q = {0: z, 1: (-x + sc.SI * y) * r2, -1: (x + sc.SI * y) * r2}
    out = []
    for m in range(-l2, l2 + 1):
        for mp in range(-l1, l1 + 1):
            if m - mp in q:
                v = Scalar.of(oa.ck(1, l2, m, l1, mp)) * q[m - mp]
                for s in range(2):
                    out.append((((idx[l2, s, m], "c"), (idx[l1, s, mp], "a")), v))
    return out


def baths(vm, ls):
    items = []
    for l in ls:
        nb = smt.fresh_int("nb")
        vm.assume(nb >= 0)
        items.append((l, nb))
    return ordered_dict(vm, items)


def oplist(vm, v):
    items = vm.concrete_items(v)
    if items is None:
        raise Unsupported("list of operators of unknown length")
    return [oa.terms(vm, x) for _, x in items]


def same_list(got, want):
    if len(got) != len(want):
        return "refuted", "%d operators for %d polarisations" % (len(got), len(want))
    for g, w in zip(got, want):
        st, d = oa.equal_ops(g, w)
        if st != "proved":
            return st, d
    return "proved", ""


def build(ck):
    ck.assume_note("sympy.physics.wigner.gaunt is exact (see C18); floats are exact reals")
    for real in (True, False):
        ns = [params("n%s_" % "abc"[i], 3, real) for i in range(2)]
        for ls in [(1, 2), (0, 1), (2, 3), (2, 1), (1, 0), (0, 2), (1, 3), (3, 2)]:
            tag = "%s.%s" % (ls, "real" if real else "complex")

            def post(vm, v, ls=ls, n=ns[0]):
                ts = oa.terms(vm, v)
                want = dipole(ls, n)
                rows = [("matrix elements", *oa.equal_ops(ts, want))]
                bad = [p for p, x in ts if x.t and (len(p) != 2 or p[0][1] != "c" or p[1][1] != "a")]
                rows.append(("shape", "refuted" if bad else "proved", str(bad[:1])))
                return rows
            run1(ck, "C22.getDipoleOperator" + tag, "spectra.getDipoleOperator",
                 lambda vm, ls=ls, n=ns[0]: (vm.function(MOD, "getDipoleOperator"), [baths(vm, ls), tuple(n)], {}), post)
            for f, dag in (("getDipoleOperators", False), ("getDaggeredDipoleOperators", True)):
                def postl(vm, v, ls=ls, ns=ns, dag=dag):
                    want = [dipole(ls, n) for n in ns]
                    if dag:
                        want = [oa.dagger(w) for w in want]
                    return [("one per polarisation, in order", *same_list(oplist(vm, v), want))]
                run1(ck, "C22.%s%s" % (f, tag), "spectra." + f,
                     lambda vm, ls=ls, ns=ns, f=f: (vm.function(MOD, f),
                                                    [baths(vm, ls), vm.alloc(ListObj([tuple(n) for n in ns]))], {}), postl)
    for ls in [(1, 2), (2,), (2, 3), (0, 1, 2)]:
        idx = index(ls, None)
        for l in list(ls) + ([None] if 2 in ls else []):
            L = 2 if l is None else l
            for f, a in (("getPhotoEmissionOperators", "a"), ("getInversePhotoEmissionOperators", "c")):
                def postp(vm, v, L=L, a=a, idx=idx):
                    got = [normal1(t) for t in oplist(vm, v)]
                    want = [{((idx[L, s, m], a),): sc.SONE} for s in range(2) for m in range(-L, L + 1)]
                    for w in want:
                        if w not in got:
                            return [("each spin-orbital once", "refuted", "missing %s" % (w,))]
                    return [("each spin-orbital once", "proved" if len(got) == len(want) else "refuted", "")]
                run1(ck, "C22.%s%s.l=%s" % (f, ls, l), "spectra." + f,
                     lambda vm, f=f, ls=ls, l=l: (vm.function(MOD, f), [baths(vm, ls)], {} if l is None else {"l": l}),
                     postp)


def normal1(ts):
    return {p: v for p, v in ts if v.t}
