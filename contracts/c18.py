"""C18: Coulomb operator = Slater-Condon interaction."""
from .base import *
from . import opalg as oa
from pyvc.values import DictObj

MOD = ED + ".finite"


def pauli(ts):
    for pr, v in ts:
        if not v.t:
            continue
        cr = [x for x, a in pr if a == "c"]
        an = [x for x, a in pr if a == "a"]
        if len(set(cr)) < len(cr) or len(set(an)) < len(an):
            return "refuted", "Pauli-forbidden process %s" % (pr,)
    return "proved", ""


def shape(ts):
    for pr, v in ts:
        if tuple(a for _, a in pr) != ("c", "c", "a", "a"):
            return "refuted", "process %s" % (pr,)
    return "proved", ""


def symmetric(ck, name, func, ts, shells):
    """exact commutators of the operator the code produced"""
    for lab, B in (("N", oa.Nop), ("Lz", oa.Lz), ("L+", oa.Lp), ("Sz", oa.Sz), ("S+", oa.Sp)):
        t0 = time.time()
        ops = [x for l in shells for x in B(l)]
        st, d = oa.is_zero_op(oa.commutator1(ts, ops))
        ck.add("%s.commutes with %s" % (name, lab), func, st, d, time.time() - t0, "exact ring")
    t0 = time.time()
    st, d = oa.equal_ops(oa.dagger(ts), ts)
    ck.add("%s.hermitian" % name, func, st, d, time.time() - t0, "exact ring")


def coulomb_pd(Fdd, Fpp, Fpd, Gpd):
    return (oa.coulomb(2, 2, 2, 2, Fdd) + oa.coulomb(1, 1, 1, 1, Fpp) + oa.coulomb(1, 2, 2, 1, Fpd)
            + oa.coulomb(2, 1, 1, 2, Fpd) + oa.coulomb(1, 2, 1, 2, Gpd) + oa.coulomb(2, 1, 2, 1, Gpd))


def build(ck):
    ck.assume_note("sympy.physics.wigner.gaunt returns the integral of three spherical harmonics (rounded to 16 digits; "
                   "taken as exact here, compared numerically with exact 3j symbols by the bounded stand-in)")
    ck.assume_note("floats are treated as exact reals; float() is the identity")

    # ---- gauntC
    for l in range(4):
        def go(l=l):
            vm = Vm()
            f = vm.function(MOD, "gauntC")
            bad = None
            n = 0
            for lp in range(4):
                for k in range(0, l + lp + 2):
                    for m in range(-l, l + 1):
                        for mp in range(-lp, lp + 1):
                            ps = vm.explore(lambda: vm.call(f, [k, l, m, lp, mp]))
                            n += 1
                            if len(ps) != 1 or ps[0].kind != "ok":
                                return [("", "undecided", "several paths")]
                            v = Scalar.of(vm.as_scalar(ps[0].value))
                            if (v - Scalar.of(oa.ck(k, l, m, lp, mp))).t:
                                return [("", "refuted", "gauntC(%d,%d,%d,%d,%d) = %s" % (k, l, m, lp, mp, v))]
            ck.absorb(vm)
            return [("equals c^k", "proved", "")]
        ck.run("C18.gauntC.l=%d" % l, "finite.gauntC", go)

    # ---- getU, getUop, getNoSpinUop for symbolic Slater-Condon parameters
    shells = [(0, 0, 0, 0), (1, 1, 1, 1), (2, 2, 2, 2), (3, 3, 3, 3), (1, 2, 2, 1), (2, 1, 1, 2), (1, 2, 1, 2),
              (2, 1, 2, 1), (0, 1, 1, 0), (0, 2, 0, 2), (1, 0, 1, 0)]
    for ls in shells:
        nR = 2 * max(ls) + 1
        R = params("R", nR)
        name = "C18.getUop%s" % (ls,)

        def post(vm, v, ls=ls, R=R, name=name):
            ts = oa.terms(vm, v)
            st, d = oa.equal_ops(ts, oa.coulomb(*ls, R))
            rows = [("Slater-Condon", st, d), ("Pauli", *pauli(ts)), ("shape", *shape(ts))]
            if len(set(ls)) == 1 and ls[0] < 3:
                symmetric(ck, name, "finite.getUop", ts, [ls[0]])
            return rows
        if ls == (3, 3, 3, 3):
            continue      # f shell: in the bounded stand-in (13 s of exact algebra, no caller in the package)
        run1(ck, name, "finite.getUop",
             lambda vm, ls=ls, R=R: (vm.function(MOD, "getUop"), list(ls) + [tuple(R)], {}), post)

    def nospin(vm, v):
        ts = oa.terms(vm, v)
        want = {}
        for p, x in oa.coulomb(2, 2, 2, 2, params("R", 5)):
            if p[0][0][1] == 0 and p[1][0][1] == 1:
                want[tuple((x2[0], x2[2]) for x2, _ in p)] = x
        for p, x in ts:
            d = x - want.pop(p, sc.SZERO)
            if d.t:
                return [("values", "refuted", "%s" % (p,))]
        return [("values", "refuted" if want else "proved", "missing %s" % list(want)[:2] if want else "")]
    run1(ck, "C18.getNoSpinUop", "finite.getNoSpinUop",
         lambda vm: (vm.function(MOD, "getNoSpinUop"), [2, 2, 2, 2, tuple(params("R", 5))], {}), nospin)

    # ---- the 2p-3d operator
    Fdd, Fpp, Fpd, Gpd = params("Fdd", 5), params("Fpp", 3), params("Fpd", 3), params("Gpd", 4)

    def pd(vm, v):
        ts = oa.terms(vm, v)
        want = coulomb_pd(Fdd, Fpp, Fpd, Gpd)
        st, d = oa.equal_ops(ts, want)
        symmetric(ck, "C18.get2p3dSlaterCondonUop", "finite.get2p3dSlaterCondonUop", ts, [1, 2])
        return [("direct plus exchange, each once", st, d), ("Pauli", *pauli(ts)), ("shape", *shape(ts))]
    run1(ck, "C18.get2p3dSlaterCondonUop", "finite.get2p3dSlaterCondonUop",
         lambda vm: (vm.function(MOD, "get2p3dSlaterCondonUop"), [],
                     {"Fdd": tuple(Fdd), "Fpp": tuple(Fpp), "Fpd": tuple(Fpd), "Gpd": tuple(Gpd)}), pd)
