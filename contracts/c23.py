"""C23: NIXS operators, symbolic momentum transfer, radial functions of any length."""
from fractions import Fraction
import math

from pyvc.num import Num, sqrt_num
from .base import *
from . import opalg as oa
from .c22 import baths, index, oplist
from pyvc import speclib

MOD = ED + ".spectra"


def radial(vm, name, N, real=True):
    return vm.alloc(SymNdObj((N,), lambda ix: sc.app(name, smt_int(ix[0]), real=real), "float" if real else "complex"))


def directions(axis, name="q"):
    z = sc.par(name + "z")
    if axis == "z":
        return (sc.SZERO, sc.SZERO, z)
    return (sc.par(name + "x"), sc.par(name + "y"), z)


def nonzero(vm, q, axis):
    vm.assume(sc.as_z3(sc.cond_nz(q[2] if axis == "z" else q[0] * q[0] + q[1] * q[1])))


def solid(q, k, m):
    """Y_km of the direction of q: algebraic in the components"""
    x, y, z = q
    u = sc.sqrt(x * x + y * y + z * z).inverse()
    am = abs(m)
    p = sc.SZERO
    for j in range((k - am) // 2 + 1):
        c = Fraction((-1) ** j * math.comb(k, j) * math.comb(2 * k - 2 * j, k) * math.perm(k - 2 * j, am), 2 ** k)
        p = p + Scalar.of(c) * (z * u) ** (k - 2 * j - am)
    f = Fraction((2 * k + 1) * math.factorial(k - am), 4 * math.factorial(k + am))
    r = sqrt_num(Num.of(f)) * Num({(1, 0, -1): Fraction((-1) ** am)})
    v = p * Scalar.of(r) * ((x + sc.SI * y) * u) ** am
    return v if m >= 0 else v.conj() * Scalar.of((-1) ** am)


def plane_wave(vm, ls, q, li, lj, kmin, Ri, Rj, r):
    idx = index(ls, None)
    Q = sc.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
    o = {n: vm.get(v) for n, v in (("Ri", Ri), ("Rj", Rj), ("r", r))}
    out = {}
    for k in range(kmin, li + lj + 1):
        if (k + li + lj) % 2:
            continue
        jn = vm.get(speclib._jn(vm, [k, vm.alloc(SymNdObj(o["r"].shape, lambda ix: Q * o["r"].get(ix), "float"))], {}))
        f = vm.alloc(SymNdObj(o["r"].shape, lambda ix, jn=jn: o["Ri"].get(ix).conj() * jn.get(ix) * o["Rj"].get(ix) * o["r"].get(ix) ** 2, "complex"))
        I = speclib._trapz(vm, [f, r], {})
        for mi in range(-li, li + 1):
            for mj in range(-lj, lj + 1):
                c = oa.ck(k, li, mi, lj, mj)
                if abs(mi - mj) > k or c.is_zero():
                    continue
                v = I * Scalar.of(c) * oa.sqrt_int(2 * k + 1) * sc.SI ** k * solid(q, k, mi - mj).conj()
                for s in range(2):
                    p = ((idx[li, s, mi], "c"), (idx[lj, s, mj], "a"))
                    out[p] = out.get(p, sc.SZERO) + v
    return {p: v for p, v in out.items() if v.t}


def same(vm, ts, want):
    """equal up to one common constant"""
    got = {}
    for p, v in ts:
        if v.t:
            got[p] = v
    lam = sc.SONE
    for p, v in got.items():
        if p in want:
            a, b = sc.clear_inverses(v), sc.clear_inverses(want[p])
            for key in a.t:
                if key in b.t:
                    lam = Scalar.of(a.t[key] * b.t[key].inv())
                    break
            break
    for p in list(want) + [p for p in got if p not in want]:
        d = got.get(p, sc.SZERO) - lam * want.get(p, sc.SZERO)
        if not d.t:
            continue
        r = sc.is_zero(d, vm.asms(), [60])
        if r is not True:
            d = sc.clear_inverses(d)
            r = not d.t or sc.is_zero(d, vm.asms(), [60])
        if r is True:
            continue
        return ("refuted" if r is False else "undecided",
                "strength of %s: got %s, specified %s" % (p, short(got.get(p, 0)), short(want.get(p, 0))))
    return "proved", ""


def build(ck):
    ck.assume_note("spherical Bessel functions are uninterpreted and the trapezoidal integral is an uninterpreted linear functional")
    ck.assume_note("arccos, arctan2 and sph_harm are their exact definitions; floats are exact reals; sympy.physics.wigner.gaunt is exact")
    cases = [(2, 2, 0), (2, 2, 1), (2, 2, None), (1, 1, None), (2, 1, None), (1, 2, 0), (0, 2, 2), (0, 0, 0), (0, 0, None), (2, 2, 3), (3, 2, 1), (3, 3, None)]
    for li, lj, kmin in cases:
        for axis in ("any", "z"):
            ls = sorted({li, lj, 1})
            S = {}

            def setup(vm):
                q = directions(axis)
                nonzero(vm, q, axis)
                N = smt.fresh_int("N")
                vm.assume(N >= 2)
                S.update(q=q, Ri=radial(vm, "Ri", N, False), Rj=radial(vm, "Rj", N, False), r=radial(vm, "r", N))
                return q

            def want(vm, name="q"):
                return plane_wave(vm, ls, S[name], li, lj, 1 if kmin is None else kmin, S["Ri"], S["Rj"], S["r"])
            kw = {} if kmin is None else {"kmin": kmin}
            tag = " l=(%d,%d), lowest order %s, %s" % (li, lj, "default" if kmin is None else kmin, "q along z" if axis == "z" else "q off the z axis")

            def thunk(vm):
                q = setup(vm)
                return vm.function(MOD, "getNIXSOperator"), [baths(vm, ls), vm.alloc(ListObj(list(q))), li, lj, S["Ri"], S["Rj"], S["r"]], dict(kw)
            run1(ck, "C23.getNIXSOperator" + tag, "spectra.getNIXSOperator", thunk,
                 lambda vm, v: [("plane wave", *same(vm, oa.terms(vm, v), want(vm)))])

            if (li, lj) not in ((2, 2), (2, 1), (1, 1)):
                continue

            def thunks(vm):
                q = setup(vm)
                S["p"] = directions("any", "p")
                nonzero(vm, S["p"], "any")
                qs = vm.alloc(ListObj([vm.alloc(ListObj(list(x))) for x in (q, S["p"])]))
                return vm.function(MOD, "getNIXSOperators"), [baths(vm, ls), qs, li, lj, S["Ri"], S["Rj"], S["r"]], dict(kw)

            def posts(vm, v):
                got = oplist(vm, v)
                if len(got) != 2:
                    return [("one per momentum", "refuted", "%d operators for 2 momenta" % len(got))]
                return [("%s momentum" % n, *same(vm, got[i], want(vm, c))) for i, (n, c) in enumerate((("first", "q"), ("second", "p")))]
            run1(ck, "C23.getNIXSOperators" + tag, "spectra.getNIXSOperators", thunks, posts)
