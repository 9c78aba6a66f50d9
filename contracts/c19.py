"""C19: spin-orbit and magnetic-field operators, symbolic couplings, every shell l <= LMAX."""
from .base import *
from . import opalg as oa

MOD = ED + ".finite"
LMAX = 8


def soc(xi, l):
    """xi (Lz Sz + (L+ S- + L- S+)/2), from the ladder-operator matrix elements (a one-body operator per electron)"""
    out = []
    for m in range(-l, l + 1):
        for s in range(2):
            out.append(((((l, s, m), "c"), ((l, s, m), "a")), xi * m * sc.HALF * (2 * s - 1)))
    for m in range(-l, l):
        # L- S+ : |l 0 m+1> -> |l 1 m> ;  L+ S- : |l 1 m> -> |l 0 m+1>
        w = xi * sc.HALF * oa.sqrt_int((l - m) * (l + m + 1))
        out.append(((((l, 1, m), "c"), ((l, 0, m + 1), "a")), w))
        out.append(((((l, 0, m + 1), "c"), ((l, 1, m), "a")), w))
    return out


def field(h, l):
    x = oa.Sp(l)
    y = oa.Sm(l)
    sx = oa.scale(x, sc.HALF) + oa.scale(y, sc.HALF)
    sy = oa.scale(x, -sc.SI * sc.HALF) + oa.scale(y, sc.SI * sc.HALF)
    return oa.scale(sx, h[0]) + oa.scale(sy, h[1]) + oa.scale(oa.Sz(l), h[2])


def shape(ts):
    for p, v in ts:
        if tuple(a for _, a in p) != ("c", "a"):
            return "refuted", "process %s" % (p,)
    return "proved", ""


def build(ck):
    ck.assume_note("floats are treated as exact reals")
    xi = sc.par("xi")
    h = params("h", 3)
    for l in list(range(LMAX + 1)) + [None]:
        L = 2 if l is None else l
        kw = {} if l is None else {"l": l}
        lab = "default" if l is None else "l=%d" % l
        for fname, args, want in (("getSOCop", [xi], soc(xi, L)), ("gethHfieldop", h, field(h, L))):
            def post(vm, v, want=want):
                ts = oa.terms(vm, v)
                return [("operator", *oa.equal_ops(ts, want)), ("shape", *shape(ts)),
                        ("hermitian", *oa.equal_ops(oa.dagger(ts), ts))]
            run1(ck, "C19.%s.%s" % (fname, lab), "finite." + fname,
                 lambda vm, fname=fname, args=args, kw=kw: (vm.function(MOD, fname), list(args), kw), post)
    # the specification itself: xi L.S commutes with J and has the L.S spectrum; checked as lemmas
    for l in range(1, 4):
        ts = soc(xi, l)
        for lab, J in (("Jz", oa.Lz(l) + oa.Sz(l)), ("J+", oa.Lp(l) + oa.Sp(l))):
            st, d = oa.is_zero_op(oa.commutator1(ts, J))
            ck.add("C19.lemma.[xi L.S, %s]=0.l=%d" % (lab, l), "specification", st, d, 0.0, "exact ring")
