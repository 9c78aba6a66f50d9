"""Exact operator algebra on second-quantised operators given as lists of (process, Scalar).

A process is a tuple of (label, 'c'|'a'), acting from right to left.  All coefficients are exact
(pyvc Scalars), so equality of normal forms is equality of operators for all parameter values."""
from fractions import Fraction
from functools import lru_cache
import math

from pyvc import scalar as sc
from pyvc.scalar import Scalar, SZERO, SONE
from pyvc.num import Num, squarefree
from pyvc.values import *


ASMS = ()      # assumptions of the current path, set by base.run1


def terms(vm, ref):
    """[(key, Scalar)] of an operator dictionary produced by the code (zero where not present)"""
    o = vm.get(ref)
    if not isinstance(o, DictObj):
        raise Unsupported("operator is not a dictionary with known keys")
    out = []
    for pres, key, val in o.d.values():
        v = Scalar.of(vm.as_scalar(val))
        out.append((key, sc.mask(pres, v) if pres is not True else v))
    return out


def normal_form(ts):
    """{(creators ascending, annihilators ascending): Scalar}; creation operators to the left"""
    out = {}
    for p, v in ts:
        for s, cr, an in _normal(tuple(p)):
            k = (cr, an)
            out[k] = out.get(k, SZERO) + (v if s == 1 else -v if s == -1 else v * Scalar.of(s))
    return {k: v for k, v in out.items() if v.t}


_nc = {}


def _normal(p):
    """[(integer, creators, annihilators)]"""
    if p in _nc:
        return _nc[p]
    acc = {}

    def rec(s, q):
        for i in range(len(q) - 1):
            (x, a), (y, b) = q[i], q[i + 1]
            if a == "a" and b == "c":
                rec(-s, q[:i] + (q[i + 1], q[i]) + q[i + 2:])
                if x == y:
                    rec(s, q[:i] + q[i + 2:])
                return
        cr = [x for x, a in q if a == "c"]
        an = [x for x, a in q if a == "a"]
        s1, c1 = _sort(cr)
        s2, a1 = _sort(an)
        if s1 and s2:
            k = (tuple(c1), tuple(a1))
            acc[k] = acc.get(k, 0) + s * s1 * s2

    rec(1, tuple(p))
    r = [(s, c, a) for (c, a), s in acc.items() if s]
    _nc[p] = r
    return r


def _sort(xs):
    xs = list(xs)
    s = 1
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            if xs[j] == xs[j + 1]:
                return 0, xs
            if xs[j] > xs[j + 1]:
                xs[j], xs[j + 1] = xs[j + 1], xs[j]
                s = -s
    return (0, xs) if len(set(xs)) < len(xs) else (s, xs)


def dagger(ts):
    return [(tuple((x, {"a": "c", "c": "a"}[a]) for x, a in reversed(p)), v.conj()) for p, v in ts]


def scale(ts, f):
    return [(p, v * Scalar.of(f)) for p, v in ts]


def commutator1(ts, B):
    """[A, B] for a one-body operator B = [(((p,'c'),(q,'a')), w)] (derivation rule)"""
    byq, byp = {}, {}
    for ((p, _), (q, _2)), w in B:
        byq.setdefault(q, []).append((p, w))
        byp.setdefault(p, []).append((q, w))
    out = []
    for pr, v in ts:
        for i, (x, a) in enumerate(pr):
            if a == "c":      # [c+_x, B] = - sum_p w_px c+_p
                for p, w in byq.get(x, ()):
                    out.append((pr[:i] + ((p, "c"),) + pr[i + 1:], -(v * w)))
            else:             # [c_x, B] = sum_q w_xq c_q
                for q, w in byp.get(x, ()):
                    out.append((pr[:i] + ((q, "a"),) + pr[i + 1:], v * w))
    return out


# ---------------------------------------------------------------- exact angular algebra
def _f(n):
    return math.factorial(n)


@lru_cache(maxsize=None)
def w3j(j1, j2, j3, m1, m2, m3):
    """3j symbol (Racah formula), exact Num; integer angular momenta"""
    if m1 + m2 + m3 or j3 < abs(j1 - j2) or j3 > j1 + j2 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return Num({})
    tri = Fraction(_f(j1 + j2 - j3) * _f(j1 - j2 + j3) * _f(-j1 + j2 + j3), _f(j1 + j2 + j3 + 1))
    pre = tri * _f(j1 + m1) * _f(j1 - m1) * _f(j2 + m2) * _f(j2 - m2) * _f(j3 + m3) * _f(j3 - m3)
    s = Fraction(0)
    for t in range(0, j1 + j2 - j3 + 1):
        d = [t, j3 - j2 + t + m1, j3 - j1 + t - m2, j1 + j2 - j3 - t, j1 - t - m1, j2 - t + m2]
        if min(d) < 0:
            continue
        q = 1
        for x in d:
            q *= _f(x)
        s += Fraction((-1) ** t, q)
    s *= -1 if (j1 - j2 - m3) % 2 else 1
    sf, r = squarefree(pre.numerator * pre.denominator)
    return Num({(r, 0, 0): s * Fraction(sf, pre.denominator)}) if s else Num({})


@lru_cache(maxsize=None)
def ck(k, l, m, lp, mp):
    """c^k(lm,l'm') = sqrt(4 pi/(2k+1)) int conj(Y_lm) Y_k,m-m' Y_l'm'
       = (-1)^m sqrt((2l+1)(2l'+1)) (l k l'; 0 0 0)(l k l'; -m m-m' m')"""
    a = w3j(l, k, lp, 0, 0, 0) * w3j(l, k, lp, -m, m - mp, mp)
    s, r = squarefree((2 * l + 1) * (2 * lp + 1))
    return a * Num({(r, 0, 0): Fraction(s * (-1) ** (m % 2))})


def coulomb(l1, l2, l3, l4, R):
    """1/2 sum_k R_k c^k(l1m1,l4m4) c^k(l3m3,l2m2) c+_{1s} c+_{2t} c_{3t} c_{4s}, Pauli-forbidden left out"""
    out = []
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                m4 = m1 + m2 - m3
                if abs(m4) > l4:
                    continue
                u = SZERO
                for k, x in enumerate(R):
                    c = ck(k, l1, m1, l4, m4) * ck(k, l3, m3, l2, m2)
                    if not c.is_zero():
                        u = u + Scalar.of(x) * Scalar.of(c)
                u = u * sc.HALF
                if not u.t:
                    continue
                for s in range(2):
                    for t in range(2):
                        x = ((l1, s, m1), (l2, t, m2), (l3, t, m3), (l4, s, m4))
                        if x[0] == x[1] or x[2] == x[3]:
                            continue
                        out.append((((x[0], "c"), (x[1], "c"), (x[2], "a"), (x[3], "a")), u))
    return out


def sqrt_int(n):
    s, r = squarefree(n)
    return Scalar.of(Num({(r, 0, 0): Fraction(s)}))


def Lz(l):
    return [((((l, s, m), "c"), ((l, s, m), "a")), Scalar.of(m)) for s in range(2) for m in range(-l, l + 1) if m]


def Lp(l):
    return [((((l, s, m + 1), "c"), ((l, s, m), "a")), sqrt_int((l - m) * (l + m + 1)))
            for s in range(2) for m in range(-l, l)]


def Lm(l):
    return dagger(Lp(l))


def Sz(l):
    return [((((l, s, m), "c"), ((l, s, m), "a")), sc.HALF * (2 * s - 1)) for s in range(2) for m in range(-l, l + 1)]


def Sp(l):
    return [((((l, 1, m), "c"), ((l, 0, m), "a")), SONE) for m in range(-l, l + 1)]


def Sm(l):
    return dagger(Sp(l))


def Nop(l):
    return [((((l, s, m), "c"), ((l, s, m), "a")), SONE) for s in range(2) for m in range(-l, l + 1)]


def product1(A, B):
    return [(p + q, v * w) for p, v in A for q, w in B]


def equal_nf(got, want):
    """(status, detail) for two normal forms; coefficients compared exactly"""
    for k in list(got) + [k for k in want if k not in got]:
        d = got.get(k, SZERO) - want.get(k, SZERO)
        if d.t:
            r = sc.is_zero(d, ASMS)
            if r is not True:
                return ("refuted" if r is False else "undecided",
                        "coefficient of %s: got %s, specified %s" % (k, got.get(k, SZERO), want.get(k, SZERO)))
    return "proved", ""


def equal_ops(got, want):
    return equal_nf(normal_form(got), normal_form(want))


def is_zero_op(ts):
    return equal_nf(normal_form(ts), {})
