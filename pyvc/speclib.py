"""Library contracts for the plane-wave expansion: directions, spherical harmonics, Bessel functions, quadrature.

An angle is kept as (cosine, sine).  arccos and arctan2 are inverted exactly, so that a spherical harmonic of
the direction of a vector becomes an algebraic function of the vector's components.  Bessel functions of an array
and the trapezoidal integral are uninterpreted: equal arguments give equal results, the integral is linear."""
from fractions import Fraction
import math
import z3

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .num import Num, sqrt_num, squarefree
from .values import *
from .libs import lib
from .interp import PyRaise, smt_int
from .nd import nd_map, seq_nd


class Angle(Opaque):
    def __init__(self, c, s):
        Opaque.__init__(self, "angle")
        self.c, self.s = c, s


def sin_of(c):
    """sqrt(1-c^2) >= 0"""
    for i in c.atoms():
        a = sc.ATOMS[i]
        if a.kind != "inv" or len(a.data.t) != 1:
            continue
        (g, m), v = next(iter(a.data.t.items()))
        if g or len(m) != 1 or m[0][1] != 1 or sc.ATOMS[m[0][0]].kind != "sqrt":
            continue
        Q = a.data                      # 1/c = Q/p with Q a square root
        p = c * Q
        if i not in p.atoms():
            d = Q * Q - p * p
            return sc.SZERO if not d.t else sc.sqrt(d) * Q.inverse()
    d = sc.SONE - c * c
    return sc.SZERO if not d.t else sc.sqrt(d)


@lib("numpy.arccos", "math.acos")
def _arccos(vm, a, k):
    c = Scalar.of(vm.as_scalar(a[0]))
    if not c.is_real():
        raise Unsupported("arccos of a complex number")
    return Angle(c, sin_of(c))


@lib("numpy.arctan2", "math.atan2")
def _arctan2(vm, a, k):
    y, x = (Scalar.of(vm.as_scalar(v)) for v in a)
    if not (x.is_real() and y.is_real()):
        raise Unsupported("arctan2 of a complex number")
    if not x.t and not y.t:
        return Angle(sc.SONE, sc.SZERO)
    d = x * x + y * y
    if vm.known(sc.as_z3(sc.cond_nz(d))) is not True:
        raise Unsupported("arctan2 at a point that may be the origin")
    h = sc.sqrt(d)
    return Angle(x * h.inverse(), y * h.inverse())


@lib("numpy.hypot", "math.hypot")
def _hypot(vm, a, k):
    x, y = (Scalar.of(vm.as_scalar(v)) for v in a)
    return sc.sqrt(x * x.conj() + y * y.conj())


def _trig(name):
    def f(vm, a, k):
        if isinstance(a[0], Angle):
            return a[0].c if name == "cos" else a[0].s
        c = Scalar.of(vm.as_scalar(a[0]))
        if not c.t:
            return sc.SONE if name == "cos" else sc.SZERO
        raise Unsupported(name)
    return f


for _n in ("cos", "sin"):
    lib("numpy." + _n, "math." + _n)(_trig(_n))


def _angle(vm, v):
    if isinstance(v, Angle):
        return v
    if not Scalar.of(vm.as_scalar(v)).t:
        return Angle(sc.SONE, sc.SZERO)
    raise Unsupported("angle")


def Ylm(n, m, c, s, cphi, sphi):
    """Condon-Shortley spherical harmonic; c, s: cosine and sine (>= 0) of the polar angle"""
    if abs(m) > n:
        return sc.SZERO
    am = abs(m)
    p = sc.SZERO
    # d^am/dx^am P_n(x) = 2^-n sum_j (-1)^j C(n,j) C(2n-2j,n) (n-2j)!/(n-2j-am)! x^(n-2j-am)
    for j in range((n - am) // 2 + 1):
        q = Fraction((-1) ** j * math.comb(n, j) * math.comb(2 * n - 2 * j, n) * math.perm(n - 2 * j, am), 2 ** n)
        p = p + c ** (n - 2 * j - am) * Scalar.of(q)
    f = Fraction((2 * n + 1) * math.factorial(n - am), 4 * math.factorial(n + am))
    r = sqrt_num(Num.of(f)) * Num({(1, 0, -1): Fraction(1)}) * Num.of((-1) ** am)
    e = cphi + sc.SI * sphi
    y = p * Scalar.of(r) * (s * e) ** am
    return y if m >= 0 else y.conj() * Scalar.of((-1) ** am)


@lib("scipy.special.sph_harm")
def _sph_harm(vm, a, k):
    if k or len(a) != 4 or not all(isinstance(x, int) for x in a[:2]):
        raise Unsupported("sph_harm")
    m, n = a[:2]
    az, pol = _angle(vm, a[2]), _angle(vm, a[3])
    return Ylm(n, m, pol.c, sin_of(pol.c), az.c, az.s)


def _is_function(vm, o):
    if o is None or len(o.shape) != 1:
        raise Unsupported("array of function values")


_NAMES = {}


def _named(kind, *key):
    return "%s#%d" % (kind, _NAMES.setdefault((kind,) + key, len(_NAMES)))


def _body(vm, o):
    """the elements as a function of one canonical index"""
    b = z3.Int("!fn")
    return Scalar.of(vm.as_scalar(o.get([b]))), b


@lib("scipy.special.spherical_jn")
def _jn(vm, a, k):
    if k or len(a) != 2 or not isinstance(a[0], int):
        raise Unsupported("spherical_jn")
    if vm.is_num(a[1]):
        return sc.app(_named("jn%d" % a[0], Scalar.of(vm.as_scalar(a[1]))), real=True)
    o = seq_nd(vm, a[1])
    _is_function(vm, o)
    x, _ = _body(vm, o)
    name = _named("jn%d" % a[0], x)
    return vm.alloc(SymNdObj(o.shape, lambda ix: sc.app(name, smt_int(ix[0]), real=True), "float"))


@lib("numpy.trapz", "numpy.trapezoid", "scipy.integrate.trapezoid")
def _trapz(vm, a, k):
    if set(k) - {"x"} or len(a) + len(k) != 2:
        raise Unsupported("trapz")
    f, r = seq_nd(vm, a[0]), seq_nd(vm, a[1] if len(a) == 2 else k["x"])
    _is_function(vm, f)
    _is_function(vm, r)
    if f.shape[0] is not r.shape[0] and vm.known(vm._eqi(f.shape[0], r.shape[0])) is not True:
        raise Unsupported("trapz of unrelated lengths")
    fx, b = _body(vm, f)
    rx, _ = _body(vm, r)
    out = sc.SZERO
    for (g, m), v in fx.t.items():
        if g:
            raise Unsupported("trapz of a conditional function")
        inside = tuple((i, e) for i, e in m if sc.atom_has(sc.ATOMS[i], b))
        outside = tuple((i, e) for i, e in m if not sc.atom_has(sc.ATOMS[i], b))
        body = Scalar({(frozenset(), inside): sc.ONE})
        at = sc.app(_named("trapz", body, rx, str(f.shape[0])), real=body.is_real())
        out = out + at * Scalar({(frozenset(), outside): v})
    return out
