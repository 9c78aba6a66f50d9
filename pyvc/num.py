"""Exact numbers: finite sums  q * sqrt(r) * i^s * sqrt(pi)^p  with q rational, r squarefree."""
from fractions import Fraction
from functools import lru_cache
import math

F0 = Fraction(0)
F1 = Fraction(1)


@lru_cache(maxsize=None)
def squarefree(n):
    """n = s^2 * r with r squarefree; returns (s, r)."""
    s, r, d = 1, 1, 2
    while d * d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        s *= d ** (e // 2)
        if e % 2:
            r *= d
        d += 1
    return s, r * n


class Num:
    """dict (radicand, ipow in {0,1}, power of sqrt(pi)) -> Fraction"""

    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, (int, Fraction)):
            return Num({(1, 0, 0): Fraction(x)}) if x != 0 else ZERO
        if isinstance(x, float):
            # decimal reading of the literal: 0.1 means 1/10
            if x != x or x in (float("inf"), float("-inf")):
                raise ValueError("non-finite float")
            return Num.of(Fraction(repr(x)))
        if isinstance(x, complex):
            return Num.of(x.real) + Num.of(x.imag) * I
        raise TypeError(type(x))

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            w = t.get(k, F0) + v
            if w == 0:
                t.pop(k, None)
            else:
                t[k] = w
        return Num(t)

    def __neg__(self):
        return Num({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) == 1 and len(o.t) == 1:
            (ka, va), = self.t.items()
            (kb, vb), = o.t.items()
            k, v = _mul1(ka, kb)
            return Num({k: v * va * vb})
        t = {}
        for ka, va in self.t.items():
            for kb, vb in o.t.items():
                k, v = _mul1(ka, kb)
                w = t.get(k, F0) + v * va * vb
                if w == 0:
                    t.pop(k, None)
                else:
                    t[k] = w
        return Num(t)

    def inv(self):
        if not self.t:
            raise ZeroDivisionError
        if len(self.t) == 1:
            ((r, s, p), v), = self.t.items()
            # 1/(v sqrt r i^s pi^p/2)
            q = Fraction(1) / (v * r)
            if s:
                q = -q
            return Num({(r, s, -p): q})
        # rationalise: multiply by conjugates until one term is left
        # conjugate in i, then in each prime
        num, den = ONE, self
        if any(k[1] for k in den.t):
            c = Num({k: (-v if k[1] else v) for k, v in den.t.items()})
            num, den = num * c, den * c
        primes = set()
        for (r, _, _) in den.t:
            d = 2
            m = r
            while m > 1:
                if m % d == 0:
                    primes.add(d)
                    while m % d == 0:
                        m //= d
                d += 1
        for q in sorted(primes):
            if any(k[0] % q == 0 for k in den.t):
                c = Num({k: (-v if k[0] % q == 0 else v) for k, v in den.t.items()})
                num, den = num * c, den * c
        if len(den.t) != 1:
            raise NotImplementedError("inverse of a mixed power of pi")
        return num * den.inv()

    def conj(self):
        return Num({k: (-v if k[1] else v) for k, v in self.t.items()})

    def is_zero(self):
        return not self.t

    def is_real(self):
        return all(k[1] == 0 for k in self.t)

    def rational(self):
        """Fraction or None"""
        if not self.t:
            return F0
        if len(self.t) == 1 and (1, 0, 0) in self.t:
            return self.t[(1, 0, 0)]
        return None

    def __eq__(self, o):
        return isinstance(o, Num) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def sign(self):
        """sign of a real number, exactly decided (nonzero normal form is nonzero up to pi-algebraicity)."""
        if not self.t:
            return 0
        import mpmath
        for prec in (60, 200, 800):
            with mpmath.workprec(prec * 4):
                v = self.mp()
                if abs(v) > mpmath.mpf(10) ** (-prec):
                    return 1 if v.real > 0 else -1
        raise ArithmeticError("sign undetermined")

    def mp(self):
        import mpmath
        s = mpmath.mpc(0)
        for (r, i, p), v in self.t.items():
            x = mpmath.mpf(v.numerator) / v.denominator * mpmath.sqrt(r) * mpmath.sqrt(mpmath.pi) ** p
            s += mpmath.mpc(0, x) if i else x
        return s

    def __complex__(self):
        s = 0j
        for (r, i, p), v in self.t.items():
            x = float(v) * math.sqrt(r) * math.pi ** (p / 2)
            s += 1j * x if i else x
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (r, i, p), v in sorted(self.t.items()):
            s = str(v)
            if r != 1:
                s += "*sqrt(%d)" % r
            if i:
                s += "*i"
            if p:
                s += "*pi^(%s)" % Fraction(p, 2)
            out.append(s)
        return " + ".join(out)


def _mul1(a, b):
    g = math.gcd(a[0], b[0])
    r = (a[0] // g) * (b[0] // g)
    v = Fraction(g)
    i = a[1] + b[1]
    if i == 2:
        i = 0
        v = -v
    return (r, i, a[2] + b[2]), v


ZERO = Num({})
ONE = Num({(1, 0, 0): F1})
I = Num({(1, 1, 0): F1})
SQRTPI = Num({(1, 0, 1): F1})
PI = Num({(1, 0, 2): F1})


def sqrt_num(x):
    """Exact square root of a nonnegative Num of the form q * pi^p (p even or not), or None."""
    if x.is_zero():
        return ZERO
    if len(x.t) != 1:
        return None
    ((r, i, p), v), = x.t.items()
    if r != 1 or i or p % 2 or v < 0:
        return None
    # sqrt(a/b) = sqrt(a*b)/b
    s, rr = squarefree(v.numerator * v.denominator)
    return Num({(rr, 0, p // 2): Fraction(s, v.denominator)})
