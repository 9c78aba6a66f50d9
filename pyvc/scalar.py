"""Symbolic complex scalars: guarded polynomials with exact coefficients.

A Scalar is a finite sum of  coeff * [guard] * monomial,  guard a conjunction of z3 literals
(an Iverson bracket), monomial a product of atoms.
"""
import z3
from .num import Num, ZERO, ONE, I, sqrt_num
from . import smt

ATOMS = []          # idx -> Atom
_INDEX = {}         # key -> idx
LITS = {}           # z3 id -> expr (keeps it alive)


class Atom:
    __slots__ = ("idx", "kind", "data", "real", "depth")

    def __repr__(self):
        return atom_str(self)


def _arg_key(a):
    if smt.is_z3(a):
        LITS[a.get_id()] = a
        return ("z", a.get_id())
    return a


def _mk(kind, data, real, key):
    k = (kind, key)
    i = _INDEX.get(k)
    if i is None:
        a = Atom()
        a.kind, a.data, a.real = kind, data, real
        a.idx = len(ATOMS)
        a.depth = _depth_of(kind, data)
        ATOMS.append(a)
        _INDEX[k] = a.idx
        return a
    return ATOMS[i]


def _depth_of(kind, data):
    if kind == "sum":
        return 1 + data[2].depth()
    if kind in ("inv", "exp", "sqrt", "abs"):
        return data.depth()
    if kind == "conj":
        return data.depth
    return 0


def app(fname, *args, real=False):
    """opaque complex (or real) quantity fname(args)"""
    return Scalar.atom(_mk("app", (fname, args), real, (fname, tuple(_arg_key(a) for a in args), real)))


def par(name, real=True):
    return app(name, real=real)


def conj_atom(a):
    """conjugate of an atom, as a Scalar"""
    if a.real:
        return Scalar.atom(a)
    if a.kind == "conj":
        return Scalar.atom(a.data)
    if a.kind == "inv":
        return a.data.conj().inverse()
    if a.kind == "exp":
        return exp(a.data.conj())
    if a.kind == "sum":
        sort, b, body = a.data
        return Sum(b, body.conj())
    return Scalar.atom(_mk("conj", a, False, a.idx))


class Scalar:
    __slots__ = ("t", "_h", "_d")

    def __init__(self, t):
        self.t = t          # {(frozenset(lit ids), ((atom idx, exp),...)): Num}
        self._h = None
        self._d = None

    @staticmethod
    def of(x):
        if isinstance(x, Scalar):
            return x
        if isinstance(x, z3.ArithRef):
            return from_int(x)
        if isinstance(x, z3.BoolRef):
            return ind(x)
        n = Num.of(x)
        return Scalar({(frozenset(), ()): n}) if n.t else SZERO

    @staticmethod
    def atom(a):
        return Scalar({(frozenset(), ((a.idx, 1),)): ONE})

    def depth(self):
        if self._d is None:
            d = 0
            for (_, m) in self.t:
                for i, _e in m:
                    d = max(d, ATOMS[i].depth)
            self._d = d
        return self._d

    def __add__(self, o):
        o = Scalar.of(o)
        if not self.t:
            return o
        if not o.t:
            return self
        t = dict(self.t)
        for k, v in o.t.items():
            w = t.get(k)
            w = v if w is None else w + v
            if w.t:
                t[k] = w
            else:
                t.pop(k, None)
        return Scalar(t)

    __radd__ = __add__

    def __neg__(self):
        return Scalar({k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-Scalar.of(o))

    def __rsub__(self, o):
        return Scalar.of(o) - self

    def __mul__(self, o):
        o = Scalar.of(o)
        if not self.t or not o.t:
            return SZERO
        t = {}
        for (ga, ma), va in self.t.items():
            for (gb, mb), vb in o.t.items():
                g = _gmul(ga, gb)
                if g is None:
                    continue
                for g2, m, c in _mmul(ma, mb):
                    gg = _gmul(g, g2)
                    if gg is None:
                        continue
                    k = (gg, m)
                    v = va * vb * c
                    w = t.get(k)
                    w = v if w is None else w + v
                    if w.t:
                        t[k] = w
                    else:
                        t.pop(k, None)
        return Scalar(t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * Scalar.of(o).inverse()

    def __rtruediv__(self, o):
        return Scalar.of(o) * self.inverse()

    def __pow__(self, n):
        if not isinstance(n, int):
            raise TypeError("power")
        if n < 0:
            return self.inverse() ** (-n)
        r = SONE
        for _ in range(n):
            r = r * self
        return r

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError("inverse of zero")
        if len(self.t) == 1:
            ((g, m), v), = self.t.items()
            if not g:
                r = Scalar({(frozenset(), ()): v.inv()})
                for i, e in m:
                    a = ATOMS[i]
                    if a.kind == "inv":
                        r = r * a.data ** e
                    else:
                        at = _mk("inv", Scalar.atom(a), a.real, ("a", a.idx))
                        r = r * Scalar.atom(at) ** e
                return r
        # normalise by the first coefficient
        k0 = min(self.t, key=_termkey)
        c = self.t[k0]
        p = self * Scalar.of(c.inv())
        at = _mk("inv", p, p.is_real(), ("p", p))
        return Scalar.atom(at) * Scalar.of(c.inv())

    def conj(self):
        r = SZERO
        for (g, m), v in self.t.items():
            x = Scalar({(g, ()): v.conj()})
            for i, e in m:
                x = x * conj_atom(ATOMS[i]) ** e
            r = r + x
        return r

    def is_real(self):
        return self == self.conj() if any(not ATOMS[i].real for (_, m) in self.t for i, _e in m) else all(
            v.is_real() for v in self.t.values())

    @property
    def real(self):
        return (self + self.conj()) * HALF

    @property
    def imag(self):
        return (self - self.conj()) * Scalar.of((I * Num.of(2)).inv())

    def const(self):
        """Num if constant, else None"""
        if not self.t:
            return ZERO
        if len(self.t) == 1 and (frozenset(), ()) in self.t:
            return self.t[(frozenset(), ())]
        return None

    def __eq__(self, o):
        return isinstance(o, Scalar) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def atoms(self):
        s = set()
        for (_, m) in self.t:
            for i, _e in m:
                s.add(i)
        return s

    def guards(self):
        s = set()
        for (g, _) in self.t:
            s |= g
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for (g, m), v in self.t.items():
            s = "(%r)" % v
            for i, e in m:
                s += "*" + atom_str(ATOMS[i]) + ("^%d" % e if e != 1 else "")
            if g:
                s += "*[" + " & ".join(str(LITS[x]).replace("\n", " ") for x in sorted(g)) + "]"
            out.append(s)
        return " + ".join(out)


def atom_str(a):
    if a.kind == "app":
        f, args = a.data
        return f if not args else "%s(%s)" % (f, ",".join(str(x).replace("\n", " ") for x in args))
    if a.kind == "conj":
        return "conj(%s)" % atom_str(a.data)
    if a.kind == "sum":
        return "Sum{%s}(%r)" % (a.data[1], a.data[2])
    return "%s(%r)" % (a.kind, a.data)


def _termkey(k):
    g, m = k
    return (len(m), m, sorted(g))


def _gmul(a, b):
    if not a:
        return b
    if not b:
        return a
    g = a | b
    for i in g:
        n = _NEG.get(i)
        if n is not None and n in g:
            return None
    return g


_NEG = {}


def _mmul(a, b):
    """product of monomials: list of (guard, mono, coeff Num); inv/sqrt/abs atoms simplify."""
    if not a:
        return [(_NOG, b, ONE)]
    if not b:
        return [(_NOG, a, ONE)]
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    # cancel atom * inv(atom)
    for i in list(d):
        at = ATOMS[i]
        if at.kind == "inv" and i in d:
            p = at.data
            if len(p.t) == 1:
                ((g, m), v), = p.t.items()
                if not g and len(m) == 1 and m[0][1] == 1 and v == ONE:
                    j = m[0][0]
                    if j in d:
                        c = min(d[i], d[j])
                        d[i] -= c
                        d[j] -= c
                        if not d[i]:
                            del d[i]
                        if not d[j]:
                            del d[j]
    extra = None
    for i in list(d):
        at = ATOMS[i]
        if at.kind in ("sqrt", "abs") and d.get(i, 0) >= 2:
            q = d[i] // 2
            d[i] -= 2 * q
            if not d[i]:
                del d[i]
            base = at.data if at.kind == "sqrt" else at.data * at.data.conj()
            extra = base ** q if extra is None else extra * base ** q
    m = tuple(sorted(d.items()))
    if extra is None:
        return [(_NOG, m, ONE)]
    r = Scalar({(frozenset(), m): ONE}) * extra
    return [(g, mm, v) for (g, mm), v in r.t.items()]


_NOG = frozenset()


SZERO = Scalar({})
SONE = Scalar({(frozenset(), ()): ONE})
HALF = Scalar.of(Num.of(2).inv())
SI = Scalar.of(I)

# ---------------------------------------------------------------- guards


def _lits(phi):
    """flatten a conjunction into literals"""
    if z3.is_and(phi):
        out = []
        for c in phi.children():
            out += _lits(c)
        return out
    return [smt.orient(phi)]


def lit(phi):
    LITS[phi.get_id()] = phi
    i = phi.get_id()
    if i not in _NEG:
        if z3.is_not(phi):
            p = phi.arg(0)
            LITS[p.get_id()] = p
            _NEG[i] = p.get_id()
            _NEG[p.get_id()] = i
        else:
            n = z3.Not(phi)
            LITS[n.get_id()] = n
            _NEG[i] = n.get_id()
            _NEG[n.get_id()] = i
    return i


def ind(phi):
    """Iverson bracket"""
    if isinstance(phi, bool):
        return SONE if phi else SZERO
    phi = z3.simplify(phi)
    if z3.is_true(phi):
        return SONE
    if z3.is_false(phi):
        return SZERO
    g = frozenset(lit(x) for x in _lits(phi))
    for i in g:
        if _NEG[i] in g:
            return SZERO
    return Scalar({(g, ()): ONE})


def ite(c, a, b):
    if isinstance(c, bool):
        return Scalar.of(a) if c else Scalar.of(b)
    a, b = Scalar.of(a), Scalar.of(b)
    if a == b:
        return a
    if not b.t:
        return mask(c, a)
    if not a.t:
        return mask(z3.simplify(z3.Not(c)), b)
    return b + mask(c, a - b)


def mask(p, v):
    """[p]*v, simplified when p is a condition q != 0 and v vanishes with q"""
    if isinstance(p, bool):
        return v if p else SZERO
    for l in _lits(z3.simplify(p)):
        c = cond_of(l)
        if c is not None and c[0] == "nz" and v.t and not rewrite_zero(v, c[1]).t:
            continue
        v = ind(l) * v
    return v


# ---------------------------------------------------------------- integers inside scalars

def from_int(x):
    """z3 integer term as a Scalar: linear combinations are split, ite becomes brackets, rest is an atom"""
    x = z3.simplify(x, som=True)
    return _from_int(x)


def _from_int(x):
    if z3.is_int_value(x):
        return Scalar.of(x.as_long())
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = SZERO
        for c in x.children():
            r = r + _from_int(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = x.children()
        r = _from_int(cs[0])
        for c in cs[1:]:
            r = r - _from_int(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -_from_int(x.arg(0))
    if k == z3.Z3_OP_MUL:
        r = SONE
        for c in x.children():
            r = r * _from_int(c)
        return r
    if k == z3.Z3_OP_ITE:
        return ite(x.arg(0), _from_int(x.arg(1)), _from_int(x.arg(2)))
    return app("int", x, real=True)


# ---------------------------------------------------------------- transcendental atoms

def exp(p):
    p = Scalar.of(p)
    if not p.t:
        return SONE
    return Scalar.atom(_mk("exp", p, p.is_real(), p))


def sqrt(p):
    """square root of a nonnegative real scalar"""
    p = Scalar.of(p)
    c = p.const()
    if c is not None:
        s = sqrt_num(c)
        if s is not None:
            return Scalar.of(s)
    return Scalar.atom(_mk("sqrt", p, True, p))


def absval(p):
    p = Scalar.of(p)
    c = p.const()
    if c is not None and c.is_real():
        return p if c.sign() >= 0 else -p
    if c is not None:
        s = sqrt_num(c * c.conj())
        if s is not None:
            return Scalar.of(s)
    # |p| = |-p|: normalise sign by leading coefficient when rational
    if p.t:
        v = p.t[min(p.t, key=_termkey)]
        q = v.rational()
        if q is not None and q < 0:
            p = -p
    return Scalar.atom(_mk("abs", p, True, p))


# ---------------------------------------------------------------- sums

def binder(sort, depth):
    return z3.Const("!b%d_%s" % (depth, str(sort).replace(" ", "")), sort)


def Sum(x, body):
    """sum over all values of the z3 constant x (finite support is the caller's obligation)"""
    body = Scalar.of(body)
    if not body.t:
        return SZERO
    res = SZERO
    for (g, m), v in body.t.items():
        gin = frozenset(i for i in g if occurs(x, LITS[i]))
        gout = g - gin
        min_, mout = [], []
        for i, e in m:
            (min_ if atom_has(ATOMS[i], x) else mout).append((i, e))
        # exp(p(x) + q) = exp(p(x)) exp(q)
        pulled = _pull_exp(x, min_)
        if pulled is not None:
            y = Scalar({(gin, ()): ONE}) * pulled[0]
            res = res + Scalar({(gout, tuple(mout)): v}) * pulled[1] * Sum(x, y)
            continue
        # delta elimination  [x == t]
        tsub = None
        glits = [LITS[i] for i in gin]
        for i in sorted(gin):
            t, extra = solve_for(x, LITS[i], glits)
            if t is not None:
                tsub = (i, t, extra)
                break
        inner = Scalar({(gin, tuple(min_)): ONE})
        outer = Scalar({(gout, tuple(mout)): v})
        if tsub is not None:
            i, t, extra = tsub
            inner = Scalar({(gin - {i}, tuple(min_)): ONE})
            y = outer * subst(inner, [(x, t)])
            for e in extra:
                y = ind(e) * y
            res = res + y
            continue
        if x.sort() == z3.IntSort():
            parts = _split_points(x, gin)
            if parts is not None:
                for sign, g2, t in parts:
                    base = Scalar({(g2, tuple(min_)): ONE})
                    if t is None:
                        res = res + outer * Sum(x, base)
                    else:
                        y = subst(base, [(x, z3.IntVal(t))])
                        res = res + (outer * y if sign > 0 else outer * y * -1)
                continue
        d = 1 + inner.depth()
        b = binder(x.sort(), d)
        inner2 = subst(inner, [(x, b)])
        at = _mk("sum", (str(x.sort()), b, inner2), inner2.is_real(), (str(x.sort()), d, inner2))
        res = res + outer * Scalar.atom(at)
    return res


def _pull_exp(x, mono):
    """(factor with exp(p(x)) only, factor free of x) when an exponential in the monomial has x-free terms"""
    hit = False
    inner, outer = SONE, SONE
    for i, e in mono:
        at = ATOMS[i]
        if at.kind == "exp" and e > 0:
            p = at.data
            free = {k: c for k, c in p.t.items()
                    if not any(occurs(x, LITS[j]) for j in k[0]) and not any(atom_has(ATOMS[j], x) for j, _ in k[1])}
            if free:
                hit = True
                rest = Scalar({k: c for k, c in p.t.items() if k not in free})
                inner = inner * exp(rest * e)
                outer = outer * exp(Scalar(free) * e)
                continue
        inner = inner * Scalar({(frozenset(), ((i, e),)): ONE})
    return (inner, outer) if hit else None


def _split_points(x, gin):
    """rewrite a sum over the integer x: [x != c] R = R - [x == c] R, and a sum over a short constant interval as
    its terms.  Returns [(sign, literals, value of x or None)]"""
    lo = hi = None
    bounds = []
    for i in gin:
        phi = LITS[i]
        neg = z3.is_not(phi)
        e = phi.arg(0) if neg else phi
        if not z3.is_app(e) or e.num_args() != 2:
            continue
        a, b = e.arg(0), e.arg(1)
        if z3.is_eq(e) and neg:
            c = b if a.eq(x) else a if b.eq(x) else None
            if c is not None and z3.is_int_value(c):
                return [(1, gin - {i}, None), (-1, gin - {i}, c.as_long())]
        k = e.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE):
            continue
        if a.eq(x) and z3.is_int_value(b):
            up, c = k == z3.Z3_OP_LE, b.as_long()
        elif b.eq(x) and z3.is_int_value(a):
            up, c = k == z3.Z3_OP_GE, a.as_long()
        else:
            continue
        if neg:
            c = c + 1 if up else c - 1
            up = not up
        bounds.append(i)
        if up:
            hi = c if hi is None else min(hi, c)
        else:
            lo = c if lo is None else max(lo, c)
    if lo is not None and hi is not None and hi - lo < 64:
        return [(1, gin - set(bounds), c) for c in range(lo, hi + 1)]
    return None


INVOLUTIONS = {}          # name of a function f with f(f(x)) = x -> f
# the last argument is what is inverted; further arguments come first and are handed on after it: g(w, *params)
INVERSES = {}             # name of an injective function f -> (g, image):  f(x) == w  <=>  image(w) and x == g(w)
COND_INVERSES = {}        # name of f -> (g, image, dom):  dom(x) and f(x) == w  <=>  image(w) and x == g(w)


def _call_of(u, table, x):
    """(last argument, parameters) of an application of a function of the table, x not in the parameters"""
    if not z3.is_app(u) or u.decl().name() not in table or u.num_args() == 0:
        return None
    kids = u.children()
    if any(occurs(x, p) for p in kids[:-1]):
        return None
    return kids[-1], kids[:-1]


def _solve_for(x, phi):
    if z3.is_eq(phi):
        a, b = phi.arg(0), phi.arg(1)
        if a.eq(x) and not occurs(x, b):
            return b
        if b.eq(x) and not occurs(x, a):
            return a
        for u, w in ((a, b), (b, a)):
            # f(x) == w for an involution f
            if z3.is_app(u) and u.decl().name() in INVOLUTIONS and u.arg(0).eq(x) and not occurs(x, w):
                return INVOLUTIONS[u.decl().name()](w)
        if x.sort() == z3.IntSort() and a.sort() == z3.IntSort():
            # linear with coefficient +-1
            d = z3.simplify(a - b - x)
            if not occurs(x, d):
                return z3.simplify(-d)
            d = z3.simplify(a - b + x)
            if not occurs(x, d):
                return z3.simplify(d)
    return None


def solve_for(x, phi, lits):
    """(t, extra): under the conjunction lits, phi determines x = t; phi is equivalent to x == t and extra"""
    t = _solve_for(x, phi)
    if t is not None:
        return t, []
    if z3.is_eq(phi):
        for u, w in (phi.children(), phi.children()[::-1]):
            if occurs(x, w):
                continue
            call = _call_of(u, INVERSES, x)
            if call:
                v, ps = call
                g, image = INVERSES[u.decl().name()]
                if v.eq(x):
                    return g(w, *ps), [image(w, *ps)]
                t = _solve_for(x, v == g(w, *ps))
                if t is not None:
                    return t, [image(w, *ps)]
            call = _call_of(u, COND_INVERSES, x)
            if call:
                v, ps = call
                g, image, dom = COND_INVERSES[u.decl().name()]
                if v.eq(x):
                    need = dom(x, *ps)
                    if any(l.eq(need) for l in lits):
                        return g(w, *ps), [image(w, *ps)]
                inner = _call_of(v, INVERSES, x)
                gw = g(w, *ps)
                if inner and inner[0].eq(x) and z3.is_app(gw) and gw.decl().eq(v.decl()) \
                        and len(gw.children()) == len(v.children()) and all(p.eq(q) for p, q in zip(inner[1], gw.children()[:-1])) \
                        and smt.entails(list(lits), dom(v, *ps), 1000) is True:
                    # f(h(x)) == w with h(x) == h(g'(w)), h injective where its value is known to be in the domain
                    return gw.children()[-1], [image(w, *ps)]
    if z3.is_eq(phi) and x.sort() == smt.Arr:
        for a, k in ((phi.arg(0), phi.arg(1)), (phi.arg(1), phi.arg(0))):
            # k == Store(..Store(x,i1,v1).., in, vn)   with the values x[i] known
            if occurs(x, k) or not occurs(x, a):
                continue
            base, ch = smt._store_chain(a)
            if not base.eq(x) or any(occurs(x, i) or occurs(x, v) for i, v in ch):
                continue
            if len(ch) != 1:
                continue
            i, v = ch[0]
            sel = z3.Select(x, i)
            known = None
            for l in lits:
                if l.eq(sel):
                    known = True
                elif z3.is_not(l) and l.arg(0).eq(sel):
                    known = False
            if known is None:
                continue
            kv = z3.Select(k, i)
            extra = [z3.simplify(kv == v)]
            return z3.Store(k, i, z3.BoolVal(known)), extra
    return None, []


_occ = {}


def occurs(x, e):
    k = (x.get_id(), e.get_id())
    if k in _occ:
        return _occ[k][0]
    seen = set()
    stack = [e]
    r = False
    while stack:
        t = stack.pop()
        if t.eq(x):
            r = True
            break
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack.extend(t.children())
    _occ[k] = (r, x, e)
    return r


def atom_has(a, x):
    if a.kind == "app":
        return any(smt.is_z3(y) and occurs(x, y) or isinstance(y, Scalar) and scalar_has(y, x) for y in a.data[1])
    if a.kind == "conj":
        return atom_has(a.data, x)
    if a.kind == "sum":
        return scalar_has(a.data[2], x)
    return scalar_has(a.data, x)


def scalar_has(s, x):
    return any(occurs(x, LITS[i]) for i in s.guards()) or any(atom_has(ATOMS[i], x) for i in s.atoms())


def subst(s, pairs):
    """substitute z3 constants by terms"""
    r = SZERO
    memo = {}
    for (g, m), v in s.t.items():
        x = Scalar({(frozenset(), ()): v})
        for i in g:
            if i not in memo:
                memo[i] = ind(z3.substitute(LITS[i], *pairs))
            x = x * memo[i]
        for i, e in m:
            k = ("a", i)
            if k not in memo:
                memo[k] = subst_atom(ATOMS[i], pairs)
            x = x * memo[k] ** e
        r = r + x
    return r


def subst_atom(a, pairs):
    if not any(atom_has(a, p[0]) for p in pairs):
        return Scalar.atom(a)
    if a.kind == "app":
        f, args = a.data
        new = []
        for y in args:
            if smt.is_z3(y):
                new.append(z3.simplify(z3.substitute(y, *pairs)))
            elif isinstance(y, Scalar):
                new.append(subst(y, pairs))
            else:
                new.append(y)
        if f == "int":
            return from_int(new[0])
        return app(f, *new, real=a.real)
    if a.kind == "conj":
        return subst_atom(a.data, pairs).conj()
    if a.kind == "inv":
        return subst(a.data, pairs).inverse()
    if a.kind == "exp":
        return exp(subst(a.data, pairs))
    if a.kind == "sqrt":
        return sqrt(subst(a.data, pairs))
    if a.kind == "abs":
        return absval(subst(a.data, pairs))
    if a.kind == "sum":
        sort, b, body = a.data
        y = smt.fresh(b.sort(), "y")
        return Sum(y, subst(subst(body, [(b, y)]), pairs))
    raise NotImplementedError(a.kind)


# ---------------------------------------------------------------- conditions on scalars

# A condition p != 0 (or p < 0) is a z3 predicate applied to the terms p is about:  nz!3(k) for psi(k) != 0.
COND_T = {}     # decl name -> (kind, template Scalar, placeholders)
_condkey = {}
_condinst = {}


def _has_binder(t):
    st = [t]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("!b"):
            return True
        if z3.is_app(e):
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    return False


def free_consts(t):
    out, st, seen = [], [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        elif z3.is_app(e):
            st.extend(reversed(e.children()))
        elif z3.is_quantifier(e):
            st.append(e.body())
    return out


class _Abs:
    def __init__(self):
        self.terms, self.ph = [], []

    def of(self, t):
        for x, p in zip(self.terms, self.ph):
            if x.eq(t):
                return p
        p = z3.Const("!p%d_%s" % (len(self.ph), str(t.sort()).replace(" ", "")), t.sort())
        self.terms.append(t)
        self.ph.append(p)
        return p

    def arg(self, t):
        if z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t) or not free_consts(t):
            return t
        if _has_binder(t):
            return self.lit(t)
        return self.of(t)

    def lit(self, t):
        pairs = [(c, self.of(c)) for c in free_consts(t) if not c.decl().name().startswith(("!b", "!p"))]
        return z3.substitute(t, *pairs) if pairs else t


def rebuild(s, farg, flit):
    """apply farg to the term arguments of atoms and flit to guard literals"""
    r = SZERO
    for k in sorted(s.t, key=_termkey):
        g, m = k
        x = Scalar({(frozenset(), ()): s.t[k]})
        for i in sorted(g):
            x = x * ind(flit(LITS[i]))
        for i, e in m:
            x = x * rebuild_atom(ATOMS[i], farg, flit) ** e
        r = r + x
    return r


def rebuild_atom(a, farg, flit):
    if a.kind == "app":
        f, args = a.data
        new = [farg(y) if smt.is_z3(y) else rebuild(y, farg, flit) if isinstance(y, Scalar) else y for y in args]
        if f == "int":
            return from_int(new[0])
        return app(f, *new, real=a.real)
    if a.kind == "conj":
        return rebuild_atom(a.data, farg, flit).conj()
    if a.kind == "inv":
        return rebuild(a.data, farg, flit).inverse()
    if a.kind == "exp":
        return exp(rebuild(a.data, farg, flit))
    if a.kind == "sqrt":
        return sqrt(rebuild(a.data, farg, flit))
    if a.kind == "abs":
        return absval(rebuild(a.data, farg, flit))
    if a.kind == "sum":
        sort, b, body = a.data
        y = smt.fresh(b.sort(), "!bs")
        return Sum(y, rebuild(subst(body, [(b, y)]), farg, flit))
    raise NotImplementedError(a.kind)


def _cond_atom(kind, p):
    ab = _Abs()
    t = rebuild(p, ab.arg, ab.lit)
    key = (kind, t)
    if key not in _condkey:
        name = "%s!%d" % (kind, len(_condkey))
        sorts = [x.sort() for x in ab.ph]
        d = z3.Function(name, *(sorts + [z3.BoolSort()])) if sorts else None
        _condkey[key] = (name, d)
        COND_T[name] = (kind, t, list(ab.ph))
    name, d = _condkey[key]
    e = d(*ab.terms) if d is not None else z3.Bool(name)
    _condinst.setdefault(e.get_id(), (kind, p, e))
    return e


def cond_of(e):
    """(kind, Scalar) of a condition atom, or None"""
    if not z3.is_app(e):
        return None
    t = COND_T.get(e.decl().name())
    if t is None:
        return None
    r = _condinst.get(e.get_id())
    if r is None:
        kind, tm, ph = t
        r = (kind, subst(tm, list(zip(ph, e.children()))), e)
        _condinst[e.get_id()] = r
    return r


def _normalise(p, positive):
    """divide by leading coefficient (its absolute value when positive=True); returns Scalar"""
    k0 = min(p.t, key=_termkey)
    c = p.t[k0]
    if positive:
        q = c.rational()
        if q is None:
            if c.is_real():
                return p * Scalar.of(c.inv()) * Scalar.of(c.sign())
            return p
        return p * Scalar.of(1 / abs(q))
    return p * Scalar.of(c.inv())


def cond_nz(p):
    """condition p != 0 as bool or z3 Bool"""
    p = Scalar.of(p)
    c = p.const()
    if c is not None:
        return not c.is_zero()
    if len(p.t) == 1:
        # [g]*m != 0  iff g and every atom of m nonzero (field)
        ((g, m), v), = p.t.items()
        if g:
            return z3.And(*[LITS[i] for i in sorted(g)], _as_z3(cond_nz(Scalar({(frozenset(), m): ONE}))))
        if len(m) > 1 or m[0][1] != 1:
            return z3.And(*[_as_z3(cond_nz(Scalar.atom(ATOMS[i]))) for i, e in m])
        a = ATOMS[m[0][0]]
        if a.kind in ("inv", "exp"):
            return True
        if a.kind in ("conj",):
            return cond_nz(Scalar.atom(a.data))
        if a.kind in ("sqrt", "abs"):
            return cond_nz(a.data)
    r = p._int_only()
    if r is not None:
        return z3.simplify(r != 0)
    p = _normalise(p, False)
    if not p.is_real():
        q = _normalise(p.conj(), False)       # p != 0 iff conj(p) != 0
        if _order_key(q) < _order_key(p):
            p = q
    return _cond_atom("nz", p)


def _order_key(p):
    return sorted((_termkey(k), str(v)) for k, v in p.t.items())


def cond_lt0(p):
    """condition p < 0 for real p"""
    p = Scalar.of(p)
    c = p.const()
    if c is not None:
        return c.sign() < 0
    r = p._int_only()
    if r is not None:
        return z3.simplify(r < 0)
    return _cond_atom("lt", _normalise(p, True))


def _int_only(self):
    """if the scalar is a rational combination of integer atoms: z3 real term, else None"""
    r = z3.RealVal(0)
    for (g, m), v in self.t.items():
        q = v.rational()
        if q is None or g:
            return None
        t = z3.RealVal(str(q))
        for i, e in m:
            a = ATOMS[i]
            if a.kind == "app" and a.data[0] == "int":
                for _ in range(e):
                    t = t * z3.ToReal(a.data[1][0])
            else:
                return None
        r = r + t
    return r


Scalar._int_only = _int_only


def int_term(p):
    """the z3 integer the scalar is, or None"""
    if isinstance(p, Scalar) and len(p.t) == 1:
        ((g, m), v), = p.t.items()
        if not g and len(m) == 1 and m[0][1] == 1 and v.rational() == 1:
            a = ATOMS[m[0][0]]
            if a.kind == "app" and a.data[0] == "int":
                return a.data[1][0]
    return None


def _as_z3(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def as_z3(b):
    return _as_z3(b)


# ---------------------------------------------------------------- deciding  p == 0

class Refuted(Exception):
    pass


# zero rules: list of functions (atom, asms) -> z3 Bool condition under which the atom is zero, or None
ZERO_WHEN = {}      # fname -> function(args) -> z3 Bool


def assume_simplify(s, asms, timeout=2000):
    """drop or resolve guard literals decided by the assumptions"""
    if not asms and not s.guards():
        return s
    dec = {}
    for i in s.guards():
        r = smt.entails(asms, LITS[i], timeout)
        if r is True:
            dec[i] = True
        else:
            r2 = smt.entails(asms, LITS[_NEG[i]], timeout)
            if r2 is True:
                dec[i] = False
    if not dec:
        return s
    t = {}
    for (g, m), v in s.t.items():
        if any(dec.get(i) is False for i in g):
            continue
        g2 = frozenset(i for i in g if i not in dec)
        w = t.get((g2, m))
        w = v if w is None else w + v
        if w.t:
            t[(g2, m)] = w
        else:
            t.pop((g2, m), None)
    return Scalar(t)


def _nz_atom(phi):
    """atom a if phi is the condition a != 0"""
    c = cond_of(phi)
    if c is None or c[0] != "nz" or len(c[1].t) != 1:
        return None
    (g, m), = c[1].t
    if g or len(m) != 1 or m[0][1] != 1:
        return None
    a = ATOMS[m[0][0]]
    return a.data.idx if a.kind == "conj" else m[0][0]


def absorb_nz(s):
    """[a != 0] a = a, [a == 0] a = 0, [a == 0] = 1 - [a != 0]   for atoms a"""
    pos, neg = {}, {}
    for i in s.guards():
        phi = LITS[i]
        a = _nz_atom(phi.arg(0) if z3.is_not(phi) else phi)
        if a is not None:
            (neg if z3.is_not(phi) else pos)[i] = a
    if not pos and not neg:
        return s
    out = SZERO
    for (g, m), v in s.t.items():
        have = {ATOMS[i].data.idx if ATOMS[i].kind == "conj" else i for i, e in m}
        if any(i in g for i in neg) and any(neg[i] in have for i in g if i in neg):
            continue
        g2 = frozenset(i for i in g if not (i in pos and pos[i] in have))
        ns = [i for i in g2 if i in neg]
        t = Scalar({(g2 - frozenset(ns), m): v})
        if len(ns) > 4:
            t = Scalar({(g2, m): v})
        else:
            for i in ns:
                t = t * (SONE - Scalar({(frozenset([_NEG[i]]), ()): ONE}))
        out = out + t
    return out


def _apply_conds(s, asms_lits):
    """use scalar conditions: under not nz(p), p = 0 (only when p has a term that can be rewritten)"""
    for phi in asms_lits:
        neg = z3.is_not(phi)
        at = phi.arg(0) if neg else phi
        c = cond_of(at)
        if c is None or c[0] != "nz" or not neg:
            continue
        s = rewrite_zero(s, c[1])
    return s


def rewrite_zero(s, p):
    """reduce s modulo p = 0 and conj(p) = 0 (one leading monomial each, no guards)"""
    s = _rewrite_zero(s, p)
    if s.t:
        q = p.conj()
        if q != p:
            q = _rewrite_zero(q, p)
            if q.t:
                s = _rewrite_zero(_rewrite_zero(s, q), _rewrite_zero(p, q))
    return s


def _rewrite_zero(s, p):
    if not p.t:
        return s
    cand = [(k, v) for k, v in p.t.items() if not k[0]]
    if not cand or len(cand) != len(p.t):
        return s
    k0, v0 = max(cand, key=lambda kv: (sum(e for _, e in kv[0][1]), kv[0][1]))
    m0 = dict(k0[1])
    rest = (p - Scalar({k0: v0})) * Scalar.of((-v0).inv())   # m0 = rest
    for _ in range(6):
        hit = False
        r = SZERO
        keep = {}
        for (g, m), v in s.t.items():
            d = dict(m)
            if m0 and all(d.get(i, 0) >= e for i, e in m0.items()):
                for i, e in m0.items():
                    d[i] -= e
                    if not d[i]:
                        del d[i]
                r = r + Scalar({(g, tuple(sorted(d.items()))): v}) * rest
                hit = True
            else:
                keep[g, m] = v
        if not hit:
            break
        s = r + Scalar(keep)
    return s


def _plain_bool(lits, asms):
    """most frequent uninterpreted Boolean constant of the literals that the assumptions do not mention"""
    cnt, ex = {}, {}
    for e in lits:
        for c in free_consts(e):
            if c.sort() == z3.BoolSort() and not _is_cond(c):
                cnt[c.decl().name()] = cnt.get(c.decl().name(), 0) + 1
                ex[c.decl().name()] = c
    for a in asms:
        for k in [k for k in cnt if occurs(ex[k], a)]:
            del cnt[k]
    if not cnt:
        return None
    return ex[max(sorted(cnt), key=lambda k: cnt[k])]


def _deep(s, phi):
    return any(atom_has(ATOMS[i], phi) for i in s.atoms())


def is_zero(s, asms=(), budget=None, depth=0):
    """True proved; False definite (normal form of independent atoms is nonzero in a feasible cell); None undecided."""
    if budget is None:
        budget = [400]
    s = Scalar.of(s)
    if not s.t:
        return True
    asms = _flat(asms)
    if depth == 0:
        s = absorb_nz(s)
        if not s.t:
            return True
    s = assume_simplify(s, asms)
    if not s.t:
        return True
    s = merge_cond_lits(s, asms)
    if not s.t:
        return True
    if budget[0] <= 0:
        return None
    budget[0] -= 1
    gs = s.guards()
    if gs:
        # split on the most frequent literal
        cnt = {}
        for (g, _) in s.t:
            for i in g:
                j = min(i, _NEG[i])
                cnt[j] = cnt.get(j, 0) + 1
        # conditions on amplitudes last: their polynomials simplify in a cell
        j = max(sorted(cnt), key=lambda i: (not _is_cond(LITS[i]), cnt[i]))
        phi = (_plain_bool([LITS[i] for i in cnt], asms))
        if phi is None:
            phi = _split_atom(LITS[j], asms)
        res = True
        plain = z3.is_const(phi) and phi.decl().kind() == z3.Z3_OP_UNINTERPRETED and not _is_cond(phi) and not any(occurs(phi, a) for a in asms)
        for f in (phi, z3.Not(phi)):
            if plain:
                b = z3.BoolVal(f is phi)
                s2 = SZERO
                for (g, m), v in s.t.items():
                    t = Scalar({(frozenset(), m): v})
                    for i in g:
                        t = t * (ind(z3.substitute(LITS[i], (phi, b))) if occurs(phi, LITS[i]) else Scalar({(frozenset([i]), ()): ONE}))
                    s2 = s2 + t
                # the constant occurs nowhere else: the cell is s2 without further assumptions
                r = is_zero(s2, asms if not _deep(s2, phi) else asms + [f], budget, 0)
                if r is not True:
                    return r
                continue
            sat = smt.check_sat(asms + [f], None, False)
            if sat[0] == "unsat":
                continue
            r = is_zero(_apply_conds(s, [f] + [a for a in asms if _is_cond(a)]), asms + [f], budget, depth + 1)
            if r is not True:
                return r
        return res
    # leaf: no guards
    s = _apply_conds(s, [a for a in asms if _is_cond(a)])
    if not s.t:
        return True
    # conditions whose polynomial carries guards: resolve them in this cell, or split further
    extra = []
    for a in asms:
        if not _is_cond(a):
            continue
        neg = z3.is_not(a)
        kind, p, _e = cond_of(a.arg(0) if neg else a)
        if kind != "nz" or (not p.guards() and p.const() is None):
            continue
        q = assume_simplify(p, asms)
        if q.guards():
            j = min(q.guards())
            res = True
            for f in (LITS[j], z3.Not(LITS[j])):
                if smt.check_sat(asms + [f], None, False)[0] == "unsat":
                    continue
                r = is_zero(s, asms + [f], budget, depth + 1)
                if r is not True:
                    return r
            return res
        k = q.const()
        if k is not None:
            if k.is_zero() != neg:
                return True          # this cell is empty
        elif neg:
            extra.append(q)
    for q in extra:
        s = rewrite_zero(s, q)
        if not s.t:
            return True
    for a in asms if not _merging[0] else ():               # alternatives between conditions: one cell each
        neg = z3.is_not(a) and z3.is_and(a.arg(0))
        if not neg and not z3.is_or(a):
            continue
        cs = (a.arg(0) if neg else a).children()
        if not all(_is_cond(c) for c in cs):
            continue
        res = True
        for f in ((lambda x: x), z3.Not):
            c = cs[0].arg(0) if z3.is_not(cs[0]) else cs[0]
            if smt.check_sat(asms + [f(c)], None, False)[0] == "unsat":
                continue
            r = is_zero(s, asms + [f(c)], budget, depth + 1)
            if r is not True:
                return r
        return res
    # zero rules
    changed = False
    zero = set()
    for i in s.atoms():
        a = ATOMS[i]
        b = a.data if a.kind == "conj" else a
        if b.kind == "app" and b.data[0] in ZERO_WHEN:
            c = ZERO_WHEN[b.data[0]](*b.data[1])
            if c is not None and smt.entails(asms, c) is True:
                zero.add(i)
    if zero:
        s = Scalar({k: v for k, v in s.t.items() if not any(i in zero for i, _e in k[1])})
        if not s.t:
            return True
    s = unify_atoms(s, asms)
    if not s.t:
        return True
    if any(ATOMS[i].kind == "sum" for i in s.atoms()):
        s2 = resolve_branches(s, asms)
        if s2 is not s:
            return is_zero(s2, asms, budget, depth + 1)
        r = sums_zero(s, asms, budget, depth)
        return r
    if any(ATOMS[i].kind in ("inv", "exp", "sqrt", "abs") for i in s.atoms()):
        s2 = clear_inverses(s)
        if not s2.t:
            return True
        if s2 != s:
            return is_zero(s2, asms, budget, depth + 1)
        return None
    if tiny(s):
        return None          # differs by less than rounding of a decimal constant: not a refutation
    sat = smt.check_sat(asms)
    if sat[0] == "sat":
        cs = _cond_atoms(asms)
        if cs:
            return False if _witness(s, asms, cs) else None
        return False
    return True if sat[0] == "unsat" else None


def _cond_atoms(asms):
    out, todo, seen = [], list(asms), set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in COND_T:
            out.append(e)
        else:
            todo += e.children()
    return out


def _witness(s, asms, cs):
    """numbers for the atoms under which the scalar conditions hold as in a model of asms and s is not 0"""
    import random
    sol = z3.Solver()
    sol.set("timeout", 5000)
    sol.add(*asms)
    if sol.check() != z3.sat:
        return False
    mod = sol.model()
    truth = lambda e: z3.is_true(mod.eval(e, model_completion=True))
    zeros, nzs, lts = [], [], []
    for e in cs:
        kind, p, _ = cond_of(e)
        q = SZERO
        for (g, m), v in p.t.items():
            if all(truth(LITS[i]) for i in g):
                q = q + Scalar({(frozenset(), m): v})
        t = truth(e)
        if kind == "nz":
            (nzs if t else zeros).append(q)
        else:
            lts.append((q, t))
    # solve the equations: one linear atom each
    sub = {}
    for q in zeros:
        q = _put(q, sub)
        if q is None:
            return False
        if not q.t:
            continue
        done = False
        for i in sorted(q.atoms()):
            if ATOMS[i].kind not in ("par", "app"):
                continue
            if all(dict(m).get(i, 0) == 0 or m == ((i, 1),) for (_, m) in q.t) and not any(
                    ATOMS[j].kind == "conj" and ATOMS[j].data.idx == i for j in q.atoms()):
                c = q.t[(frozenset(), ((i, 1),))]
                sub[i] = (q - Scalar({(frozenset(), ((i, 1),)): c})) * Scalar.of((-c).inv())
                sub = {k: _put(v, {i: sub[i]}) if k != i else v for k, v in sub.items()}
                if any(v is None for v in sub.values()):
                    return False
                done = True
                break
        if not done:
            return False
    s2 = _put(s, sub)
    nz2 = [_put(q, sub) for q in nzs]
    lt2 = [(_put(q, sub), t) for q, t in lts]
    if s2 is None or not s2.t or any(q is None for q in nz2) or any(q is None for q, _ in lt2):
        return False
    rng = random.Random(1)
    for _ in range(60):
        val = {}
        x = _evaluate(s2, val, rng, mod)
        if x is None:
            return False
        if abs(x) < 1e-6:
            continue
        ok = True
        for q in nz2:
            y = _evaluate(q, val, rng, mod)
            if y is None:
                return False
            ok &= abs(y) > 1e-9
        for q, t in lt2:
            y = _evaluate(q, val, rng, mod)
            if y is None:
                return False
            ok &= (y.real < 0) == t
        if ok:
            return True
    return False


def _put(s, sub):
    """substitute atoms by scalars (polynomially); None when an atom hides inside another one"""
    if not sub:
        return s
    r = SZERO
    for (g, m), v in s.t.items():
        x = Scalar({(g, ()): v})
        for i, e in m:
            a = ATOMS[i]
            if i in sub:
                x = x * sub[i] ** e
            elif a.kind == "conj" and a.data.idx in sub:
                x = x * sub[a.data.idx].conj() ** e
            elif a.kind in ("par", "app", "conj"):
                x = x * Scalar.atom(a) ** e
            else:
                return None
        r = r + x
    return r


def _evaluate(s, val, rng, mod):
    r = 0j
    for (g, m), v in s.t.items():
        x = complex(v)
        for i, e in m:
            a = ATOMS[i]
            b = a.data if a.kind == "conj" else a
            if b.kind not in ("par", "app"):
                return None
            if b.kind == "app" and b.data[0] == "int":
                y = complex(_int_value(mod, b.data[1][0]))
            else:
                if b.idx not in val:
                    val[b.idx] = complex(rng.uniform(-3, 3), 0 if b.real else rng.uniform(-3, 3))
                y = val[b.idx]
            x *= (y.conjugate() if a.kind == "conj" else y) ** e
        r += x
    return r


def _int_value(mod, t):
    v = mod.eval(t, model_completion=True)
    return v.as_long() if z3.is_int_value(v) else 0


def contradictory(asms):
    """a condition p != 0 among the assumptions whose polynomial vanishes under them"""
    asms = _flat(asms)
    if smt.check_sat(asms, None, False)[0] == "unsat":
        return True
    atoms = _cond_atoms(asms)
    asms = asms + [z3.Not(e) for e in atoms if smt.entails(asms, z3.Not(e)) is True]
    for e in atoms:
        c = cond_of(e)
        if c[0] == "nz" and smt.entails(asms, e) is True and is_zero(c[1], asms) is True:
            return True
    return False


def _split_atom(phi, asms):
    """a boolean leaf of a conditional literal that asms leaves open, else phi"""
    e = phi.arg(0) if z3.is_not(phi) else phi
    if not z3.is_app(e) or e.decl().kind() != z3.Z3_OP_ITE:
        return phi
    todo = [e]
    while todo:
        x = todo.pop(0)
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_OR, z3.Z3_OP_AND, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            todo += x.children()
        elif smt.entails(asms, x, 1000) is not True and smt.entails(asms, z3.Not(x), 1000) is not True:
            return x
    return phi


def _flat(asms):
    """conjunctions taken apart"""
    out, todo = [], list(asms)[::-1]
    while todo:
        a = todo.pop()
        if z3.is_and(a):
            todo += a.children()[::-1]
        elif z3.is_not(a) and z3.is_not(a.arg(0)):
            todo.append(a.arg(0).arg(0))
        elif z3.is_not(a) and z3.is_or(a.arg(0)):
            todo += [z3.Not(c) for c in a.arg(0).children()[::-1]]
        else:
            out.append(a)
    return _unit(out)


def _unit(asms):
    """one disjunct left over: Not(And(a, b)) with a gives Not(b)"""
    has = {a.get_id() for a in asms}
    neg = {a.arg(0).get_id() for a in asms if z3.is_not(a)}
    out, hit = [], False
    for a in asms:
        if z3.is_not(a) and z3.is_and(a.arg(0)):
            rest = [c for c in a.arg(0).children() if c.get_id() not in has]
            if len(rest) == 1 and (not z3.is_not(rest[0]) or rest[0].arg(0).get_id() not in has):
                out.append(z3.Not(rest[0]))
                hit = True
                continue
        elif z3.is_or(a):
            rest = [c for c in a.children() if c.get_id() not in neg]
            if len(rest) == 1:
                out.append(rest[0])
                hit = True
                continue
        out.append(a)
    return _flat(out) if hit else out


def tiny(s, tol=1e-9):
    """every coefficient is below tol (rounded decimal constants in the source)"""
    try:
        return all(abs(complex(v)) < tol for v in s.t.values())
    except OverflowError:
        return False


def _is_cond(a):
    at = a.arg(0) if z3.is_not(a) else a
    return z3.is_app(at) and at.decl().name() in COND_T


def clear_inverses(s):
    """multiply through by the denominators of inv atoms (they are nonzero where the expression is defined)"""
    for _ in range(8):
        inv = [i for i in s.atoms() if ATOMS[i].kind == "inv"]
        if not inv:
            return s
        i = max(inv)   # latest created first: inner inverses last
        p = ATOMS[i].data
        top = max(dict(m).get(i, 0) for (_, m) in s.t)
        r = SZERO
        for (g, m), v in s.t.items():
            d = dict(m)
            e = d.pop(i, 0)
            r = r + Scalar({(g, tuple(sorted(d.items()))): v}) * p ** (top - e)
        s = r
    return s


def _same_family(a, b):
    if a.kind != b.kind:
        return False
    if a.kind == "conj":
        return _same_family(a.data, b.data)
    if a.kind == "app":
        return a.data[0] == b.data[0] and len(a.data[1]) == len(b.data[1]) and a.real == b.real
    return False


def _args(a):
    return _args(a.data) if a.kind == "conj" else a.data[1]


def unify_atoms(s, asms):
    """identify application atoms whose arguments are provably equal"""
    ats = sorted(s.atoms())
    rep = {}
    for x, i in enumerate(ats):
        for j in ats[:x]:
            if j in rep:
                continue
            a, b = ATOMS[i], ATOMS[j]
            if not _same_family(a, b):
                continue
            ok = True
            for u, v in zip(_args(a), _args(b)):
                if smt.is_z3(u) and smt.is_z3(v):
                    if u.eq(v):
                        continue
                    if u.sort() != v.sort() or smt.entails(asms, u == v) is not True:
                        ok = False
                        break
                elif isinstance(u, Scalar) and isinstance(v, Scalar):
                    if u != v and is_zero(u - v, asms) is not True:
                        ok = False
                        break
                elif u != v:
                    ok = False
                    break
            if ok:
                rep[i] = j
                break
    if not rep:
        return s
    r = SZERO
    for (g, m), v in s.t.items():
        x = Scalar({(g, ()): v})
        for i, e in m:
            x = x * Scalar.atom(ATOMS[rep.get(i, i)]) ** e
        r = r + x
    return r


_merging = [0]


def merge_cond_lits(s, asms):
    """identify scalar-condition literals whose polynomials are provably equal"""
    ids = {}
    for i in s.guards():
        phi = LITS[i]
        at = phi.arg(0) if z3.is_not(phi) else phi
        if _is_cond(at):
            ids[at.get_id()] = at
    lst = list(ids.values())
    if len(lst) < 2:
        return s
    pairs = []
    used = set()
    for x in range(len(lst)):
        for y in range(x):
            cx, cy = cond_of(lst[x]), cond_of(lst[y])
            if cx[0] != cy[0] or x in used or y in used:
                continue
            _merging[0] += 1
            try:
                same = is_zero(cx[1] - cy[1], asms) is True
            finally:
                _merging[0] -= 1
            if same:
                pairs.append((lst[x], lst[y]))
                used.add(x)
    if not pairs:
        return s
    r = SZERO
    for (g, m), v in s.t.items():
        t = Scalar({(frozenset(), m): v})
        for i in g:
            t = t * ind(z3.substitute(LITS[i], *pairs))
        r = r + t
    return r


def _multisum(s):
    """[(binders, body Scalar)] : every product of sums flattened to one multi-sum"""
    out = []
    for (g, m), v in s.t.items():
        bs = []
        body = Scalar({(g, ()): v})
        stack = list(m)
        while stack:
            i, e = stack.pop()
            a = ATOMS[i]
            if a.kind == "sum":
                for _ in range(e):
                    sort, b, inner = a.data
                    y = smt.fresh(b.sort(), "m")
                    bs.append(y)
                    inn = subst(inner, [(b, y)])
                    # inn is a single monomial with guard
                    if len(inn.t) != 1:
                        body = body * inn
                        continue
                    ((g2, m2), v2), = inn.t.items()
                    body = body * Scalar({(g2, ()): v2})
                    stack.extend(m2)
            else:
                body = body * Scalar.atom(a) ** e
        out.append((bs, body))
    return out


def resolve_branches(s, asms):
    """conditional literals inside sums whose condition the assumptions decide"""
    def go(x):
        out, hit = SZERO, False
        for (g, m), v in x.t.items():
            t = Scalar({(frozenset(), ()): v})
            for i in g:
                f = LITS[i]
                core = f.arg(0) if z3.is_not(f) else f
                if z3.is_app(core) and core.decl().kind() == z3.Z3_OP_ITE:
                    c = core.arg(0)
                    d = z3.BoolVal(True) if smt.entails(asms, c, 1000) is True else \
                        z3.BoolVal(False) if smt.entails(asms, z3.Not(c), 1000) is True else None
                    if d is not None:
                        t = t * ind(z3.simplify(z3.substitute(f, (c, d))))
                        hit = True
                        continue
                t = t * Scalar({(frozenset([i]), ()): ONE})
            for i, e in m:
                a = ATOMS[i]
                if a.kind == "sum":
                    b, (y, h) = a.data[1], go(a.data[2])
                    if h:
                        hit = True
                        t = t * Sum(b, y) ** e
                        continue
                t = t * Scalar({(frozenset(), ((i, e),)): ONE})
            out = out + t
        return (out, True) if hit else (x, False)
    if not any(z3.is_app(f) for f in asms):
        return s
    r, hit = go(s)
    return r if hit else s


def sums_zero(s, asms, budget, depth):
    import itertools
    groups = {}
    for bs, body in _multisum(s):
        key = tuple(sorted(str(b.sort()) for b in bs))
        groups.setdefault(key, []).append((sorted(bs, key=lambda b: (str(b.sort()), str(b))), body))
    res = True
    for key, items in groups.items():
        if not key:
            r = is_zero(_addall([b for _, b in items]), asms, budget, depth + 1)
            if r is not True:
                return r if r is None else None
            continue
        # one common vector of binders; greedy matching over permutations of equal sorts
        base = items[0][0]
        perms = [p for p in itertools.permutations(range(len(base)))
                 if all(base[i].sort() == base[p[i]].sort() for i in range(len(base)))]
        total = items[0][1]
        # first try identity everywhere
        variants = []
        for bs, body in items[1:]:
            vs = []
            for p in perms[:24]:
                vs.append(subst(body, [(bs[i], base[p[i]]) for i in range(len(base))]))
            variants.append(vs)
        ok = None
        combos = itertools.product(*variants) if variants else [()]
        n = 0
        for combo in combos:
            n += 1
            if n > 40:
                break
            tot = total
            for c in combo:
                tot = tot + c
            r = is_zero(tot, asms, budget if n > 1 else budget, depth + 1)
            if r is True:
                ok = True
                break
            if r is None:
                ok = ok
        if ok is not True:
            return None
    return res


def _addall(xs):
    r = SZERO
    for x in xs:
        r = r + x
    return r
