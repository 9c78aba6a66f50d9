"""Semantics of operators, containers and library functions."""
import ast
import math
import operator
import z3
import numpy as _np
from fractions import Fraction

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .num import Num
from .values import *
from .interp import PyRaise, Infeasible, NOMERGE, smt_int, nbytes_bits, tuple_iter, empty_map, Vm, _ite

LIBF = {}
CONSTS = {}


def lib(*names):
    def deco(f):
        for n in names:
            LIBF[n] = f
        return f
    return deco


def install(vm):
    from . import physlib, nd, sparse, speclib  # noqa: F401  (register their contracts)
    vm.lib.update(LIBF)
    vm.consts.update(CONSTS)


# ---------------------------------------------------------------- key kinds

def _state_wrap(vm, k):
    return vm.state_value(k)


def _state_unwrap(vm, v):
    if isinstance(v, BBytes):
        if vm.state_n is None:
            raise Unsupported("state key without a number of spin-orbitals")
        if vm.known(vm._eqi(v.bits.length, nbytes_bits(vm, vm.state_n))) is not True:
            raise Unsupported("state key of another length")
        return vm.bits_term(v.bits)
    return None


def _state_valid(vm, k):
    return [smt.canonical(k, smt_int(vm.state_n))]


STATE = KeyKind("state", smt.Arr, _state_wrap, _state_unwrap, _state_valid)
INTKEY = KeyKind("int", z3.IntSort(), lambda vm, k: k,
                 lambda vm, v: smt_int(vm.as_int(v)) if vm.is_intlike(v) else None, lambda vm, k: [])


def key_of(vm, v):
    """(KeyKind, term) for symbolic keys, or None"""
    if isinstance(v, BBytes):
        return STATE, _state_unwrap(vm, v)
    if hasattr(v, "map_key"):
        return v.map_key(vm)
    if isinstance(v, z3.ArithRef):
        return INTKEY, v
    if isinstance(v, Scalar) and sc.int_term(v) is not None:
        return INTKEY, sc.int_term(v)
    if isinstance(v, SymSeq):
        for h in vm.key_hooks:
            r = h(vm, v)
            if r is not None:
                return r
    return None


def freeze(vm, v):
    """hashable form of a concrete key"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, str, bytes)) or v is None:
        return v
    if isinstance(v, Scalar):
        c = v.const()
        if c is not None:
            q = c.rational()
            if q is not None and q.denominator == 1:
                return int(q)
            return c
        if sc.int_term(v) is not None:
            return freeze(vm, sc.int_term(v))
        return ("scalar", v)
    if isinstance(v, tuple):
        return tuple(freeze(vm, x) for x in v)
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        sc.LITS[v.get_id()] = v
        return ZKey(v)
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, SetObj) and o.frozen:
            return ("frozenset", frozenset(o.d))
        raise PyRaise("TypeError", "unhashable")
    if isinstance(v, PosTuple) and all(p[0] == "one" for p in v.parts):
        return tuple(freeze(vm, p[1]) for p in v.parts)
    if isinstance(v, (Lib, Func, RepoModule)):
        return v
    if isinstance(v, (BStr, BBytes, BInt)):
        raise Unsupported("symbolic bit string as key of a concrete dictionary")
    raise Unsupported("key %r" % (v,))


class ZKey:
    made = False

    def __init__(self, e):
        self.e = e
        ZKey.made = True

    def __eq__(self, o):
        return isinstance(o, ZKey) and self.e.eq(o.e)

    def __hash__(self):
        return hash(("z", self.e.get_id()))

    def __lt__(self, o):
        return str(self.e) < str(o.e if isinstance(o, ZKey) else o)


_HZ = {}


def has_z(k):
    if isinstance(k, ZKey):
        return True
    if isinstance(k, tuple):
        r = _HZ.get(k)
        if r is None:
            r = _HZ[k] = any(has_z(x) for x in k)
        return r
    return False


def find_key(vm, d, k, keyval):
    """the frozen key of d equal to k (deciding symbolic integers), or None"""
    if k in d:
        return k
    sym = has_z(k)
    if not sym and not ZKey.made:
        return None
    for kk, ent in d.items():
        if sym or has_z(kk):
            c = vm.eq(ent[1], keyval)
            if vm.decide(c):
                return kk
    return None


# ---------------------------------------------------------------- operators

_PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul}


def binop(vm, op, a, b):
    t = type(op)
    if isinstance(a, (Poison, Opaque)) or isinstance(b, (Poison, Opaque)):
        if isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str)) and t is ast.Add:
            ps = [[x] if isinstance(x, str) else x.parts for x in (a, b)]
            return Opaque() if None in ps else text(ps[0] + ps[1])
        if t is ast.Mod and isinstance(a, (str, Opaque)):
            return Opaque()
        raise Unsupported("operation on unknown value")
    for x, y, rev in ((a, b, False), (b, a, True)):
        if hasattr(x, "binop_model"):
            r = x.binop_model(vm, op, y, rev)
            if r is not NotImplemented:
                return r
    if isinstance(a, Ref) or isinstance(b, Ref):
        return ref_binop(vm, op, a, b)
    if isinstance(a, (BInt, OneHot)) or isinstance(b, (BInt, OneHot)):
        return bint_binop(vm, op, a, b)
    if isinstance(a, (str, BStr, StrAcc)) or isinstance(b, (str, BStr, StrAcc)):
        return str_binop(vm, op, a, b)
    if isinstance(a, bytes) or isinstance(b, bytes):
        raise Unsupported("bytes operation")
    if isinstance(a, (tuple, PosTuple, SymSeq)) or isinstance(b, (tuple, PosTuple, SymSeq)):
        return tuple_binop(vm, op, a, b)
    if not (vm.is_num(a) and vm.is_num(b)):
        if a is None or b is None or isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
            raise PyRaise("TypeError")
        raise Unsupported("operation on %r and %r" % (a, b))
    ints = vm.is_intlike(a) and vm.is_intlike(b)
    if isinstance(a, int) and isinstance(b, int):
        a, b = int(a), int(b)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            return a * b
        if t is ast.Div:
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return Scalar.of(Fraction(a, b))
        if t is ast.FloorDiv:
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a // b
        if t is ast.Mod:
            if b == 0:
                raise PyRaise("ZeroDivisionError")
            return a % b
        if t is ast.Pow:
            return a ** b if b >= 0 else Scalar.of(Fraction(1) / Fraction(a) ** (-b))
        if t is ast.LShift:
            return a << b
        if t is ast.RShift:
            return a >> b
        if t is ast.BitAnd:
            return a & b
        if t is ast.BitOr:
            return a | b
        if t is ast.BitXor:
            return a ^ b
        raise Unsupported("operator")
    if ints:
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)) and t in (ast.BitAnd, ast.BitOr, ast.BitXor):
            x, y = sc.as_z3(a), sc.as_z3(b)
            return {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[t](x, y)
        x, y = vm.as_int(a), vm.as_int(b)
        if t in _PYOPS:
            if t is ast.Mult:
                # keep boolean-valued factors out of nonlinear terms
                pass
            return z3.simplify(_PYOPS[t](smt_int(x), smt_int(y)))
        if t in (ast.FloorDiv, ast.Mod):
            pos = vm.known(smt_int(y) > 0)
            if pos is not True:
                if vm.decide(smt_int(y) == 0):
                    raise PyRaise("ZeroDivisionError")
                if not vm.decide(smt_int(y) > 0):
                    raise Unsupported("division by a negative number")
            r = smt_int(x) / smt_int(y) if t is ast.FloorDiv else smt_int(x) % smt_int(y)
            if not isinstance(y, int):
                # nonlinear: name quotient and remainder
                q, m = smt.fresh_int("quo"), smt.fresh_int("rem")
                key = (smt_int(x).get_id(), smt_int(y).get_id())
                memo = vm.__dict__.setdefault("divmemo", {})
                if key in memo:
                    q, m = memo[key][:2]
                else:
                    memo[key] = (q, m, smt_int(x), smt_int(y))
                vm.assume(z3.And(smt_int(x) == q * smt_int(y) + m, m >= 0, m < smt_int(y)))
                return q if t is ast.FloorDiv else m
            return z3.simplify(r)
        if t is ast.Div:
            pass
        elif t is ast.Pow:
            if isinstance(b, int) and b >= 0:
                r = smt_int(1)
                for _ in range(b):
                    r = r * smt_int(x)
                return z3.simplify(r)
            if isinstance(a, int) and a == -1:
                return z3.If(smt_int(y) % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
            raise Unsupported("symbolic power")
        elif t is ast.LShift:
            if isinstance(a, int) and a == 1:
                return OneHot(y)
            raise Unsupported("shift")
        elif t is ast.RShift and isinstance(y, int) and y >= 0:
            return z3.simplify(smt_int(x) / (2 ** y))
        elif t is ast.BitAnd and isinstance(y, int) and y == 1:
            return z3.simplify(smt_int(x) % 2)
        elif t is ast.BitAnd and isinstance(x, int) and x == 1:
            return z3.simplify(smt_int(y) % 2)
        else:
            raise Unsupported("integer operator %s" % t.__name__)
    x, y = Scalar.of(a), Scalar.of(b)
    if t is ast.Add:
        return x + y
    if t is ast.Sub:
        return x - y
    if t is ast.Mult:
        return x * y
    if t is ast.Div:
        c = sc.cond_nz(y)
        if c is False:
            raise PyRaise("ZeroDivisionError")
        # division by a possibly zero symbolic number: value defined where it is nonzero
        return x / y
    if t is ast.Pow:
        if isinstance(b, int):
            return x ** b
        c = y.const()
        if c is not None and c.rational() is not None:
            q = c.rational()
            if q.denominator == 1:
                return x ** int(q)
            if q == Fraction(1, 2):
                return sc.sqrt(x)
        raise Unsupported("power")
    raise Unsupported("operator %s on numbers" % t.__name__)


def bint_binop(vm, op, a, b):
    t = type(op)
    if t in (ast.BitAnd, ast.BitOr, ast.BitXor):
        for x, m in ((a, b), (b, a)):
            if isinstance(x, BInt):
                if isinstance(m, int) and m >= 0 and bin(m).count("1") == 1:
                    m = OneHot(m.bit_length() - 1)
                if isinstance(m, int) and m == 0:
                    return 0 if t is ast.BitAnd else x
                if isinstance(m, OneHot):
                    return _bint_mask(vm, t, x, m)
        raise Unsupported("bit operation")
    if t is ast.RShift and isinstance(a, BInt) and vm.is_intlike(b):
        w = smt_int(a.bits.length)
        s = smt_int(vm.as_int(b))
        if vm.known(s < 0) is not False:
            if vm.decide(s < 0):
                raise PyRaise("ValueError")
        if vm.known(s <= w) is not True:
            if not vm.decide(s <= w):
                return 0
        return BInt(slice_bits(vm, a.bits, 0, z3.simplify(w - s)))
    if t is ast.LShift and isinstance(a, BInt):
        raise Unsupported("left shift")
    if t is ast.Mod and isinstance(a, BInt) and b == 2:
        w = smt_int(a.bits.length)
        if vm.decide(w == 0):
            return 0
        return z3.If(a.bits.bit(w - 1), z3.IntVal(1), z3.IntVal(0))
    if t in (ast.Add, ast.Sub) and isinstance(a, BInt) and isinstance(b, OneHot) and not b.inverted:
        # adding a bit that is clear / subtracting a bit that is set
        w = smt_int(a.bits.length)
        pos = w - 1 - smt_int(b.k)
        inr = z3.And(pos >= 0, pos < w)
        bit = a.bits.bit(pos)
        need = z3.Not(bit) if t is ast.Add else bit
        if vm.known(z3.And(inr, need)) is True:
            return _bint_mask(vm, ast.BitXor, a, b)
    raise Unsupported("operation on a bit-encoded integer")


def _bint_mask(vm, t, x, m):
    w = smt_int(x.bits.length)
    k = smt_int(m.k)
    if vm.known(k >= 0) is not True:
        if not vm.decide(k >= 0):
            raise PyRaise("ValueError")
    pos = z3.simplify(w - 1 - k)
    inside = vm.known(pos >= 0)
    if inside is not True:
        if not vm.decide(pos >= 0):
            # the bit is beyond the width: it is 0 in x
            if t is ast.BitAnd:
                return x if m.inverted else 0
            raise Unsupported("bit beyond the width")
    bit = x.bits.bit(pos)
    if t is ast.BitAnd and not m.inverted:
        return MaskedBit(bit, m)
    if m.inverted and t is not ast.BitAnd:
        raise Unsupported("inverted mask")
    a, o, n = _single(vm, x.bits)
    new = {ast.BitAnd: z3.BoolVal(False), ast.BitOr: z3.BoolVal(True), ast.BitXor: z3.Not(bit)}[t]
    return BInt(Bits([(z3.Store(a, smt_int(o) + pos, z3.simplify(new)), o, n)]))


class MaskedBit:
    """x & (1<<k): 0 or 1<<k"""

    def __init__(self, bit, m):
        self.bit, self.m = bit, m

    def truth_model(self, vm):
        return self.bit

    def eq_model(self, vm, o):
        if isinstance(o, int) and o == 0:
            return z3.Not(self.bit)
        if isinstance(o, OneHot) and o.k is self.m.k:
            return self.bit
        raise Unsupported("comparison of a masked bit")

    def compare_model(self, vm, op, b):
        if isinstance(op, ast.Gt) and isinstance(b, int) and b == 0:
            return self.bit
        raise Unsupported("comparison of a masked bit")

    def binop_model(self, vm, op, y, rev):
        if isinstance(op, ast.RShift) and not rev:
            if vm.known(smt_int(vm.as_int(y)) == smt_int(self.m.k)) is True:
                return z3.If(self.bit, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported("operation on a masked bit")


def _single(vm, bits):
    if len(bits.p) == 1:
        return bits.p[0]
    if not bits.p:
        return (smt.EMPTY, 0, 0)
    k = z3.Int("k!lam")
    return (z3.Lambda([k], bits.bit(k)), 0, bits.length)


def slice_bits(vm, bits, a, b):
    """positions a <= p < b, 0 <= a <= b <= length assumed"""
    a, b = smt_int(a), smt_int(b)
    out = []
    c = z3.IntVal(0)
    n = len(bits.p)
    for arr, o, ln in bits.p:
        ln = smt_int(ln)
        if n == 1:
            lo, hi = a, b
        else:
            lo = z3.simplify(z3.If(a > c, a - c, z3.IntVal(0)))
            hi = z3.simplify(z3.If(b - c < ln, b - c, ln))
            if vm.known(hi <= lo) is True:
                c = c + ln
                continue
            if vm.known(hi >= lo) is not True:
                hi = z3.If(hi > lo, hi, lo)
            lo, hi = _decided(vm, lo), _decided(vm, hi)
        out.append((arr, z3.simplify(smt_int(o) + lo), z3.simplify(hi - lo)))
        c = c + ln
    return Bits(out)


def _decided(vm, e):
    """resolve a top-level ite when its condition is decided"""
    e = z3.simplify(e)
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        k = vm.known(e.arg(0))
        if k is None:
            return e
        e = z3.simplify(e.arg(1) if k else e.arg(2))
    return e


def slice_bounds(vm, sl, n):
    """normalised (start, stop) for step 1 or None with 0 <= start <= stop <= n as ints/z3; forks when needed"""
    n_ = smt_int(n)

    def norm(x, default):
        if x is None:
            return default
        x = vm.as_int(x)
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        z = smt_int(x)
        if vm.known(z3.And(z >= 0, z <= n_)) is True:
            return z3.simplify(z)
        if vm.decide(z < 0):
            z = z + n_
            if vm.decide(z < 0):
                return z3.IntVal(0)
            return z3.simplify(z)
        if not vm.decide(z <= n_):
            return n
        return z3.simplify(z)
    a = norm(sl.a, 0)
    b = norm(sl.b, n)
    if isinstance(a, int) and isinstance(b, int):
        return a, max(a, b)
    if vm.known(smt_int(a) <= smt_int(b)) is not True:
        if not vm.decide(smt_int(a) <= smt_int(b)):
            return a, a
    return a, b


def str_binop(vm, op, a, b):
    t = type(op)
    if t is ast.Mod and isinstance(a, str):
        return Opaque()
    if t is ast.Mult:
        if isinstance(b, (str, BStr)):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, str) and vm.is_intlike(b) and a in ("0", "1"):
            n = smt_int(vm.as_int(b))
            if vm.known(n >= 0) is not True:
                if not vm.decide(n >= 0):
                    return ""
            arr = smt.EMPTY if a == "0" else z3.K(z3.IntSort(), z3.BoolVal(True))
            return BStr(Bits([(arr, 0, n)]))
        if isinstance(a, str) and a == "":
            return ""
        raise Unsupported("string repetition")
    if t is ast.Add:
        if isinstance(a, StrAcc):
            return StrAcc(a.sym, a.added + [b])
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        ba, bb = to_bits(vm, a), to_bits(vm, b)
        if ba is None or bb is None:
            if isinstance(a, (str, BStr)) and isinstance(b, (str, BStr)):
                return Opaque()
            raise PyRaise("TypeError")
        return BStr(Bits(ba.p + bb.p))
    raise Unsupported("string operation")


def to_bits(vm, s):
    if isinstance(s, BStr):
        return s.bits
    if isinstance(s, str) and all(c in "01" for c in s):
        return Bits([(z3.K(z3.IntSort(), z3.BoolVal(c == "1")), 0, 1) for c in s])
    return None


def tuple_binop(vm, op, a, b):
    t = type(op)
    if t is ast.Add:
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        pa, pb = to_pos(vm, a), to_pos(vm, b)
        if pa is not None and pb is not None:
            return PosTuple(pa.parts + pb.parts)
        raise Unsupported("tuple concatenation")
    if t is ast.Mult:
        if isinstance(a, int):
            a, b = b, a
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    raise Unsupported("tuple operation")


def to_pos(vm, v):
    if isinstance(v, PosTuple):
        return v
    if isinstance(v, tuple) and all(vm.is_intlike(x) for x in v):
        return PosTuple([("one", smt_int(vm.as_int(x))) for x in v])
    return None


def ref_binop(vm, op, a, b):
    oa = vm.get(a) if isinstance(a, Ref) else None
    ob = vm.get(b) if isinstance(b, Ref) else None
    t = type(op)
    for o, x, y, rev in ((oa, a, b, False), (ob, b, a, True)):
        if o is not None and hasattr(o, "binop_obj"):
            r = o.binop_obj(vm, op, x, y, rev)
            if r is not NotImplemented:
                return r
    if isinstance(oa, ListObj) and t is ast.Add and isinstance(ob, ListObj):
        if oa.base is None and ob.base is None:
            return vm.alloc(ListObj(oa.items + ob.items))
        r = vm.alloc(ListObj(list(oa.items), oa.base))
        vm.method(r, "extend", [b], {})
        return r
    if isinstance(oa, ListObj) and t is ast.Mult and isinstance(b, int):
        if oa.base is None:
            return vm.alloc(ListObj(oa.items * b))
    if isinstance(ob, ListObj) and t is ast.Mult and isinstance(a, int):
        if ob.base is None:
            return vm.alloc(ListObj(ob.items * a))
    if isinstance(oa, ListObj) and t is ast.Mult and vm.is_intlike(b) and oa.base is None and len(oa.items) == 1:
        v = oa.items[0]
        n = smt_int(vm.as_int(b))
        if vm.known(n >= 0) is not True and not vm.decide(n >= 0):
            return vm.alloc(ListObj([]))
        return vm.alloc(ListObj([], SymSeq(n, lambda k: v, "list")))
    if isinstance(oa, SetObj) and isinstance(ob, SetObj):
        m = {ast.Sub: "difference", ast.BitAnd: "intersection", ast.BitOr: "union"}.get(t)
        if m:
            return method(vm, a, m, [b], {})
    if isinstance(oa, (SymSetObj, SetObj)) and isinstance(ob, (SymSetObj, SetObj)):
        m = {ast.Sub: "difference", ast.BitAnd: "intersection", ast.BitOr: "union"}.get(t)
        if m:
            return method(vm, a, m, [b], {})
    if isinstance(oa, (NdObj, SymNdObj)) or isinstance(ob, (NdObj, SymNdObj)):
        from .nd import nd_binop
        return nd_binop(vm, op, a, b)
    if isinstance(oa, DictObj) and isinstance(ob, DictObj) and t is ast.BitOr:
        r = vm.alloc(oa.clone())
        vm.method(r, "update", [b], {})
        return r
    raise Unsupported("operation on objects")


# ---------------------------------------------------------------- comparison

def compare(vm, op, a, b):
    t = type(op)
    if t is ast.Eq or t is ast.NotEq:
        if isinstance(a, Ref) and isinstance(vm.get(a), (NdObj, SymNdObj)) or isinstance(b, Ref) and isinstance(
                vm.get(b), (NdObj, SymNdObj)):
            from .nd import nd_compare
            return nd_compare(vm, op, a, b)
        c = vm.eq(a, b)
        if t is ast.Eq:
            return c
        return (not c) if isinstance(c, bool) else z3.Not(c)
    if t is ast.Is or t is ast.IsNot:
        if a is None or b is None:
            r = a is b
        elif isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a is b
            elif isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
                r = vm.eq(a, b)
                return r if t is ast.Is else (not r if isinstance(r, bool) else z3.Not(r))
            else:
                r = False
        elif isinstance(a, Ref) and isinstance(b, Ref):
            r = a == b
        elif isinstance(a, (Lib, Func)) or isinstance(b, (Lib, Func)):
            r = a == b
        else:
            raise Unsupported("identity test")
        return r if t is ast.Is else not r
    if t is ast.In or t is ast.NotIn:
        c = contains(vm, b, a)
        if t is ast.In:
            return c
        return (not c) if isinstance(c, bool) else z3.simplify(z3.Not(c))
    # ordering
    if isinstance(a, (Poison, Opaque)) or isinstance(b, (Poison, Opaque)):
        raise Unsupported("ordering of unknown value")
    if hasattr(a, "compare_model"):
        return a.compare_model(vm, op, b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        oa = vm.get(a) if isinstance(a, Ref) else None
        ob = vm.get(b) if isinstance(b, Ref) else None
        if isinstance(oa, (NdObj, SymNdObj)) or isinstance(ob, (NdObj, SymNdObj)):
            from .nd import nd_compare
            return nd_compare(vm, op, a, b)
        raise Unsupported("ordering of objects")
    if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is not z3.BoolRef:
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
        return f(a, b)
    if vm.is_intlike(a) and vm.is_intlike(b):
        x, y = smt_int(vm.as_int(a)), smt_int(vm.as_int(b))
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[t]
        r = z3.simplify(f(x, y))
        return True if z3.is_true(r) else False if z3.is_false(r) else r
    if vm.is_num(a) and vm.is_num(b):
        return scalar_cmp(t, Scalar.of(a), Scalar.of(b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        raise Unsupported("ordering of tuples")
    raise Unsupported("ordering")


INF = sc.par("inf!")


def scalar_cmp(t, x, y):
    if t is ast.Lt:
        r = sc.cond_lt0(x - y)
    elif t is ast.Gt:
        r = sc.cond_lt0(y - x)
    elif t is ast.LtE:
        r = sc.cond_lt0(y - x)
        r = (not r) if isinstance(r, bool) else z3.Not(r)
    else:
        r = sc.cond_lt0(x - y)
        r = (not r) if isinstance(r, bool) else z3.Not(r)
    return r


def contains(vm, c, v):
    if hasattr(c, "contains_model"):
        return c.contains_model(vm, v)
    if isinstance(c, tuple):
        cs = []
        for x in c:
            e = vm.eq(x, v)
            if e is True:
                return True
            if e is not False:
                cs.append(e)
        return False if not cs else z3.simplify(z3.Or(*cs))
    if isinstance(c, str) and isinstance(v, str):
        return v in c
    if isinstance(c, range):
        if isinstance(v, int):
            return v in c
        z = smt_int(vm.as_int(v))
        if c.step == 1:
            return z3.And(c.start <= z, z < c.stop)
        raise Unsupported("in range")
    if isinstance(c, PosTuple):
        if not vm.is_intlike(v):
            raise Unsupported("membership")
        z = smt_int(vm.as_int(v))
        return z3.simplify(z3.Or(*[pos_member(p, z) for p in c.parts])) if c.parts else False
    if isinstance(c, SymSeq):
        if c.tag and c.tag[0] == "range":
            _, a, b, step = c.tag
            z = smt_int(vm.as_int(v))
            if step == 1:
                return z3.And(smt_int(a) <= z, z < smt_int(b))
            if step == -1:
                return z3.And(smt_int(b) < z, z <= smt_int(a))
        raise Unsupported("membership in a symbolic sequence")
    if isinstance(c, BStr) and v in ("0", "1"):
        n = smt_int(c.bits.length)
        cnt = c.bits.count()
        return cnt > 0 if v == "1" else cnt < n
    if isinstance(c, Ref):
        o = vm.get(c)
        if hasattr(o, "contains_obj"):
            return o.contains_obj(vm, c, v)
        if isinstance(o, ListObj):
            if o.base is not None:
                raise Unsupported("membership in a symbolic list")
            return contains(vm, tuple(o.items), v)
        if isinstance(o, DictObj):
            if unreadable(vm, o):
                raise Unsupported("contents of a store of actions")
            k = key_of(vm, v)
            if k is not None and not o.d:
                return False
            kk = find_key(vm, o.d, freeze(vm, v), v)
            return False if kk is None else o.d[kk][0]
        if isinstance(o, SetObj):
            if not o.d:
                return False
            if key_of(vm, v) is not None:
                return contains(vm, tuple(o.d.values()), v)
            k = freeze(vm, v)
            if k in o.d:
                return True
            if has_z(k) or any(has_z(x) for x in o.d):
                return contains(vm, tuple(o.d.values()), v)
            return False
        if isinstance(o, (MapObj, SymSetObj)):
            k = key_of(vm, v)
            if k is None or k[0] is not o.keys:
                raise Unsupported("key of another kind")
            map_facts(vm, o, k[1])
            return o.dom(k[1])
        if isinstance(o, BitArrObj):
            raise Unsupported("in bitarray")
    raise Unsupported("membership in %r" % (c,))


def pos_member(p, z):
    if p[0] == "one":
        return z == p[1]
    _, arr, n, lo, hi = p
    r = smt.PC(arr, z)
    return z3.And(z >= 0, z < smt_int(n), z3.Select(arr, z), lo <= r, r < hi)


def map_facts(vm, o, k):
    for f in o.facts:
        x = f(k)
        if x is not None:
            vm.assume(x)


# ---------------------------------------------------------------- length

def vlen(vm, v):
    if isinstance(v, (tuple, str, bytes, range)):
        return len(v)
    if isinstance(v, SymSeq):
        return v.length
    if isinstance(v, (BStr,)):
        return v.bits.length
    if isinstance(v, BBytes):
        return z3.simplify(smt_int(v.bits.length) / 8)
    if isinstance(v, PosTuple):
        r = z3.IntVal(0)
        for p in v.parts:
            r = r + (1 if p[0] == "one" else p[4] - p[3])
        return z3.simplify(r)
    if hasattr(v, "len_model"):
        return v.len_model(vm)
    if isinstance(v, Ref):
        o = vm.get(v)
        if hasattr(o, "len_obj"):
            return o.len_obj(vm)
        if isinstance(o, ListObj):
            if o.base is None:
                return len(o.items)
            if isinstance(o.base, SymComp):
                raise Unsupported("length of a comprehension")
            n = vlen(vm, o.base)
            return z3.simplify(smt_int(n) + len(o.items)) if o.items or not isinstance(n, int) else n
        if isinstance(o, DictObj):
            if unreadable(vm, o):
                n = smt.fresh_int("len")
                vm.assume(n >= 0)
                return n
            if all(e[0] is True for e in o.d.values()):
                return len(o.d)
            return z3.simplify(z3.Sum(*[z3.If(sc.as_z3(e[0]), 1, 0) for e in o.d.values()]))
        if isinstance(o, SetObj):
            if any(has_z(k) for k in o.d):
                raise Unsupported("size of a set with symbolic members")
            return len(o.d)
        if isinstance(o, BitArrObj):
            return o.bits.length
        if isinstance(o, NdObj):
            return o.a.shape[0]
        if isinstance(o, SymNdObj):
            return o.shape[0]
        if isinstance(o, (MapObj, SymSetObj)):
            if getattr(o, "size", None) is not None:
                return o.size
            if getattr(o, "bound", None) is not None:
                return cardinality(o.dom, o.bound)
            # size as an unspecified number that is 0 exactly for the empty map
            n = smt.fresh_int("size")
            k = smt.fresh(o.keys.sort, "any")
            vm.assume(n >= 0)
            w = smt.fresh(o.keys.sort, "witness")
            d = o.dom(k)
            if d is False:
                return 0
            q = z3.ForAll([k], z3.Not(sc.as_z3(d)))
            vm.assume(z3.Implies(n > 0, sc.as_z3(o.dom(w))))
            vm.assume(z3.Implies(n == 0, q))
            if isinstance(o, MapObj):
                vm.mut(v).size = n
            return n
        if isinstance(o, PyObj) and o.cls == "iter":
            raise PyRaise("TypeError")
    raise Unsupported("len of %r" % (v,))


# ---------------------------------------------------------------- subscripts

def norm_index(vm, i, n):
    """index into a sequence of length n; raises IndexError when outside"""
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise PyRaise("IndexError")
        return i + n if i < 0 else i
    z, nn = smt_int(vm.as_int(i)), smt_int(n)
    if vm.known(z3.And(z >= 0, z < nn)) is True:
        return z3.simplify(z)
    if vm.decide(z3.And(z >= 0, z < nn)):
        return z3.simplify(z)
    if vm.decide(z3.And(z < 0, z >= -nn)):
        return z3.simplify(z + nn)
    raise PyRaise("IndexError")


def getitem(vm, obj, idx):
    if isinstance(obj, (Poison, Opaque)):
        raise Unsupported("subscript of unknown value")
    if hasattr(obj, "getitem_model"):
        return obj.getitem_model(vm, idx)
    if isinstance(obj, (tuple, str)):
        if isinstance(idx, SliceVal):
            if all(x is None or isinstance(x, int) for x in (idx.a, idx.b, idx.c)):
                return obj[idx.a:idx.b:idx.c]
            if isinstance(obj, tuple) and obj == ():
                return ()
            raise Unsupported("symbolic slice of a concrete sequence")
        if isinstance(idx, int):
            try:
                return obj[idx]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(idx, z3.ArithRef):
            return select_concrete(vm, obj, idx)
        raise PyRaise("TypeError")
    if isinstance(obj, range):
        if isinstance(idx, int):
            try:
                return obj[idx]
            except IndexError:
                raise PyRaise("IndexError")
        if isinstance(idx, z3.ArithRef):
            i = norm_index(vm, idx, len(obj))
            return z3.simplify(obj.start + obj.step * smt_int(i))
        if isinstance(idx, SliceVal):
            if all(x is None or isinstance(x, int) for x in (idx.a, idx.b, idx.c)):
                return obj[idx.a:idx.b:idx.c]
    if isinstance(obj, BStr):
        n = obj.bits.length
        if isinstance(idx, SliceVal):
            if idx.c is not None:
                if idx.c == -1 and idx.a is None and idx.b is None:
                    k = z3.Int("k!lam")
                    nn = smt_int(n)
                    return BStr(Bits([(z3.Lambda([k], obj.bits.bit(nn - 1 - k)), 0, n)]))
                if idx.c != 1:
                    raise Unsupported("stepped slice")
            a, b = slice_bounds(vm, idx, n)
            return BStr(slice_bits(vm, obj.bits, a, b))
        i = norm_index(vm, idx, n)
        return BitChar(z3.simplify(obj.bits.bit(smt_int(i))))
    if isinstance(obj, BinText):
        if isinstance(idx, SliceVal) and idx.a == 2 and idx.b is None and idx.c is None:
            return BStr(strip_zeros(vm, obj.bits))
        raise Unsupported("slice of bin()")
    if isinstance(obj, PosTuple):
        n = vlen(vm, obj)
        if isinstance(idx, SliceVal):
            if idx.c not in (None, 1):
                raise Unsupported("stepped slice")
            a, b = slice_bounds(vm, idx, n)
            return PosTuple(pos_slice(vm, obj, smt_int(a), smt_int(b)), obj.kind)
        i = smt_int(norm_index(vm, idx, n))
        if len(obj.parts) == 1 and obj.parts[0][0] == "set":
            return pos_elem(vm, obj.parts[0], i)
        raise Unsupported("element of a composed tuple")
    if isinstance(obj, SymSeq):
        if isinstance(idx, SliceVal):
            return seq_slice(vm, obj, idx)
        i = smt_int(norm_index(vm, idx, obj.length))
        if obj.facts:
            for f in obj.facts(i):
                vm.assume(f)
        return obj.get(i)
    if isinstance(obj, Ref):
        o = vm.get(obj)
        if hasattr(o, "getitem_obj"):
            return o.getitem_obj(vm, obj, idx)
        if isinstance(o, ListObj):
            if o.base is None:
                if isinstance(idx, SliceVal):
                    if all(x is None or isinstance(x, int) for x in (idx.a, idx.b, idx.c)):
                        return vm.alloc(ListObj(o.items[idx.a:idx.b:idx.c]))
                    raise Unsupported("symbolic slice of a concrete list")
                return getitem(vm, tuple(o.items), idx)
            if o.items:
                n = smt_int(vlen(vm, o.base))
                if isinstance(idx, SliceVal):
                    s = list_seq(vm, o)
                    r = seq_slice(vm, s, idx)
                    return vm.alloc(ListObj([], r)) if isinstance(r, SymSeq) else r
                i = smt_int(norm_index(vm, idx, n + len(o.items)))
                if vm.decide(i < n):
                    return getitem(vm, o.base, i)
                return select_concrete(vm, tuple(o.items), z3.simplify(i - n))
            r = getitem(vm, o.base, idx)
            if isinstance(idx, SliceVal) and not isinstance(r, Ref):
                return vm.alloc(ListObj([], r))
            return r
        if isinstance(o, DictObj):
            if unreadable(vm, o):
                raise Unsupported("contents of a store of actions")
            if isinstance(idx, z3.ArithRef) and o.d and all(isinstance(k, int) for k in o.d):
                pass
            k = freeze(vm, idx)
            kk = find_key(vm, o.d, k, idx)
            if kk is None:
                raise PyRaise("KeyError")
            pres, _, v = o.d[kk]
            if pres is not True:
                if not vm.decide(pres):
                    raise PyRaise("KeyError")
            return v
        if isinstance(o, MapObj):
            k = key_of(vm, idx)
            if k is None or k[0] is not o.keys:
                raise Unsupported("key of another kind")
            map_facts(vm, o, k[1])
            d = o.dom(k[1])
            if not vm.decide(d):
                raise PyRaise("KeyError")
            return int_entry(vm, o.val(k[1]))
        if isinstance(o, BitArrObj):
            n = o.bits.length
            if isinstance(idx, SliceVal):
                if idx.c not in (None, 1):
                    raise Unsupported("stepped slice")
                a, b = slice_bounds(vm, idx, n)
                return vm.alloc(BitArrObj(slice_bits(vm, o.bits, a, b)))
            i = norm_index(vm, idx, n)
            b = z3.simplify(o.bits.bit(smt_int(i)))
            return BitNum(b)
        if isinstance(o, (NdObj, SymNdObj)):
            from .nd import nd_getitem
            return nd_getitem(vm, obj, idx)
    if isinstance(obj, Lib):
        m = vm.lib.get(obj.name + "[]")
        if m:
            return m(vm, [idx], {})
    raise Unsupported("subscript of %r" % (obj,))


def int_entry(vm, v):
    """an entry of a map that is an integer times conditions, as an integer"""
    if not isinstance(v, Scalar):
        return v
    ints = [i for (g, m) in v.t for i, e in m]
    if not ints or any(sc.ATOMS[i].kind != "app" or sc.ATOMS[i].data[0] != "int" for i in ints):
        return v
    r = z3.IntVal(0)
    for (g, m), c in v.t.items():
        q = c.rational()
        if q is None or q.denominator != 1:
            return v
        t = z3.IntVal(int(q))
        for i, e in m:
            for _ in range(e):
                t = t * sc.ATOMS[i].data[1][0]
        gs = [sc.LITS[a] for a in g if vm.known(sc.LITS[a]) is not True]
        r = r + (z3.If(z3.And(*gs), t, z3.IntVal(0)) if gs else t)
    return z3.simplify(r)


class BitNum:
    """element of a bitarray: int 0/1 used as truth value"""

    def __init__(self, b):
        self.b = b

    def truth_model(self, vm):
        return self.b

    def eq_model(self, vm, o):
        if isinstance(o, BitNum):
            return self.b == o.b
        if isinstance(o, int):
            return self.b if o == 1 else z3.Not(self.b) if o == 0 else False
        raise Unsupported("comparison of a bit")

    def compare_model(self, vm, op, b):
        return compare(vm, op, z3.If(self.b, z3.IntVal(1), z3.IntVal(0)), b)

    def binop_model(self, vm, op, y, rev):
        x = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
        return binop(vm, op, y, x) if rev else binop(vm, op, x, y)


class BitChar:
    """character '0'/'1'"""

    def __init__(self, b):
        self.b = b

    def truth_model(self, vm):
        return True

    def eq_model(self, vm, o):
        if isinstance(o, BitChar):
            return self.b == o.b
        if isinstance(o, str):
            return self.b if o == "1" else z3.Not(self.b) if o == "0" else False
        raise Unsupported("comparison of a character")

    def contains_model(self, vm, v):
        return self.eq_model(vm, v)

    def len_model(self, vm):
        return 1

    def binop_model(self, vm, op, y, rev):
        if isinstance(op, ast.Add):
            s = BStr(Bits([(z3.K(z3.IntSort(), self.b), 0, 1)]))
            return binop(vm, op, y, s) if rev else binop(vm, op, s, y)
        return NotImplemented


def select_concrete(vm, items, idx):
    """items[idx] with symbolic idx: fork over positions or build an ite"""
    i = norm_index(vm, idx, len(items))
    if isinstance(i, int):
        return items[i]
    if items and all(vm.is_intlike(x) for x in items):
        r = smt_int(vm.as_int(items[-1]))
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, smt_int(vm.as_int(items[k])), r)
        return z3.simplify(r)
    j = vm.choose([i == k for k in range(len(items))])
    return items[j]


def strip_zeros(vm, bits):
    """digits of bin(): leading zeros removed, one digit kept"""
    n = smt_int(bits.length)
    lead = smt.fresh_int("lead")
    k = z3.Int("k!q")
    if vm.known(n >= 1) is not True:
        if not vm.decide(n >= 1):
            return Bits([(smt.EMPTY, 0, 1)])
    vm.assume(z3.And(0 <= lead, lead <= n - 1))
    vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < lead), z3.Not(bits.bit(k)))))
    vm.assume(z3.Or(bits.bit(lead), lead == n - 1))
    return slice_bits(vm, bits, lead, n)


def seq_slice(vm, s, sl):
    n = s.length
    step = sl.c
    if step in (None, 1):
        a, b = slice_bounds(vm, sl, n)
        if isinstance(a, int) and a == 0 and b is n:
            return s
        a_, b_ = smt_int(a), smt_int(b)
        return SymSeq(z3.simplify(b_ - a_), lambda k: s.get(z3.simplify(a_ + k)), s.kind, ("slice", s, a_, b_),
                      (lambda k: s.facts(z3.simplify(a_ + k))) if s.facts else None)
    if step == -1:
        nn = smt_int(n)
        full = sl.b is None and (sl.a is None or sl.a == -1)
        if full:
            return SymSeq(n, lambda k: s.get(z3.simplify(nn - 1 - k)), s.kind, ("reversed", s),
                          (lambda k: s.facts(z3.simplify(nn - 1 - k))) if s.facts else None)
    raise Unsupported("stepped slice")


def list_seq(vm, o):
    """ListObj as SymSeq"""
    base = o.base
    if base is None:
        items = tuple(o.items)
        return SymSeq(len(items), lambda k: select_concrete(vm, items, k), "list")
    if not isinstance(base, SymSeq):
        raise Unsupported("list structure")
    if not o.items:
        return base
    n = smt_int(base.length)
    items = tuple(o.items)

    def get(k):
        if vm.decide(k < n):
            return base.get(k)
        return select_concrete(vm, items, z3.simplify(k - n))
    return SymSeq(z3.simplify(n + len(items)), get, "list", None, base.facts)


def pos_slice(vm, t, a, b):
    parts = []
    c = z3.IntVal(0)
    for p in t.parts:
        ln = z3.IntVal(1) if p[0] == "one" else p[4] - p[3]
        lo = _decided(vm, z3.If(a > c, a - c, z3.IntVal(0)))
        hi = _decided(vm, z3.If(b - c < ln, b - c, ln))
        if p[0] == "one":
            if vm.decide(lo < hi):
                parts.append(p)
        else:
            if len(t.parts) == 1 and vm.known(z3.And(a >= 0, b <= ln, a <= b)) is True:
                lo, hi = a, b
            parts.append(("set", p[1], p[2], z3.simplify(p[3] + lo), z3.simplify(p[3] + hi)))
        c = c + ln
    return parts


def pos_elem(vm, p, i):
    """element with rank i: the position e with arr[e] and PC(arr,e) = lo+i"""
    _, arr, n, lo, hi = p
    r = z3.simplify(lo + i)
    memo = vm.__dict__.setdefault("posmemo", {})
    key = (arr.get_id(), r.get_id())
    if key not in memo:
        memo[key] = (smt.fresh_int("pos"), arr, r)
    e = memo[key][0]
    vm.assume(z3.And(e >= 0, e < smt_int(n), z3.Select(arr, e), smt.PC(arr, e) == r))
    return e


def setitem(vm, obj, idx, v):
    if not isinstance(obj, Ref):
        if hasattr(obj, "setitem_model"):
            return obj.setitem_model(vm, idx, v)
        if isinstance(obj, (tuple, str, SymSeq, BStr, BBytes)):
            raise PyRaise("TypeError")
        raise Unsupported("item assignment to %r" % (obj,))
    o = vm.get(obj)
    if hasattr(o, "setitem_obj"):
        return o.setitem_obj(vm, obj, idx, v)
    if isinstance(o, ListObj):
        if o.base is None:
            if isinstance(idx, int):
                try:
                    vm.mut(obj).items[idx] = v
                except IndexError:
                    raise PyRaise("IndexError")
                return
            if isinstance(idx, z3.ArithRef):
                i = norm_index(vm, idx, len(o.items))
                items = list(o.items)
                new = []
                for k, x in enumerate(items):
                    m = vm.merge_val(z3.simplify(smt_int(i) == k), v, x)
                    if m is NOMERGE:
                        j = vm.choose([smt_int(i) == q for q in range(len(items))])
                        vm.mut(obj).items[j] = v
                        return
                    new.append(m)
                vm.mut(obj).items = new
                return
        raise Unsupported("assignment to an item of a symbolic list")
    if isinstance(o, DictObj):
        if unreadable(vm, o) and o.token.base.owner is not None:
            raise Unsupported("writing to a store of actions")
        k = key_of(vm, idx)
        if k is not None and not (k[0] is INTKEY):
            if o.d:
                raise Unsupported("mixed keys")
            m = empty_map(k[0], "scalar" if vm.is_num(v) else "other")
            vm.put(obj, m)
            return setitem(vm, obj, idx, v)
        k = freeze(vm, idx)
        kk = find_key(vm, o.d, k, idx)
        o = vm.mut(obj)
        if kk is None:
            o.d[k] = (True, idx, v)
        else:
            o.d[kk] = (True, o.d[kk][1], v)
        return
    if isinstance(o, MapObj):
        k = key_of(vm, idx)
        if k is None or k[0] is not o.keys:
            raise Unsupported("key of another kind")
        return map_store(vm, obj, k[1], v)
    if isinstance(o, BitArrObj):
        if isinstance(idx, SliceVal):
            raise Unsupported("slice assignment to bitarray")
        i = smt_int(norm_index(vm, idx, o.bits.length))
        a, off, n = _single(vm, o.bits)
        b = vm.truth(v)
        o = vm.mut(obj)
        o.bits = Bits([(z3.Store(a, z3.simplify(smt_int(off) + i), sc.as_z3(b)), off, n)])
        return
    if isinstance(o, (NdObj, SymNdObj)):
        from .nd import nd_setitem
        return nd_setitem(vm, obj, idx, v)
    raise Unsupported("item assignment")


def map_store(vm, ref, k, v):
    o = vm.get(ref)
    od, ov, kind = o.dom, o.val, o.kind
    m = vm.renew(ref)
    m.size = None
    m.order = None
    if kind == "scalar":
        if not vm.is_num(v):
            raise Unsupported("non-number stored in a map of numbers")
        v = Scalar.of(v)
        m.val = lambda q: _sel(q, k, v, ov)
    else:
        def val(q):
            c = z3.simplify(q == k)
            if z3.is_true(c):
                return v
            t = vm.known(c)
            if t is True:
                return v
            if t is False:
                return ov(q)
            r = vm.merge_val(c, v, ov(q))
            if r is NOMERGE:
                raise Unsupported("merge of map values")
            return r
        m.val = val
    m.dom = lambda q: _or(z3.simplify(q == k), od(q))
    if m.writes is not None:
        m.writes = m.writes + (("set", k, v),)


def _sel(q, k, v, ov):
    c = z3.simplify(q == k)
    if z3.is_true(c):
        return v
    if z3.is_false(c):
        return ov(q)
    return sc.ind(c) * v + sc.ind(z3.Not(c)) * ov(q)


def _or(a, b):
    if a is True or b is True:
        return True
    if b is False:
        return a
    if a is False:
        return b
    r = z3.simplify(z3.Or(a, b))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def map_pop(vm, ref, k):
    o = vm.get(ref)
    if not vm.decide(o.dom(k)):
        raise PyRaise("KeyError")
    r = o.val(k)
    od, ov = o.dom, o.val
    m = vm.renew(ref)
    m.size = None
    m.order = None
    m.dom = lambda q: _and2(z3.simplify(q != k), od(q))
    if o.kind == "scalar":
        m.val = lambda q: _sel(q, k, sc.SZERO, ov)
    if m.writes is not None:
        m.writes = m.writes + (("pop", k, None),)
    return r


def _and2(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    r = z3.simplify(z3.And(a, b))
    if z3.is_and(r):
        # a conditional conjunct whose condition is another conjunct
        known = [(c.arg(0), z3.BoolVal(False)) if z3.is_not(c) else (c, z3.BoolVal(True)) for c in r.children()]
        out = []
        for c in r.children():
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                c = z3.substitute(c, *[(p, v) for p, v in known if p.eq(c.arg(0))] or [(c, c)])
            out.append(c)
        r = z3.simplify(z3.And(*out))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


# ---------------------------------------------------------------- attributes

def getattribute(vm, obj, name):
    if isinstance(obj, Lib):
        full = obj.name + "." + name
        if full in vm.consts:
            return vm.consts[full](vm)
        return Lib(full)
    if isinstance(obj, RepoModule):
        m = vm.get(vm.load(obj.name))
        if name not in m.vars:
            raise PyRaise("AttributeError")
        v = m.vars[name]
        if isinstance(v, Poison):
            raise Unsupported("value of %s: %s" % (name, v.why))
        return v
    if vm.is_num(obj):
        if name == "real":
            return Scalar.of(obj).real if isinstance(obj, Scalar) else obj
        if name == "imag":
            return Scalar.of(obj).imag if isinstance(obj, Scalar) else 0
        return BoundMethod(obj, name)
    if hasattr(obj, "attr_model"):
        r = obj.attr_model(vm, name)
        if r is not NotImplemented:
            return r
        return BoundMethod(obj, name)
    if isinstance(obj, Ref):
        o = vm.get(obj)
        if hasattr(o, "attr_obj"):
            r = o.attr_obj(vm, obj, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, PyObj) and name in o.fields:
            return o.fields[name]
        if isinstance(o, (NdObj, SymNdObj)):
            from .nd import nd_attr
            r = nd_attr(vm, obj, name)
            if r is not NotImplemented:
                return r
        return BoundMethod(obj, name)
    if isinstance(obj, (str, bytes, tuple, BStr, BBytes, BInt, PosTuple, SymSeq, range, Opaque, BitChar, SymComp)):
        return BoundMethod(obj, name)
    if isinstance(obj, Func) and name == "__name__":
        return obj.name
    if obj is None:
        raise PyRaise("AttributeError")
    raise Unsupported("attribute %s of %r" % (name, obj))


# ---------------------------------------------------------------- methods

def method(vm, obj, name, args, kwargs):
    if hasattr(obj, "method_model"):
        r = obj.method_model(vm, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(obj, Opaque):
        if name in ("format", "join", "strip", "replace"):
            return Opaque()
        raise Unsupported("method of unknown value")
    if vm.is_num(obj):
        if name in ("conjugate", "conj"):
            return Scalar.of(obj).conj() if isinstance(obj, Scalar) else obj
        if name == "bit_count" and isinstance(obj, int):
            return bin(obj).count("1")
        if name == "is_integer":
            raise Unsupported("is_integer")
        if name in ("item", "copy"):
            return obj
        raise Unsupported("number method %s" % name)
    if isinstance(obj, str):
        if name == "format":
            return format_text(obj, args, kwargs)
        if name == "join":
            return str_join(vm, obj, args[0])
        if name == "zfill":
            if isinstance(args[0], int):
                return obj.zfill(args[0])
            b = to_bits(vm, obj)
            if b is None:
                raise Unsupported("zfill")
            return method(vm, BStr(b), name, args, kwargs)
        if all(isinstance(a, (str, int)) or a is None for a in args) and name in (
                "upper", "lower", "strip", "split", "startswith", "endswith", "count", "replace", "rjust", "ljust",
                "index", "find", "isdigit", "rstrip", "lstrip"):
            r = getattr(obj, name)(*args)
            return vm.alloc(ListObj(r)) if isinstance(r, list) else r
        raise Unsupported("str method %s" % name)
    if isinstance(obj, BStr):
        if name == "count" and args[0] in ("0", "1"):
            c = obj.bits.count()
            return z3.simplify(c if args[0] == "1" else smt_int(obj.bits.length) - c)
        if name in ("zfill", "rjust"):
            if name == "rjust" and (len(args) < 2 or args[1] != "0"):
                raise Unsupported("rjust")
            w = smt_int(vm.as_int(args[0]))
            n = smt_int(obj.bits.length)
            if vm.decide(w <= n):
                return obj
            return BStr(Bits([(smt.EMPTY, 0, z3.simplify(w - n))] + obj.bits.p))
        if name == "join":
            raise Unsupported("join")
        raise Unsupported("str method %s" % name)
    if isinstance(obj, BInt):
        if name == "bit_count":
            return z3.simplify(obj.bits.count())
        raise Unsupported("int method %s" % name)
    if isinstance(obj, tuple):
        if name == "index":
            for i, x in enumerate(obj):
                if vm.decide(vm.eq(x, args[0])):
                    return i
            raise PyRaise("ValueError")
        if name == "count":
            r = 0
            for x in obj:
                e = vm.eq(x, args[0])
                if e is True:
                    r = r + 1
                elif e is not False:
                    r = r + z3.If(e, 1, 0)
            return r
    if isinstance(obj, PosTuple):
        raise Unsupported("tuple method")
    if isinstance(obj, Ref):
        o = vm.get(obj)
        if hasattr(o, "method_obj"):
            r = o.method_obj(vm, obj, name, args, kwargs)
            if r is not NotImplemented:
                return r
        f = globals().get("m_%s_%s" % (type(o).__name__, name))
        if f:
            return f(vm, obj, args, kwargs)
        if isinstance(o, (NdObj, SymNdObj)):
            from .nd import nd_method
            return nd_method(vm, obj, name, args, kwargs)
        if isinstance(o, PyObj):
            m = vm.lib.get("%s.%s" % (o.cls, name))
            if m:
                return m(vm, [obj] + list(args), kwargs)
    raise Unsupported("method %s of %r" % (name, obj))


def str_join(vm, sep, it):
    if isinstance(it, Ref) and isinstance(vm.get(it), ListObj) and vm.get(it).base is not None:
        o = vm.get(it)
        s = list_seq(vm, o)
        if sep == "":
            return BStr(chars_to_bits(vm, s))
        raise Unsupported("join")
    items = vm.concrete_items(it)
    if items is None:
        raise Unsupported("join")
    r = ""
    for j, (p, v) in enumerate(items):
        if j and sep:
            r = binop(vm, ast.Add(), r, sep)
        r = binop(vm, ast.Add(), r, v)
    return r


def char_bit(vm, v):
    if isinstance(v, BitChar):
        return v.b
    if v == "1":
        return z3.BoolVal(True)
    if v == "0":
        return z3.BoolVal(False)
    if isinstance(v, BStr) and len(v.bits.p) == 1 and vm._is0(v.bits.p[0][1]) and v.bits.length == 1:
        return v.bits.bit(z3.IntVal(0))
    raise Unsupported("character")


def chars_to_bits(vm, s):
    k = smt.fresh_int("k")
    v = vm_value_ite(vm, s, k)
    q = z3.Int("k!lam")
    return Bits([(z3.Lambda([q], z3.substitute(char_bit(vm, v), (k, q))), 0, s.length)])


def vm_value_ite(vm, s, k):
    return s.get(k)


# list
def m_ListObj_append(vm, r, args, kw):
    o = vm.mut(r)
    o.items.append(args[0])


def m_ListObj_extend(vm, r, args, kw):
    items = None
    v = args[0]
    o = vm.get(r)
    try:
        items = vm.concrete_items(v)
    except Unsupported:
        items = None
    if items is not None and all(p is True for p, _ in items):
        vm.mut(r).items.extend([x for _, x in items])
        return
    # symbolic tail
    s = as_seq(vm, v)
    a = list_seq(vm, o)
    n = smt_int(a.length)
    if isinstance(a.length, int) and a.length == 0:
        vm.put(r, ListObj([], SymSeq(s.length, s.get, "list", s.tag, s.facts)))
        return

    def get(k):
        if vm.decide(k < n):
            return a.get(k)
        return s.get(z3.simplify(k - n))

    def facts(k):
        out = []
        if a.facts:
            out += [z3.Implies(k < n, f) for f in a.facts(k)]
        if s.facts:
            out += [z3.Implies(k >= n, f) for f in s.facts(z3.simplify(k - n))]
        return out
    vm.put(r, ListObj([], SymSeq(z3.simplify(n + smt_int(s.length)), get, "list", ("concat", a, s), facts)))


def as_seq(vm, v):
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, tuple):
        return SymSeq(len(v), lambda k: select_concrete(vm, v, k), "tuple")
    if isinstance(v, Ref):
        o = vm.get(v)
        if hasattr(o, "as_seq_obj"):
            return o.as_seq_obj(vm)
        if isinstance(o, ListObj):
            return list_seq(vm, o)
        if isinstance(o, PyObj) and o.cls == "iter":
            return as_seq(vm, tuple(o.fields["items"]))
    if isinstance(v, range):
        return SymSeq(len(v), lambda k: z3.simplify(v.start + v.step * k), "range", ("range", v.start, v.stop, v.step))
    if hasattr(v, "as_seq_model"):
        return v.as_seq_model(vm)
    raise Unsupported("not a sequence: %r" % (v,))


def m_ListObj_copy(vm, r, args, kw):
    o = vm.get(r)
    return vm.alloc(ListObj(list(o.items), o.base))


def m_ListObj_index(vm, r, args, kw):
    o = vm.get(r)
    if o.base is None:
        return method(vm, tuple(o.items), "index", args, kw)
    raise Unsupported("index")


def m_ListObj_pop(vm, r, args, kw):
    o = vm.get(r)
    if o.base is None and (not args or isinstance(args[0], int)):
        try:
            return vm.mut(r).items.pop(*args)
        except IndexError:
            raise PyRaise("IndexError")
    raise Unsupported("pop")


def m_ListObj_insert(vm, r, args, kw):
    o = vm.get(r)
    if o.base is None and isinstance(args[0], int):
        vm.mut(r).items.insert(args[0], args[1])
        return
    raise Unsupported("insert")


def m_ListObj_reverse(vm, r, args, kw):
    o = vm.get(r)
    if o.base is None:
        vm.mut(r).items.reverse()
        return
    raise Unsupported("reverse")


def m_ListObj_sort(vm, r, args, kw):
    s = LIBF["builtins.sorted"](vm, [r], kw)
    vm.put(r, vm.get(s).clone())


# dict
class DictView:
    def __init__(self, ref, what):
        self.ref, self.what = ref, what

    def concrete_items(self, vm):
        o = vm.get(self.ref)
        if isinstance(o, DictObj):
            if unreadable(vm, o):
                raise Unsupported("contents of a store of actions")
            f = {"items": lambda e: (e[1], e[2]), "keys": lambda e: e[1], "values": lambda e: e[2]}[self.what]
            return [(e[0], f(e)) for e in o.d.values()]
        return None

    def len_model(self, vm):
        return vlen(vm, self.ref)

    def contains_model(self, vm, v):
        if self.what == "keys":
            return contains(vm, self.ref, v)
        raise Unsupported("membership in a view")

    def truth_model(self, vm):
        return vm.truth(self.ref)

    def method_model(self, vm, name, args, kw):
        return NotImplemented

    def attr_model(self, vm, name):
        return NotImplemented

    def unpack_model(self, vm, n):
        raise Unsupported("unpacking a symbolic view")

    def as_seq_model(self, vm):
        items = self.concrete_items(vm)
        if items is not None and all(p is True for p, _ in items):
            return as_seq(vm, tuple(v for _, v in items))
        o = vm.get(self.ref)
        if hasattr(o, "seq_obj"):
            return o.seq_obj(vm, self.what)
        raise Unsupported("sequence of a symbolic view")


def _view(what):
    def f(vm, r, args, kw):
        return DictView(r, what)
    return f


for _c in ("DictObj", "MapObj", "NestObj", "AssocObj"):
    for _w in ("items", "keys", "values"):
        globals()["m_%s_%s" % (_c, _w)] = _view(_w)


def m_DictObj_get(vm, r, args, kw):
    default = args[1] if len(args) > 1 else None
    c = contains(vm, r, args[0])
    if c is False:
        return default
    if c is True:
        return getitem(vm, r, args[0])
    o = vm.get(r)
    kk = find_key(vm, o.d, freeze(vm, args[0]), args[0])
    m = vm.merge_val(c, o.d[kk][2], default)
    if m is not NOMERGE:
        return m
    if vm.decide(c):
        return getitem(vm, r, args[0])
    return default


def m_DictObj_pop(vm, r, args, kw):
    o = vm.get(r)
    kk = find_key(vm, o.d, freeze(vm, args[0]), args[0])
    if kk is None or (o.d[kk][0] is not True and not vm.decide(o.d[kk][0])):
        if len(args) > 1:
            return args[1]
        raise PyRaise("KeyError")
    v = o.d[kk][2]
    del vm.mut(r).d[kk]
    return v


def m_DictObj_copy(vm, r, args, kw):
    return vm.alloc(vm.get(r).clone())


def m_DictObj_setdefault(vm, r, args, kw):
    c = contains(vm, r, args[0])
    if c is not True and not (c is not False and vm.decide(c)):
        setitem(vm, r, args[0], args[1] if len(args) > 1 else None)
    return getitem(vm, r, args[0])


def m_DictObj_update(vm, r, args, kw):
    src = args[0] if args else None
    for k, v in kw.items():
        setitem(vm, r, k, v)
    if src is None:
        return
    if isinstance(src, Ref) and isinstance(vm.get(src), MapObj):
        if not vm.get(r).d:
            vm.put(r, vm.get(src).clone())
            return
        raise Unsupported("update with a symbolic map")
    items = vm.concrete_items(DictView(src, "items") if isinstance(src, Ref) and isinstance(
        vm.get(src), DictObj) else src)
    if items is None:
        raise Unsupported("update")
    for p, (k, v) in items:
        if p is True:
            setitem(vm, r, k, v)
        else:
            vm.branch(p, lambda k=k, v=v: setitem(vm, r, k, v), lambda: None)


def m_DictObj_clear(vm, r, args, kw):
    vm.put(r, DictObj())


def m_DictObj_move_to_end(vm, r, args, kw):
    raise Unsupported("move_to_end")


def m_MapObj_pop(vm, r, args, kw):
    k = key_of(vm, args[0])
    if len(args) > 1 and not vm.decide(contains(vm, r, args[0])):
        return args[1]
    return map_pop(vm, r, k[1])


def m_MapObj_get(vm, r, args, kw):
    default = args[1] if len(args) > 1 else None
    c = contains(vm, r, args[0])
    if isinstance(c, bool):
        return getitem(vm, r, args[0]) if c else default
    k = key_of(vm, args[0])[1]
    o = vm.get(r)
    if o.kind == "scalar" and vm.is_num(default):
        return o.val(k) if Scalar.of(default) == sc.SZERO else sc.ite(c, o.val(k), default)
    if vm.decide(c):
        return getitem(vm, r, args[0])
    return default


def m_MapObj_setdefault(vm, r, args, kw):
    return m_DictObj_setdefault(vm, r, args, kw)


def m_MapObj_copy(vm, r, args, kw):
    return vm.alloc(vm.get(r).clone())


def m_MapObj_update(vm, r, args, kw):
    src = args[0]
    o = vm.get(r)
    if isinstance(src, Ref) and isinstance(vm.get(src), DictObj):
        return m_DictObj_update(vm, r, args, kw)
    s = vm.get(src)
    if not isinstance(s, MapObj) or s.keys is not o.keys or s.kind != o.kind:
        raise Unsupported("update")
    od, ov, sd, sv = o.dom, o.val, s.dom, s.val
    m = vm.renew(r)
    m.size = None
    m.order = None
    if m.writes is not None:
        m.writes = m.writes + (("bulk", None, sd),)
    m.facts = ()
    m.dom = lambda q: _or(sd(q), od(q))
    if o.kind == "scalar":
        m.val = lambda q: sc.ite(sd(q), sv(q), ov(q))
    else:
        def val(q):
            c = sd(q)
            return sv(q) if (c if isinstance(c, bool) else vm.decide(c)) else ov(q)
        m.val = val


# sets
def _set_items(vm, v):
    items = vm.concrete_items(v)
    if items is None:
        return None
    if any(p is not True for p, _ in items):
        raise Unsupported("set of conditional items")
    return [x for _, x in items]


def make_set(vm, v, frozen=False):
    if v is None:
        return vm.alloc(SetObj({}, frozen))
    if isinstance(v, DictView):
        o = vm.get(v.ref)
        if isinstance(o, (MapObj,)) and v.what == "keys":
            return vm.alloc(SymSetObj(o.keys, o.dom, o.facts))
        if hasattr(o, "key_set"):
            return o.key_set(vm)
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, SymSetObj):
            return vm.alloc(o.clone())
        if isinstance(o, MapObj):
            return vm.alloc(SymSetObj(o.keys, o.dom, o.facts))
        if hasattr(o, "to_set"):
            return o.to_set(vm)
    if hasattr(v, "to_set"):
        return v.to_set(vm)
    items = _set_items(vm, v)
    if items is None:
        r = set_of_seq(vm, v)
        if r is not None:
            return r
        raise Unsupported("set of a symbolic collection")
    d = {}
    for x in items:
        d[freeze(vm, x)] = x
    return vm.alloc(SetObj(d, frozen))


def set_of_seq(vm, v):
    """the set of the elements of a sequence of symbolic length: { f(k) : 0 <= k < length }"""
    from .loops import one_point_exists
    if isinstance(v, Ref) and isinstance(vm.get(v), ListObj) and not vm.get(v).items:
        v = vm.get(v).base
    if not isinstance(v, SymSeq):
        return None
    x = smt.fresh_int("x")
    g = z3.And(0 <= x, x < smt_int(v.length))
    mark = len(vm.pc)
    for f in [g] + (list(v.facts(x)) if v.facts else []):
        vm.assume(f)
    k = key_of(vm, v.get(x))
    del vm.pc[mark:]
    if k is None:
        return None
    keys, t = k
    q = smt.fresh(keys.sort, "key")
    E = sc.as_z3(one_point_exists([x], z3.simplify(z3.And(g, t == q))))
    return vm.alloc(SymSetObj(keys, lambda y: _b2(z3.substitute(E, (q, y)))))


def _b2(e):
    e = z3.simplify(e)
    return True if z3.is_true(e) else False if z3.is_false(e) else e


def _sym_of(vm, v):
    """SymSetObj view of a collection, or None"""
    if isinstance(v, DictView):
        o = vm.get(v.ref)
        if isinstance(o, MapObj) and v.what == "keys":
            return o
        if hasattr(o, "key_set"):
            return vm.get(o.key_set(vm))
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, (SymSetObj, MapObj)):
            return o
    if isinstance(v, PosTuple) and len(v.parts) == 1 and v.parts[0][0] == "set":
        _, a, n, lo, hi = v.parts[0]
        if vm.known(z3.And(lo == 0, hi == smt.PC(a, smt_int(n)))) is True:
            s = SymSetObj(INTKEY, lambda q: z3.And(0 <= q, q < smt_int(n), z3.Select(a, q)))
            s.bound = n
            return s
    return None


def cardinality(dom, n):
    """number of integers of [0,n) satisfying dom"""
    k = z3.Int("k!lam")
    return smt.PC(z3.Lambda([k], smt.orient(z3.simplify(sc.as_z3(dom(k))))), smt_int(n))


def m_SetObj_add(vm, r, args, kw):
    k = key_of(vm, args[0])
    o = vm.get(r)
    if k is not None and k[0] is not INTKEY:
        if not o.d:
            vm.put(r, SymSetObj(k[0], lambda q: False))
            return m_SymSetObj_add(vm, r, args, kw)
        raise Unsupported("mixed set")
    f = freeze(vm, args[0])
    if has_z(f) or any(has_z(x) for x in o.d):
        c = contains(vm, tuple(o.d.values()), args[0])
        if c is not False and vm.decide(c):
            return
    vm.mut(r).d[f] = args[0]


def m_SetObj_update(vm, r, args, kw):
    for a in args:
        s = _sym_of(vm, a)
        if s is not None:
            if vm.get(r).d:
                raise Unsupported("mixed set")
            vm.put(r, SymSetObj(s.keys, s.dom, s.facts))
            continue
        items = _set_items(vm, a)
        if items is None:
            raise Unsupported("update")
        for x in items:
            m_SetObj_add(vm, r, [x], {})


def _set_binary(f):
    def g(vm, r, args, kw):
        o = vm.get(r)
        b = args[0]
        s = _sym_of(vm, b)
        if s is not None:
            if not o.d and f in ("difference", "intersection"):
                return vm.alloc(SetObj({}))
            raise Unsupported("mixed set")
        items = _set_items(vm, b)
        if items is None:
            if isinstance(b, PosTuple):
                return concrete_set_vs_pos(vm, o, b, f)
            raise Unsupported("set operation")
        keys = {freeze(vm, x): x for x in items}
        if any(has_z(k) for k in list(keys) + list(o.d)):
            out = {}
            if f == "intersection":
                for k, x in o.d.items():
                    c = contains(vm, tuple(keys.values()), x)
                    if c is True or c is not False and vm.decide(c):
                        out[k] = x
                return vm.alloc(SetObj(out, o.frozen))
            raise Unsupported("set with symbolic members")
        if f == "difference":
            d = {k: v for k, v in o.d.items() if k not in keys}
        elif f == "intersection":
            d = {k: v for k, v in o.d.items() if k in keys}
        else:
            d = dict(o.d)
            d.update({k: v for k, v in keys.items() if k not in d})
        return vm.alloc(SetObj(d, o.frozen))
    return g


class CountSet:
    """a set of which only the size matters (members are the listed integers that satisfy a condition)"""

    def __init__(self, conds):
        self.conds = conds

    def len_model(self, vm):
        return z3.simplify(z3.Sum(*[z3.If(c, 1, 0) for c in self.conds])) if self.conds else 0

    def truth_model(self, vm):
        return z3.Or(*self.conds) if self.conds else False


def concrete_set_vs_pos(vm, o, b, f):
    if f == "intersection":
        return CountSet([sc.as_z3(contains(vm, b, x)) for x in o.d.values()])
    raise Unsupported("set operation")


m_SetObj_difference = _set_binary("difference")
m_SetObj_intersection = _set_binary("intersection")
m_SetObj_union = _set_binary("union")


def m_SetObj_copy(vm, r, args, kw):
    return vm.alloc(vm.get(r).clone())


def m_SetObj_difference_update(vm, r, args, kw):
    x = m_SetObj_difference(vm, r, args, kw)
    vm.put(r, vm.get(x).clone())


def m_SymSetObj_add(vm, r, args, kw):
    o = vm.get(r)
    k = key_of(vm, args[0])
    if k is None or k[0] is not o.keys:
        raise Unsupported("key of another kind")
    od, kk = o.dom, k[1]
    m = vm.renew(r)
    m.dom = lambda q: _or(z3.simplify(q == kk), od(q))


def m_SymSetObj_update(vm, r, args, kw):
    for a in args:
        o = vm.get(r)
        s = _sym_of(vm, a)
        if s is None:
            items = _set_items(vm, a)
            if items is None:
                raise Unsupported("update")
            for x in items:
                m_SymSetObj_add(vm, r, [x], {})
            continue
        od, sd = o.dom, s.dom
        m = vm.renew(r)
        m.facts = ()
        m.dom = (lambda od, sd: lambda q: _or(sd(q), od(q)))(od, sd)


def m_SymSetObj_difference(vm, r, args, kw):
    o = vm.get(r)
    s = _sym_of(vm, args[0])
    if s is None:
        if isinstance(args[0], Ref) and isinstance(vm.get(args[0]), SetObj) and not vm.get(args[0]).d:
            return vm.alloc(o.clone())
        raise Unsupported("difference")
    od, sd = o.dom, s.dom
    return vm.alloc(SymSetObj(o.keys, lambda q: _and2(od(q), z3.simplify(z3.Not(sc.as_z3(sd(q))))), o.facts))


def m_SymSetObj_intersection(vm, r, args, kw):
    o = vm.get(r)
    s = _sym_of(vm, args[0])
    if s is None:
        if isinstance(args[0], Ref) and isinstance(vm.get(args[0]), (SetObj, DictObj)) and not vm.get(args[0]).d:
            return vm.alloc(SetObj({}))
        y = set_of_seq(vm, args[0])
        s = None if y is None else vm.get(y)
    if s is None:
        raise Unsupported("intersection")
    od, sd = o.dom, s.dom
    x = SymSetObj(o.keys, lambda q: _and2(od(q), sc.as_z3(sd(q))), o.facts + s.facts)
    x.bound = getattr(o, "bound", None) if getattr(s, "bound", None) is None else s.bound
    return vm.alloc(x)


def m_SymSetObj_union(vm, r, args, kw):
    x = vm.alloc(vm.get(r).clone())
    m_SymSetObj_update(vm, x, args, kw)
    return x


def m_SymSetObj_copy(vm, r, args, kw):
    return vm.alloc(vm.get(r).clone())


def m_SymSetObj_difference_update(vm, r, args, kw):
    x = m_SymSetObj_difference(vm, r, args, kw)
    vm.put(r, vm.get(x).clone())


# bitarray
def m_BitArrObj_copy(vm, r, args, kw):
    return vm.alloc(vm.get(r).clone())


def m_BitArrObj_count(vm, r, args, kw):
    o = vm.get(r)
    v = True
    if args:
        v = args[0]
    if len(args) > 1 or kw:
        n = o.bits.length
        a, b = slice_bounds(vm, SliceVal(args[1] if len(args) > 1 else None, args[2] if len(args) > 2 else None, None), n)
        bits = slice_bits(vm, o.bits, a, b)
    else:
        bits = o.bits
    c = bits.count()
    if v in (1, True):
        return z3.simplify(c)
    if v in (0, False):
        return z3.simplify(smt_int(bits.length) - c)
    raise Unsupported("count")


def m_BitArrObj_tobytes(vm, r, args, kw):
    o = vm.get(r)
    n = smt_int(o.bits.length)
    full = nbytes_bits(vm, n)
    if len(o.bits.p) == 1 and vm._is0(o.bits.p[0][1]) and vm.canonical(o.bits.p[0][0], n):
        return BBytes(Bits([(o.bits.p[0][0], 0, full)]))
    return BBytes(Bits(o.bits.p + [(smt.EMPTY, 0, z3.simplify(full - n))]))


def m_BitArrObj_frombytes(vm, r, args, kw):
    v = args[0]
    if isinstance(v, bytes):
        v = BBytes(Bits([(z3.K(z3.IntSort(), z3.BoolVal(bool(b >> (7 - i) & 1))), 0, 1) for b in v for i in range(8)]))
    if not isinstance(v, BBytes):
        raise PyRaise("TypeError")
    o = vm.mut(r)
    o.bits = Bits(o.bits.p + v.bits.p)


def m_BitArrObj_to01(vm, r, args, kw):
    return BStr(vm.get(r).bits)


def m_BitArrObj_append(vm, r, args, kw):
    b = sc.as_z3(vm.truth(args[0]))
    o = vm.mut(r)
    o.bits = Bits(o.bits.p + [(z3.K(z3.IntSort(), b), 0, 1)])


def m_BitArrObj_setall(vm, r, args, kw):
    b = sc.as_z3(vm.truth(args[0]))
    o = vm.mut(r)
    o.bits = Bits([(z3.K(z3.IntSort(), b), 0, o.bits.length)])


def m_BitArrObj_extend(vm, r, args, kw):
    b = to_bits(vm, args[0])
    if b is None:
        raise Unsupported("extend")
    o = vm.mut(r)
    o.bits = Bits(o.bits.p + b.p)


# ---------------------------------------------------------------- builtins

@lib("builtins.len")
def _len(vm, a, k):
    return vlen(vm, a[0])


@lib("builtins.range")
def _range(vm, a, k):
    a = [vm.as_int(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(step, int) or step == 0:
        raise Unsupported("symbolic range step")
    lo_, hi_ = smt_int(lo), smt_int(hi)
    if step in (1, -1):
        d = hi_ - lo_ if step == 1 else lo_ - hi_
        n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
        if vm.known(d >= 0) is True:
            n = z3.simplify(d)
    else:
        raise Unsupported("range step")
    return SymSeq(n, lambda kk: z3.simplify(lo_ + step * kk), "range", ("range", lo, hi, step))


class CondItems:
    """known items, each of them present under a condition"""

    def __init__(self, items):
        self.items = items

    def concrete_items(self, vm):
        return list(self.items)


class CollIter:
    """the elements of a collection, each mapped by f"""

    def __init__(self, coll, f):
        self.coll, self.f = coll, f

    def collection_model(self, vm):
        from .loops import Coll
        c = self.coll
        return Coll(c.sorts, c.guard, lambda xs: self.f(c.elem(xs)), c.facts, None, c.keyset, c.prior, c.length, c.tag)


@lib("builtins.enumerate")
def _enumerate(vm, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = None
    try:
        items = vm.concrete_items(a[0])
    except Unsupported:
        raise
    if items is not None:
        if any(p is not True for p, _ in items):
            out, i = [], start
            for p, v in items:
                out.append((p, (i, v)))
                i = z3.simplify(smt_int(i) + z3.If(sc.as_z3(p), 1, 0)) if p is not True else i + 1
            return CondItems(out)
        return vm.alloc(PyObj("iter", {"items": tuple((i + start, v) for i, (_, v) in enumerate(items))}))
    if hasattr(a[0], "enumerate_model"):
        return a[0].enumerate_model(vm, start)
    from .loops import collection
    c = collection(vm, a[0])
    if c.ordered is None:
        return CollIter(c, lambda v: (Poison("number of an item of an unordered collection"), v))
    s = c.ordered
    return SymSeq(s.length, lambda kk: (z3.simplify(kk + start), s.get(kk)), "iter", ("enumerate", s), s.facts)


@lib("builtins.zip")
def _zip(vm, a, k):
    lists = [vm.concrete_items(x) for x in a]
    if all(l is not None for l in lists):
        return vm.alloc(PyObj("iter", {"items": tuple(tuple(v for _, v in t) for t in zip(*lists))}))
    seqs = []
    from .loops import collection
    for x in a:
        c = collection(vm, x)
        if c.ordered is None:
            raise Unsupported("zip of an unordered collection")
        seqs.append(c.ordered)
    n = seqs[0].length
    for s in seqs[1:]:
        m = s.length
        t = vm.known(smt_int(n) == smt_int(m))
        if t is not True:
            n = z3.If(smt_int(n) < smt_int(m), smt_int(n), smt_int(m))

    def facts(kk):
        out = []
        for s in seqs:
            if s.facts:
                out += s.facts(kk)
        return out
    return SymSeq(n, lambda kk: tuple(s.get(kk) for s in seqs), "iter", ("zip", seqs), facts)


@lib("builtins.reversed")
def _reversed(vm, a, k):
    v = a[0]
    if isinstance(v, SymSeq):
        return seq_slice(vm, v, SliceVal(None, None, -1))
    if isinstance(v, BStr):
        return getitem(vm, v, SliceVal(None, None, -1))
    if hasattr(v, "getitem_model"):
        return v.getitem_model(vm, SliceVal(None, None, -1))
    if isinstance(v, range):
        return v[::-1]
    if isinstance(v, Ref) and isinstance(vm.get(v), ListObj) and vm.get(v).base is not None:
        return seq_slice(vm, list_seq(vm, vm.get(v)), SliceVal(None, None, -1))
    items = vm.concrete_items(v)
    if items is None:
        raise Unsupported("reversed")
    return tuple(x for _, x in reversed(items))


def _to_tuple(vm, v, kind):
    if isinstance(v, (PosTuple, SymSeq)):
        if isinstance(v, SymSeq):
            return SymSeq(v.length, v.get, kind, v.tag, v.facts)
        return PosTuple(v.parts, kind)
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, ListObj) and o.base is not None:
            if o.items:
                s = list_seq(vm, o)
            else:
                s = o.base
            return _to_tuple(vm, s, kind) if not isinstance(s, SymComp) else s
        if hasattr(o, "as_seq_obj"):
            return o.as_seq_obj(vm)
    if isinstance(v, BStr):
        return SymSeq(v.bits.length, lambda k: BitChar(v.bits.bit(k)), kind)
    if hasattr(v, "to_tuple_model"):
        return v.to_tuple_model(vm, kind)
    return None


@lib("builtins.tuple")
def _tuple(vm, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, tuple):
        return v
    r = _to_tuple(vm, v, "tuple")
    if r is not None:
        return r
    items = vm.concrete_items(v)
    if items is not None:
        if any(p is not True for p, _ in items):
            raise Unsupported("tuple of conditional items")
        return tuple(x for _, x in items)
    return _coll_to_seq(vm, v, "tuple")


@lib("builtins.list")
def _list(vm, a, k):
    if not a:
        return vm.alloc(ListObj([]))
    v = a[0]
    r = _to_tuple(vm, v, "list")
    if r is not None:
        return vm.alloc(ListObj([], r))
    items = vm.concrete_items(v)
    if items is not None:
        if any(p is not True for p, _ in items):
            # keep as a snapshot view with conditions
            return CondItems(items)
        return vm.alloc(ListObj([x for _, x in items]))
    return _coll_to_seq(vm, v, "list")


class CondItems:
    """list of items of a dictionary whose entries are present under conditions (iteration only)"""

    def __init__(self, items):
        self.items = items

    def concrete_items(self, vm):
        return self.items


class Snapshot:
    """list/tuple of the elements of an unordered symbolic collection (iteration order unknown)"""

    def __init__(self, coll, kind):
        self.coll, self.kind = coll, kind

    def collection_model(self, vm):
        return self.coll

    def concrete_items(self, vm):
        return None

    def to_set(self, vm):
        c = self.coll
        if c.keyset is None:
            raise Unsupported("set of a snapshot")
        return vm.alloc(SymSetObj(c.keyset[0], c.keyset[1]))

    def attr_model(self, vm, name):
        return NotImplemented


def _coll_to_seq(vm, v, kind):
    from .loops import collection
    if getattr(vm, "any_order", None) is not None and isinstance(v, Ref) and isinstance(vm.get(v), SymSetObj):
        s = vm.any_order(vm, v, kind)
        return vm.alloc(ListObj([], s)) if kind == "list" else s
    c = collection(vm, v)
    if c.ordered is not None:
        s = c.ordered
        s2 = SymSeq(s.length, s.get, kind, s.tag, s.facts)
        return vm.alloc(ListObj([], s2)) if kind == "list" else s2
    return Snapshot(c, kind)


@lib("builtins.dict", "collections.OrderedDict")
def _dict(vm, a, k):
    r = vm.alloc(DictObj())
    if a:
        src = a[0]
        if isinstance(src, Ref) and isinstance(vm.get(src), (DictObj, MapObj)):
            return vm.alloc(vm.get(src).clone())
        items = vm.concrete_items(src)
        if items is None:
            from .loops import run_symbolic
            run_symbolic(vm, src, lambda kv: setitem(vm, r, *vm.unpack(kv, 2)))
            return r
        for p, kv in items:
            kk, vv = vm.unpack(kv, 2)
            if p is True:
                setitem(vm, r, kk, vv)
            else:
                vm.branch(p, lambda: setitem(vm, r, kk, vv), lambda: None)
    for kk, vv in k.items():
        setitem(vm, r, kk, vv)
    return r


@lib("builtins.set")
def _set(vm, a, k):
    return flagged(vm, make_set(vm, a[0] if a else None), False)


@lib("builtins.frozenset")
def _frozenset(vm, a, k):
    return flagged(vm, make_set(vm, a[0] if a else None, True), True)


def flagged(vm, r, frozen):
    if isinstance(vm.get(r), SymSetObj):
        vm.mut(r).frozen = frozen
    return r


@lib("builtins.int")
def _int(vm, a, k):
    v = a[0]
    if len(a) == 2:
        if a[1] == 2:
            if isinstance(v, BStr):
                if vm.decide(smt_int(v.bits.length) == 0):
                    raise PyRaise("ValueError")
                return BInt(v.bits)
            if isinstance(v, str):
                try:
                    return int(v, 2)
                except ValueError:
                    raise PyRaise("ValueError")
        raise Unsupported("int with base")
    if vm.is_intlike(v):
        return vm.as_int(v)
    if isinstance(v, BInt):
        return v
    if isinstance(v, BitNum):
        return z3.If(v.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, Scalar):
        c = v.const()
        if c is not None and c.rational() is not None:
            return int(c.rational())
        return sc_trunc(vm, v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError")
    raise Unsupported("int()")


def sc_trunc(vm, v):
    """int(x) of a symbolic real: an integer atom; equal to x exactly when x is an integer"""
    n = z3.Int("trunc!%d" % (abs(hash(v)) % (10 ** 12)))
    vm.__dict__.setdefault("truncs", {})[n.get_id()] = (n, v)
    return n


@lib("builtins.float")
def _float(vm, a, k):
    v = a[0]
    if isinstance(v, str):
        try:
            return Scalar.of(float(v))
        except ValueError:
            raise PyRaise("ValueError")
    return vm.as_scalar(v)


@lib("builtins.complex")
def _complex(vm, a, k):
    if len(a) == 2:
        return vm.as_scalar(a[0]) + sc.SI * vm.as_scalar(a[1])
    return vm.as_scalar(a[0])


@lib("builtins.bool")
def _bool(vm, a, k):
    return vm.truth(a[0])


@lib("builtins.str")
def _str(vm, a, k):
    v = a[0] if a else ""
    if isinstance(v, (str, BStr)):
        return v
    if isinstance(v, int):
        return str(v)
    return Opaque()


@lib("builtins.repr", "builtins.format")
def _repr(vm, a, k):
    if len(a) == 2:
        return format_spec(vm, a[0], a[1])
    return Opaque()


def format_spec(vm, v, spec):
    """format of a bit-encoded integer in binary with zero padding"""
    if isinstance(v, BInt):
        if isinstance(spec, str):
            if spec == "b":
                return BStr(strip_zeros(vm, v.bits))
            if spec.endswith("b") and spec[:-1].isdigit() and spec.startswith("0"):
                return method(vm, BStr(strip_zeros(vm, v.bits)), "zfill", [int(spec[:-1])], {})
    if isinstance(v, int) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            raise PyRaise("ValueError")
    return Opaque()


LIBF["format_spec"] = format_spec


def format_text(fmt, args, kwargs):
    """text with the values that appear in it; no pieces when the fields are not plain positions or names"""
    import string
    parts, n = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                v, n = args[n], n + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                return Opaque()
            parts.append((v, spec))
    except (ValueError, IndexError):
        return Opaque()
    return text(parts)


@lib("builtins.bin")
def _bin(vm, a, k):
    v = a[0]
    if isinstance(v, BInt):
        return BinText(v.bits)
    if isinstance(v, int):
        return bin(v)
    raise Unsupported("bin()")


@lib("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs")
def _abs(vm, a, k):
    v = a[0]
    if isinstance(v, Ref) or hasattr(v, "abs_model"):
        if hasattr(v, "abs_model"):
            return v.abs_model(vm)
        from .nd import nd_map
        return nd_map(vm, v, lambda x: sc.absval(Scalar.of(x)))
    if isinstance(v, int):
        return abs(v)
    if vm.is_intlike(v):
        z = smt_int(vm.as_int(v))
        return z3.simplify(z3.If(z >= 0, z, -z))
    return sc.absval(vm.as_scalar(v))


def _minmax(vm, a, k, is_min):
    if len(a) == 1:
        v = a[0]
        if isinstance(v, Ref) and isinstance(vm.get(v), (SymNdObj,)) or isinstance(v, SymSeq):
            raise Unsupported("min/max of a symbolic sequence")
        items = vm.concrete_items(v)
        if items is None:
            raise Unsupported("min/max")
        vals = [x for _, x in items]
        if not vals:
            if "default" in k:
                return k["default"]
            raise PyRaise("ValueError")
    else:
        vals = list(a)
    if "key" in k:
        raise Unsupported("min/max key")
    r = vals[0]
    for x in vals[1:]:
        if isinstance(r, int) and isinstance(x, int):
            r = min(r, x) if is_min else max(r, x)
        elif vm.is_intlike(r) and vm.is_intlike(x):
            p, q = smt_int(vm.as_int(r)), smt_int(vm.as_int(x))
            c = z3.simplify(p <= q if is_min else p >= q)
            t = vm.known(c)
            r = r if t is True else x if t is False else z3.simplify(z3.If(c, p, q))
        elif vm.is_num(r) and vm.is_num(x):
            c = scalar_cmp(ast.LtE if is_min else ast.GtE, Scalar.of(r), Scalar.of(x))
            r = sc.ite(c, r, x) if not isinstance(c, bool) else (r if c else x)
        else:
            raise Unsupported("min/max")
    return r


@lib("builtins.min")
def _min(vm, a, k):
    return _minmax(vm, a, k, True)


@lib("builtins.max")
def _max(vm, a, k):
    return _minmax(vm, a, k, False)


@lib("builtins.sum")
def _sum(vm, a, k):
    v = a[0]
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, Ref) and isinstance(vm.get(v), ListObj) and isinstance(vm.get(v).base, SymComp):
        o = vm.get(v)
        r = start
        for x in o.items:
            r = binop(vm, ast.Add(), r, x)
        c = o.base
        t = Scalar.of(vm.as_scalar(c.elem)) * sc.ind(c.cond)
        for b in reversed(c.binders):
            t = sc.Sum(b, t)
        return binop(vm, ast.Add(), r, t)
    items = vm.concrete_items(v)
    if items is not None:
        r = start
        for p, x in items:
            if p is True:
                r = binop(vm, ast.Add(), r, x)
            else:
                r = binop(vm, ast.Add(), r, sc.mask(p, Scalar.of(x)))
        return r
    from .loops import sum_collection
    return sum_collection(vm, v, start)


@lib("builtins.all", "builtins.any")
def _all(vm, a, k):
    raise Unsupported("all/any")


def _all_any(is_all):
    def f(vm, a, k):
        v = a[0]
        items = vm.concrete_items(v)
        if items is None:
            if isinstance(v, Ref) and isinstance(vm.get(v), ListObj) and isinstance(vm.get(v).base, (SymSeq, SymComp)) \
                    and not vm.get(v).items:
                b = vm.get(v).base
                if isinstance(b, SymSeq):
                    q = smt.fresh_int("q")
                    c = sc.as_z3(vm.truth(b.get(q)))
                    rng = z3.And(q >= 0, q < smt_int(b.length))
                    return z3.ForAll([q], z3.Implies(rng, c)) if is_all else z3.Exists([q], z3.And(rng, c))
                c = sc.as_z3(vm.truth(b.elem))
                bs = list(b.binders)
                g = z3.And(b.cond, *(list(b.facts(bs)) if b.facts else []))
                return z3.ForAll(bs, z3.Implies(g, c)) if is_all else z3.Exists(bs, z3.And(g, c))
            raise Unsupported("all/any")
        cs = []
        for p, x in items:
            t = sc.as_z3(vm.truth(x))
            if p is not True:
                t = z3.Implies(p, t) if is_all else z3.And(p, t)
            cs.append(t)
        if not cs:
            return is_all
        r = z3.simplify(z3.And(*cs) if is_all else z3.Or(*cs))
        return True if z3.is_true(r) else False if z3.is_false(r) else r
    return f


LIBF["builtins.all"] = _all_any(True)
LIBF["builtins.any"] = _all_any(False)


def union_of_parts(vm, v):
    """(set, bound) of the members of a tuple of several whole sets, when no number occurs twice; None otherwise"""
    if not v.parts or any(p[0] != "set" for p in v.parts):
        return None
    h = smt.fresh_int("h")
    ins = []
    for _, a, n, lo, hi in v.parts:
        if vm.known(z3.And(lo == 0, hi == smt.PC(a, smt_int(n)))) is not True:
            return None
        ins.append(z3.And(0 <= h, h < smt_int(n), z3.Select(a, h)))
    twice = z3.Or(*[z3.And(x, y) for i, x in enumerate(ins) for y in ins[:i]])
    if smt.entails(vm.asms(), z3.Not(twice)) is not True:
        return None
    n = smt_int(v.parts[0][2])
    for p in v.parts[1:]:
        n = z3.If(n < smt_int(p[2]), smt_int(p[2]), n)
    k = z3.Int("h!lam")
    return z3.Lambda([k], z3.substitute(z3.Or(*ins), (h, k))), z3.simplify(n)


@lib("builtins.sorted")
def _sorted(vm, a, k):
    v = a[0]
    if "key" in k or k.get("reverse", False) is not False:
        raise Unsupported("sorted with key")
    if isinstance(v, PosTuple):
        if len(v.parts) == 1 and v.parts[0][0] == "set":
            return vm.alloc(ListObj([], PosTuple(v.parts, "list")))
        u = union_of_parts(vm, v)
        if u is None:
            raise Unsupported("sorted")
        return vm.alloc(ListObj([], PosTuple.full(*u, "list")))
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, SymSetObj):
            if getattr(vm, "sorted_set", None) is None:
                raise Unsupported("sorted")
            return vm.sorted_set(vm, v)
        if hasattr(o, "sorted_obj"):
            return o.sorted_obj(vm, v)
    items = vm.concrete_items(v)
    if items is None:
        raise Unsupported("sorted")
    vals = [x for _, x in items]
    if all(isinstance(x, (int, str)) for x in vals) or all(
            isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x) for x in vals):
        return vm.alloc(ListObj(sorted(vals)))
    if all(vm.is_intlike(x) for x in vals):
        # insertion sort deciding comparisons
        out = []
        for x in vals:
            j = len(out)
            for i, y in enumerate(out):
                if vm.decide(compare(vm, ast.Lt(), x, y)):
                    j = i
                    break
            out.insert(j, x)
        return vm.alloc(ListObj(out))
    raise Unsupported("sorted")


@lib("builtins.isinstance")
def _isinstance(vm, a, k):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if not isinstance(x, Lib):
            raise Unsupported("isinstance")
        if _inst(vm, v, x.name):
            return True
    return False


def _inst(vm, v, name):
    name = name.split(".")[-1]
    if hasattr(v, "isinstance_model"):
        return v.isinstance_model(vm, name)
    if name == "int":
        return vm.is_intlike(v) or isinstance(v, BInt)
    if name == "bool":
        return isinstance(v, (bool, z3.BoolRef))
    if name == "float":
        return isinstance(v, Scalar)
    if name == "complex":
        return isinstance(v, Scalar)
    if name == "str":
        return isinstance(v, (str, BStr, BitChar))
    if name == "bytes":
        return isinstance(v, (bytes, BBytes))
    if name == "tuple":
        return isinstance(v, tuple) or isinstance(v, (PosTuple, SymSeq)) and v.kind == "tuple"
    o = vm.get(v) if isinstance(v, Ref) else None
    if name == "list":
        return isinstance(o, ListObj)
    if name in ("dict", "OrderedDict"):
        return isinstance(o, (DictObj, MapObj))
    if name in ("set", "frozenset"):
        return isinstance(o, (SetObj, SymSetObj))
    if name == "ndarray":
        return isinstance(o, (NdObj, SymNdObj))
    if name == "bitarray":
        return isinstance(o, BitArrObj)
    raise Unsupported("isinstance %s" % name)


@lib("builtins.type")
def _type(vm, a, k):
    raise Unsupported("type()")


@lib("builtins.iter")
def _iter(vm, a, k):
    v = a[0]
    items = None
    if isinstance(v, Ref) and isinstance(vm.get(v), PyObj) and vm.get(v).cls == "iter":
        return v
    items = vm.concrete_items(v)
    if items is not None:
        if any(p is not True for p, _ in items):
            raise Unsupported("iterator over conditional items")
        return vm.alloc(PyObj("iter", {"items": tuple(x for _, x in items)}))
    order = getattr(vm.get(v), "order", None) if isinstance(v, Ref) else None
    if order is not None:
        return vm.alloc(OrderIter({"pos": z3.IntVal(0)}, *order))
    raise Unsupported("iterator over %r" % (v,))


class OrderIter(FrameObj):
    """iterator over a symbolic number of keys; its only state is how many were taken"""

    def __init__(self, vars, length, get):
        FrameObj.__init__(self, vars, None, None, None)
        self.length, self.elem = length, get

    def clone(self):
        return OrderIter(dict(self.vars), self.length, self.elem)

    def islice_obj(self, vm, ref, n):
        n = smt_int(vm.as_int(n))
        if vm.entails(n >= 0) is not True:
            raise Unsupported("islice with a negative length")
        from .interp import force
        pos = smt_int(vm.as_int(force(self.vars["pos"])))
        vm.assume(pos >= 0)                   # starts at 0, only moves on
        vm.mut(ref).vars["pos"] = z3.simplify(pos + n)
        left = self.length - pos
        return SymSeq(z3.If(left >= n, n, z3.If(left > 0, left, 0)), lambda k: self.elem(pos + smt_int(k)), "iter")


@lib("builtins.next")
def _next(vm, a, k):
    o = vm.get(a[0])
    if isinstance(o, PyObj) and o.cls == "iter":
        items = o.fields["items"]
        if not items:
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration")
        vm.mut(a[0]).fields["items"] = items[1:]
        return items[0]
    raise Unsupported("next()")


@lib("builtins.map")
def _map(vm, a, k):
    items = vm.concrete_items(a[1]) if len(a) == 2 else None
    if items is None:
        if len(a) == 2:
            s = as_seq(vm, a[1])
            return SymSeq(s.length, lambda kk: vm.call(a[0], [s.get(kk)]), "iter", None, s.facts)
        raise Unsupported("map()")
    return vm.alloc(PyObj("iter", {"items": tuple(vm.call(a[0], [x]) for _, x in items)}))


@lib("builtins.round")
def _round(vm, a, k):
    if isinstance(a[0], int):
        return a[0]
    raise Unsupported("round")


@lib("builtins.divmod")
def _divmod(vm, a, k):
    return (binop(vm, ast.FloorDiv(), a[0], a[1]), binop(vm, ast.Mod(), a[0], a[1]))


@lib("builtins.pow")
def _pow(vm, a, k):
    return binop(vm, ast.Pow(), a[0], a[1])


@lib("builtins.hash", "builtins.id", "builtins.input", "builtins.eval", "builtins.exec")
def _nope(vm, a, k):
    raise Unsupported("builtin")


@lib("bisect.bisect_left")
def _bisect_left(vm, a, k):
    t, x = a[0], a[1]
    if isinstance(t, tuple) and len(t) == 0:
        return 0
    if isinstance(t, PosTuple) and len(t.parts) == 1 and t.parts[0][0] == "set":
        _, arr, n, lo, hi = t.parts[0]
        z = smt_int(vm.as_int(x))
        if vm.known(z3.And(z >= 0, z <= smt_int(n), lo == 0, hi == smt.PC(arr, smt_int(n)))) is True:
            return smt.PC(arr, z)
        raise Unsupported("bisect bounds")
    if isinstance(t, tuple) and all(isinstance(y, int) for y in t) and isinstance(x, int):
        import bisect
        return bisect.bisect_left(t, x)
    raise Unsupported("bisect")


@lib("bisect.bisect_right", "bisect.bisect")
def _bisect_right(vm, a, k):
    t, x = a[0], a[1]
    if isinstance(t, PosTuple) and len(t.parts) == 1:
        return _bisect_left(vm, [t, binop(vm, ast.Add(), x, 1)], k)
    raise Unsupported("bisect")


@lib("bitarray.bitarray")
def _bitarray(vm, a, k):
    if not a:
        return vm.alloc(BitArrObj(Bits([])))
    v = a[0]
    if isinstance(v, int):
        if v == 0:
            return vm.alloc(BitArrObj(Bits([])))
        raise Unsupported("uninitialised bitarray")
    if isinstance(v, Ref) and isinstance(vm.get(v), BitArrObj):
        return vm.alloc(vm.get(v).clone())
    b = to_bits(vm, v)
    if b is not None:
        return vm.alloc(BitArrObj(b))
    raise Unsupported("bitarray()")


@lib("math.sqrt", "numpy.sqrt")
def _sqrt(vm, a, k):
    v = a[0]
    if hasattr(v, "sqrt_model"):
        return v.sqrt_model(vm)
    if isinstance(v, Ref):
        from .nd import nd_map
        return nd_map(vm, v, lambda x: sc.sqrt(Scalar.of(x)))
    s = vm.as_scalar(v)
    c = s.const()
    if c is not None and c.is_real() and c.sign() < 0:
        raise PyRaise("ValueError")
    return sc.sqrt(s)


@lib("math.ceil")
def _ceil(vm, a, k):
    v = a[0]
    if isinstance(v, int):
        return v
    s = vm.as_scalar(v)
    c = s.const()
    if c is not None and c.rational() is not None:
        return math.ceil(c.rational())
    # quotient of integers p/q with q > 0
    if len(s.t) == 1:
        ((g, m), val), = s.t.items()
        num, den = Scalar.of(val), None
        for i, e in m:
            at = sc.ATOMS[i]
            if at.kind == "inv" and e == 1 and den is None:
                den = at.data
            else:
                num = num * Scalar.atom(at) ** e
        p = _int_of_scalar(num)
        if not g and p is not None:
            q = _int_of_scalar(den) if den is not None else z3.IntVal(1)
            if q is not None and vm.known(q > 0) is True:
                r = smt.fresh_int("ceil")
                vm.assume(z3.And((r - 1) * q < p, p <= r * q))
                return r
    p = _int_of_scalar(s)
    if p is not None:
        return p
    raise Unsupported("ceil")


def _int_of_scalar(s):
    if s is None:
        return None
    r = z3.IntVal(0)
    for (g, m), v in s.t.items():
        q = v.rational()
        if g or q is None or q.denominator != 1:
            return None
        t = z3.IntVal(int(q))
        for i, e in m:
            a = sc.ATOMS[i]
            if a.kind == "app" and a.data[0] == "int":
                for _ in range(e):
                    t = t * a.data[1][0]
            else:
                return None
        r = r + t
    return z3.simplify(r)


@lib("time.time", "time.perf_counter")
def _time(vm, a, k):
    return sc.par("time!")


@lib("itertools.product")
def _product(vm, a, k):
    import itertools
    rep = k.get("repeat", 1)
    lists = [vm.concrete_items(v) for v in a]
    if all(l is not None and all(p is True for p, _ in l) for l in lists):
        lists = [[x for _, x in l] for l in lists]
        return vm.alloc(PyObj("iter", {"items": tuple(itertools.product(*lists, repeat=rep))}))
    if rep != 1:
        raise Unsupported("product of a collection with itself")
    return ProductIter(list(a))


class ProductIter:
    """product of collections, in lexicographic order"""

    def __init__(self, its):
        self.its = its

    def collection_model(self, vm):
        from .loops import Coll, collection
        cs = []
        for x in self.its:
            try:
                cs.append(collection(vm, x))
            except Unsupported:
                cs.append(collection(vm, tuple_iter(vm, x)))
        cut, n = [], 0
        for c in cs:
            cut.append((n, n + len(c.sorts)))
            n += len(c.sorts)

        def guard(xs):
            return z3.And(*[sc.as_z3(c.guard(xs[i:j])) for c, (i, j) in zip(cs, cut)])

        def elem(xs):
            return tuple(c.elem(xs[i:j]) for c, (i, j) in zip(cs, cut))

        def facts(xs):
            out = []
            for c, (i, j) in zip(cs, cut):
                out += c.facts(xs[i:j])
            return out
        return Coll([s for c in cs for s in c.sorts], guard, elem, facts)


CNT = z3.Function("CNT", smt.Arr, z3.IntSort(), z3.IntSort(), z3.IntSort())       # members in [lo, hi)
CANON = z3.Function("CANON", smt.Arr, z3.IntSort(), z3.IntSort(), z3.BoolSort())  # no member outside [lo, hi)


def restricted(a, lo, hi):
    h = z3.Int("h!lam")
    return z3.Lambda([h], z3.And(lo <= h, h < hi, z3.Select(a, h)))


@lib("itertools.combinations")
def _combinations(vm, a, k):
    import itertools
    items = vm.concrete_items(a[0])
    if items is not None and all(p is True for p, _ in items) and isinstance(a[1], int):
        if a[1] < 0:
            raise PyRaise("ValueError")
        return vm.alloc(PyObj("iter", {"items": tuple(itertools.combinations([x for _, x in items], a[1]))}))
    r = smt_int(vm.as_int(a[1]))
    if vm.decide(r < 0):
        raise PyRaise("ValueError")
    if items is not None:
        if not items or any(p is not True or not isinstance(x, int) for p, x in items):
            raise Unsupported("combinations")
        if [x for _, x in items] != list(range(items[0][1], items[0][1] + len(items))):
            raise Unsupported("combinations of numbers that do not follow each other")
        lo, n = z3.IntVal(items[0][1]), z3.IntVal(len(items))
    else:
        s = as_seq(vm, a[0])
        n = smt_int(s.length)
        lo = z3.simplify(smt_int(vm.as_int(s.get(z3.IntVal(0)))))
        y = smt.fresh_int("y")
        if smt.entails(vm.asms() + [0 <= y, y < n], smt_int(vm.as_int(s.get(y))) == lo + y) is not True:
            raise Unsupported("combinations of numbers that do not follow each other")
    hi = z3.simplify(lo + n)
    A = smt.fresh(smt.Arr, "A")
    return SymComp([A], z3.And(CANON(A, lo, hi), CNT(A, lo, hi) == r), PosTuple.full(restricted(A, lo, hi), hi), "iter")


@lib("itertools.chain", "itertools.chain.from_iterable")
def _chain(vm, a, k):
    its = a
    out = []
    if len(a) == 1:
        try:
            its = [x for _, x in vm.concrete_items(a[0])]
        except TypeError:
            raise Unsupported("chain")
    if any(isinstance(x, PosTuple) for x in its):
        ps = [to_pos(vm, x) for x in its]
        if all(p is not None for p in ps):
            return PosTuple([q for p in ps for q in p.parts], "iter")
    for x in its:
        items = vm.concrete_items(x)
        if items is None:
            raise Unsupported("chain")
        out += [v for _, v in items]
    return vm.alloc(PyObj("iter", {"items": tuple(out)}))


@lib("itertools.islice")
def _islice(vm, a, k):
    o = vm.get(a[0]) if isinstance(a[0], Ref) else None
    if isinstance(o, PyObj) and o.cls == "iter" and len(a) == 2 and isinstance(a[1], int):
        items = o.fields["items"]
        vm.mut(a[0]).fields["items"] = items[a[1]:]
        return items[:a[1]]
    if hasattr(o, "islice_obj"):
        return o.islice_obj(vm, a[0], a[1])
    raise Unsupported("islice")


@lib("copy.copy", "copy.deepcopy")
def _copy(vm, a, k):
    return method(vm, a[0], "copy", [], {})


CONSTS["math.pi"] = lambda vm: Scalar.of(Num({(1, 0, 2): Fraction(1)}))
CONSTS["numpy.pi"] = CONSTS["math.pi"]
CONSTS["builtins.True"] = lambda vm: True
CONSTS["builtins.False"] = lambda vm: False
CONSTS["builtins.None"] = lambda vm: None
CONSTS["builtins.__name__"] = lambda vm: "module"
CONSTS["numpy.inf"] = lambda vm: INF


def _physical_constants(vm):
    """table of CODATA values: the Boltzmann constant as the exact decimal of the installed scipy table"""
    from scipy.constants import physical_constants as table
    out = {}
    for key in ("Boltzmann constant in eV/K",):
        v, unit, err = table[key]
        out[key] = (True, key, (Scalar.of(Num({(1, 0, 0): Fraction(repr(v))})), unit, Opaque()))
    return vm.alloc(DictObj(out))


CONSTS["scipy.constants.physical_constants"] = _physical_constants
