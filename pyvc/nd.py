"""numpy arrays.  NdObj: concrete shape (numpy object array of values).  SymNdObj: symbolic shape, element function.

Views: basic slicing, transposition and reshaping give a view in numpy.  A view here is a copy that remembers the
version of its base; writing to a view, or reading it after its base was written, is out of reach."""
import ast
import operator
import z3
import numpy as _np
from fractions import Fraction

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .num import Num
from .values import *
from .interp import PyRaise, smt_int
from .libs import lib, CONSTS, binop, scalar_cmp, compare, norm_index, slice_bounds, INF


# ---------------------------------------------------------------- basics

def _fresh(o):
    o.ver = object()
    o.view = None
    return o


def mk(vm, a, dtype="complex"):
    return vm.alloc(_fresh(NdObj(a, dtype)))


def mkview(vm, ref, a):
    o = vm.get(ref)
    n = NdObj(a, o.dtype)
    n.ver = object()
    base = getattr(o, "view", None)
    n.view = (ref.oid, _ver(o)) if base is None else base
    return vm.alloc(n)


def _ver(o):
    if not hasattr(o, "ver"):
        o.ver, o.view = object(), None
    return o.ver


def arr(vm, ref):
    """numpy object array behind a reference (checked for staleness of views)"""
    o = vm.get(ref)
    v = getattr(o, "view", None)
    if v is not None:
        b = vm.heap.get(v[0])
        if b is None or _ver(b) is not v[1]:
            raise Unsupported("array view read after its base was changed")
    return o.a


def _clone(self):
    n = NdObj(self.a.copy(), self.dtype)
    n.ver, n.view = getattr(self, "ver", None) or object(), getattr(self, "view", None)
    self.ver, self.view = n.ver, n.view
    return n


NdObj.clone = _clone


def nd_mut(vm, ref):
    o = vm.get(ref)
    if getattr(o, "view", None) is not None:
        raise Unsupported("write through an array view")
    m = vm.mut(ref)
    m.ver = object()
    m.view = None
    return m


def dtype_of(x):
    if isinstance(x, (bool, z3.BoolRef)):
        return "bool"
    if isinstance(x, int) or isinstance(x, z3.ArithRef) and x.is_int():
        return "int"
    if isinstance(x, Scalar):
        return "float" if x.is_real() else "complex"
    return "object"


_ORD = {"bool": 0, "int": 1, "float": 2, "complex": 3, "object": 4}


def join_dtype(a, b):
    return a if _ORD[a] >= _ORD[b] else b


def dtype_arg(v):
    if v is None:
        return "float"
    if isinstance(v, Lib):
        n = v.name.split(".")[-1]
        if n in ("complex", "complex128", "complex_", "cdouble"):
            return "complex"
        if n in ("float", "float64", "float_", "double", "float32"):
            return "float"
        if n in ("int", "int64", "intp", "int32"):
            return "int"
        if n in ("bool", "bool_"):
            return "bool"
        if n == "object":
            return "object"
    if isinstance(v, str) and v in ("float", "complex", "int", "bool"):
        return v
    raise Unsupported("dtype")


def coerce(vm, v, dtype):
    """value as stored in an array of that dtype"""
    if dtype == "object":
        return v
    if dtype == "bool":
        return vm.truth(v)
    if dtype == "int":
        if vm.is_intlike(v):
            return vm.as_int(v)
        raise Unsupported("number stored in an integer array")
    if isinstance(v, Ref) and isinstance(vm.get(v), NdObj) and vm.get(v).a.size == 1:
        v = arr(vm, v).reshape(-1)[0]
    s = Scalar.of(vm.as_scalar(v))
    if dtype == "float" and not s.is_real():
        raise Unsupported("complex value stored in a real array")
    return s


def to_nd(vm, v):
    """(numpy object array, dtype) of an array-like of concrete structure, or None"""
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, NdObj):
            return arr(vm, v), o.dtype
        if isinstance(o, SymNdObj):
            return None
    if vm.is_num(v):
        a = _np.empty((), dtype=object)
        a[()] = v
        return a, dtype_of(v)
    items = None
    if isinstance(v, (tuple, range)) or isinstance(v, Ref):
        items = vm.concrete_items(v)
    elif isinstance(v, SymSeq) and isinstance(v.length, int):
        items = vm.concrete_items(v)
    if items is None or any(p is not True for p, _ in items):
        return None
    if not items:
        return _np.empty((0,), dtype=object), "float"
    parts = [to_nd(vm, x) for _, x in items]
    if any(p is None for p in parts):
        return None
    shp = {p[0].shape for p in parts}
    if len(shp) != 1:
        raise Unsupported("ragged array")
    dt = "bool"
    for p in parts:
        dt = join_dtype(dt, p[1])
    a = _np.empty((len(parts),) + parts[0][0].shape, dtype=object)
    for i, p in enumerate(parts):
        a[i] = p[0] if p[0].shape else p[0][()]
    return a, dt


def need(vm, v):
    r = to_nd(vm, v)
    if r is None:
        raise Unsupported("array of symbolic structure")
    return r


def seq_nd(vm, v):
    """SymNdObj for a symbolic sequence of numbers / array, or None"""
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, SymNdObj):
            fresh_read(vm, o)
            return o
        if isinstance(o, ListObj) and o.base is not None:
            from .libs import as_seq
            v = as_seq(vm, v)
        elif isinstance(o, NdObj):
            a = arr(vm, v)
            return SymNdObj(a.shape, lambda ix: sel(vm, a, ix), o.dtype)
        else:
            t = to_nd(vm, v)
            if t is not None:
                return SymNdObj(t[0].shape, lambda ix: sel(vm, t[0], ix), t[1])
            if isinstance(o, ListObj):
                return rows_nd(vm, vm.concrete_items(v))
            return None
    if isinstance(v, SymSeq):
        s = v
        e = s.get(smt.fresh_int("k"))
        if vm.is_num(e):
            return SymNdObj((s.length,), lambda ix: s.get(smt_int(ix[0])), dtype_of(e))
        if isinstance(e, Ref) and isinstance(vm.get(e), (NdObj, SymNdObj)):
            inner = seq_nd(vm, e)
            return SymNdObj((s.length,) + tuple(inner.shape),
                            lambda ix: seq_nd(vm, s.get(smt_int(ix[0]))).get(ix[1:]), inner.dtype)
        if isinstance(e, tuple) and all(vm.is_num(x) for x in e):
            return SymNdObj((s.length, len(e)), lambda ix: sel(vm, _objarr(s.get(smt_int(ix[0]))), ix[1:]), "float")
        return None
    if isinstance(v, tuple):
        t = to_nd(vm, v)
        if t is not None:
            return SymNdObj(t[0].shape, lambda ix: sel(vm, t[0], ix), t[1])
        return rows_nd(vm, vm.concrete_items(v))
    return None


def rows_nd(vm, items):
    """array of a known number of rows of symbolic length"""
    if not items or any(p is not True for p, _ in items):
        return None
    rows = [seq_nd(vm, x) for _, x in items]
    if any(r is None or not r.shape for r in rows):
        return None
    s0 = rows[0].shape
    dt = "bool"
    for r in rows:
        if len(r.shape) != len(s0) or any(a is not b and vm.known(vm._eqi(a, b)) is not True for a, b in zip(r.shape, s0)):
            raise Unsupported("rows not known to be equally long")
        dt = join_dtype(dt, r.dtype)
    gets = [r.get for r in rows]

    def get(ix):
        ix = list(ix)
        if isinstance(ix[0], int):
            return gets[ix[0]](ix[1:])
        r = gets[-1](ix[1:])
        for k in range(len(gets) - 2, -1, -1):
            r = vm.merge_val(smt_int(ix[0]) == k, gets[k](ix[1:]), r)
        return r
    return SymNdObj((len(rows),) + tuple(s0), get, dt)


def _objarr(t):
    a = _np.empty((len(t),), dtype=object)
    for i, x in enumerate(t):
        a[i] = x
    return a


def sel(vm, a, ix):
    """element of a concrete array at possibly symbolic indices"""
    ix = list(ix)
    if not ix:
        return a[()] if a.shape == () else a
    i = ix[0]
    if isinstance(i, z3.ArithRef):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            i = i.as_long()
    if isinstance(i, int):
        return sel(vm, a[i] if isinstance(a[i], _np.ndarray) else _scal0(a[i]), ix[1:])
    n = a.shape[0]
    r = None
    for k in range(n - 1, -1, -1):
        x = sel(vm, a[k] if isinstance(a[k], _np.ndarray) else _scal0(a[k]), ix[1:])
        r = x if r is None else vm.merge_val(i == k, x, r)
    return r


def _scal0(x):
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def sym(vm, shape, get, dtype):
    if all(isinstance(s, int) for s in shape) and _np.prod(shape, dtype=int) <= 4096:
        a = _np.empty(shape, dtype=object)
        for ix in _np.ndindex(*shape):
            a[ix] = get(ix)
        return mk(vm, a, dtype)
    return vm.alloc(SymNdObj(tuple(shape), get, dtype))


def wrap(vm, a, dtype):
    if isinstance(a, _np.ndarray):
        if a.shape == ():
            return a[()]
        return mk(vm, a, dtype)
    return a


# ---------------------------------------------------------------- elementwise

def bshape(vm, s, t):
    """broadcast of two shapes; dims int or z3"""
    n = max(len(s), len(t))
    s = (1,) * (n - len(s)) + tuple(s)
    t = (1,) * (n - len(t)) + tuple(t)
    out = []
    for a, b in zip(s, t):
        if isinstance(a, int) and a == 1:
            out.append(b)
        elif isinstance(b, int) and b == 1:
            out.append(a)
        elif isinstance(a, int) and isinstance(b, int):
            if a != b:
                raise PyRaise("ValueError", "broadcast")
            out.append(a)
        elif vm.known(vm._eqi(a, b)) is True:
            out.append(a)
        else:
            raise Unsupported("broadcast of unrelated lengths")
    return tuple(out)


def bget(o, shape, ix):
    d = len(ix) - len(o.shape)
    jx = [0 if isinstance(m, int) and m == 1 else i for m, i in zip(o.shape, ix[d:])]
    return o.get(jx)


def elementwise(vm, vals, f, dtype):
    """f on broadcast values"""
    conc = [to_nd(vm, v) for v in vals]
    if all(c is not None for c in conc):
        try:
            bs = _np.broadcast_arrays(*[c[0] for c in conc])
        except ValueError:
            raise PyRaise("ValueError", "broadcast")
        out = _np.empty(bs[0].shape, dtype=object)
        for ix in _np.ndindex(*bs[0].shape):
            out[ix] = f(*[b[ix] for b in bs])
        dt = dtype if isinstance(dtype, str) else dtype(*[c[1] for c in conc])
        return wrap(vm, out, dt)
    objs = []
    for v, c in zip(vals, conc):
        if c is not None:
            a = c[0]
            objs.append(SymNdObj(a.shape, (lambda a: lambda ix: sel(vm, a, ix))(a), c[1]))
        else:
            o = seq_nd(vm, v)
            if o is None:
                raise Unsupported("array operation")
            objs.append(o)
    shape = ()
    for o in objs:
        shape = bshape(vm, shape, o.shape)
    dt = dtype if isinstance(dtype, str) else dtype(*[o.dtype for o in objs])
    return sym(vm, shape, lambda ix: f(*[bget(o, shape, list(ix)) for o in objs]), dt)


def nd_map(vm, v, f, dtype=None):
    return elementwise(vm, [v], f, dtype or (lambda a: a))


def _bin_dtype(op):
    def dt(a, b):
        d = join_dtype(a, b)
        if isinstance(op, ast.Div) and _ORD[d] < 2:
            return "float"
        if d == "bool":
            return "int"
        return d
    return dt


def num(v):
    """bool elements count as integers"""
    return v


def nd_binop(vm, op, a, b):
    if isinstance(op, ast.MatMult):
        return dot(vm, a, b)
    for x in (a, b):
        if isinstance(x, Ref) and isinstance(vm.get(x), (SymSetObj, SetObj, DictObj, MapObj)):
            raise Unsupported("array operation")
        if x is None or isinstance(x, str):
            raise PyRaise("TypeError")
    sp = [isinstance(x, Ref) and isinstance(vm.get(x), CsrObj) for x in (a, b)]
    if any(sp):
        from .sparse import sparse_binop
        return sparse_binop(vm, op, a, b, sp)
    return elementwise(vm, [a, b], lambda x, y: binop(vm, op, x, y), _bin_dtype(op))


def nd_compare(vm, op, a, b):
    return elementwise(vm, [a, b], lambda x, y: compare(vm, op, x, y), "bool")


# ---------------------------------------------------------------- indexing

def _is_adv(vm, i):
    if isinstance(i, Ref):
        o = vm.get(i)
        return isinstance(o, (ListObj, NdObj, SymNdObj))
    return isinstance(i, (SymSeq,))


def conc_index(vm, idx):
    """index usable on a concrete array, or None.  Returns (index, basic)"""
    t = idx if isinstance(idx, tuple) else (idx,)
    out, basic = [], True
    for i in t:
        if isinstance(i, SliceVal):
            vals = []
            for x in (i.a, i.b, i.c):
                if x is None or isinstance(x, int) and not isinstance(x, bool):
                    vals.append(x)
                else:
                    return None
            out.append(slice(*vals))
        elif isinstance(i, bool):
            return None
        elif isinstance(i, int):
            out.append(i)
        elif i is None or isinstance(i, Lib) and i.name == "numpy.newaxis":
            out.append(None)
        elif isinstance(i, Lib) and i.name == "builtins.Ellipsis":
            out.append(Ellipsis)
        elif isinstance(i, Ref) or isinstance(i, (tuple, range)):
            c = to_nd(vm, i)
            if c is None:
                return None
            a, dt = c
            if dt == "int" and all(isinstance(x, int) for x in a.reshape(-1)):
                out.append(_np.array(a.tolist(), dtype=int))
            elif dt == "bool" and all(isinstance(x, bool) for x in a.reshape(-1)):
                out.append(_np.array(a.tolist(), dtype=bool))
            else:
                return None
            basic = False
        else:
            return None
    return tuple(out), basic


def int_index(i):
    """an index that is a whole number (entry of a dictionary of positions)"""
    if isinstance(i, tuple):
        return tuple(int_index(x) for x in i)
    t = sc.int_term(i)
    return i if t is None else t


def masked(vm, mask, n, elem):
    """elements i of a sequence of length n with mask[i]"""
    if len(mask.shape) != 1 or vm.known(smt_int(mask.shape[0]) == smt_int(n)) is not True:
        raise Unsupported("mask of another length")
    i = smt.fresh_int("i")
    c = z3.simplify(z3.And(0 <= i, i < smt_int(n), sc.as_z3(mask.get((i,)))))
    return vm.alloc(MaskedObj(SymComp([i], c, elem(i))))


def nd_getitem(vm, ref, idx):
    o = vm.get(ref)
    idx = int_index(idx)
    if isinstance(o, NdObj):
        a = arr(vm, ref)
        c = conc_index(vm, idx)
        if c is not None:
            try:
                r = a[c[0]]
            except IndexError:
                raise PyRaise("IndexError")
            if not isinstance(r, _np.ndarray) or r.shape == () and all(isinstance(i, int) for i in c[0]):
                return r if not isinstance(r, _np.ndarray) else r[()]
            return mkview(vm, ref, r.copy()) if c[1] else mk(vm, r.copy(), o.dtype)
        if isinstance(idx, bool) or any(isinstance(i, (SliceVal,)) for i in (idx if isinstance(idx, tuple) else (idx,))):
            raise Unsupported("array index")
        t = idx if isinstance(idx, tuple) else (idx,)
        if all(vm.is_intlike(i) for i in t) and len(t) <= a.ndim:
            ix = [smt_int(norm_index(vm, i, n)) for i, n in zip(t, a.shape)]
            r = sel(vm, a, ix)
            return mkview(vm, ref, r.copy()) if isinstance(r, _np.ndarray) else r
        # boolean mask of symbolic truth values
        raise Unsupported("array index")
    # symbolic shape
    if type(o) is SymNdObj and len(o.shape) == 1 and isinstance(idx, Ref) and type(vm.get(idx)) is SymNdObj \
            and vm.get(idx).dtype == "bool":
        return masked(vm, vm.get(idx), o.shape[0], lambda i: o.get((i,)))
    t = idx if isinstance(idx, tuple) else (idx,)
    dims, get = [], []
    shape = list(o.shape)
    k = 0
    if sum(i is not None for i in t) > len(shape):
        raise PyRaise("IndexError")
    plan = []       # per source axis: ('fix', i) | ('slice', off, dim)
    for i in t:
        if i is None:
            plan.append(("new",))
            dims.append(1)
            continue
        n = shape[k]
        k += 1
        if isinstance(i, SliceVal):
            if i.c is not None and i.c != 1:
                if i.c == -1 and i.a is None and i.b is None:
                    plan.append(("rev", n))
                    dims.append(n)
                    continue
                raise Unsupported("stepped slice")
            if i.a is None and i.b is None:
                plan.append(("slice", 0))
                dims.append(n)
                continue
            p, q = slice_bounds(vm, i, n)
            plan.append(("slice", p))
            dims.append(_sub(q, p))
        elif vm.is_intlike(i):
            plan.append(("fix", norm_index(vm, i, n)))
        elif _is_adv(vm, i):
            s = seq_nd(vm, i)
            if s is None or len(s.shape) != 1 or s.dtype != "int":
                raise Unsupported("array index")
            kk = smt.fresh_int("k")
            e = smt_int(s.get([kk]))
            if vm.known(z3.Implies(z3.And(0 <= kk, kk < smt_int(s.shape[0])),
                                   z3.And(0 <= e, e < smt_int(n)))) is not True:
                raise Unsupported("index array not known to be in range")
            plan.append(("adv", s))
            dims.append(s.shape[0])
        else:
            raise Unsupported("array index")
    for n in shape[k:]:
        plan.append(("slice", 0))
        dims.append(n)
    if sum(p[0] == "adv" for p in plan) > 1:
        raise Unsupported("several index arrays")

    def get(ix):
        jx, c = [], 0
        for p in plan:
            if p[0] == "new":
                c += 1
            elif p[0] == "fix":
                jx.append(p[1])
            elif p[0] == "slice":
                jx.append(_add(p[1], ix[c]))
                c += 1
            elif p[0] == "rev":
                jx.append(_sub(_sub(p[1], 1), ix[c]))
                c += 1
            else:
                jx.append(p[1].get([ix[c]]))
                c += 1
        return o.get(jx)
    if not dims:
        return get([])
    fresh_read(vm, o)
    r = sym(vm, tuple(dims), get, o.dtype)
    if not any(p[0] == "adv" for p in plan) and type(vm.get(r)) is SymNdObj:
        vm.get(r).view = getattr(o, "view", None) or (ref.oid, o.get)
        vm.get(r).origin = (ref, idx) if getattr(o, "view", None) is None else None
    return r


def fresh_read(vm, o):
    """a view shares its elements with the array it was taken from: not modelled once that array has changed"""
    v = getattr(o, "view", None)
    if v is not None:
        b = vm.heap.get(v[0])
        if b is None or b.get is not v[1]:
            raise Unsupported("array view read after its base was changed")


def _add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return z3.simplify(smt_int(a) + smt_int(b))


def _sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return z3.simplify(smt_int(a) - smt_int(b))


def nd_setitem(vm, ref, idx, v):
    o = vm.get(ref)
    idx = int_index(idx)
    if isinstance(o, NdObj):
        c = conc_index(vm, idx)
        arr(vm, ref)
        if c is None:
            t = idx if isinstance(idx, tuple) else (idx,)
            if all(vm.is_intlike(i) for i in t) and len(t) == o.a.ndim:
                val = coerce(vm, v, o.dtype)
                ix = [smt_int(norm_index(vm, i, n)) for i, n in zip(t, o.a.shape)]
                new = o.a.copy()
                for jx in _np.ndindex(*o.a.shape):
                    cond = z3.simplify(z3.And(*[i == j for i, j in zip(ix, jx)]))
                    if z3.is_false(cond):
                        continue
                    new[jx] = val if z3.is_true(cond) else vm.merge_val(cond, val, o.a[jx])
                nd_mut(vm, ref).a = new
                return
            raise Unsupported("array index")
        val = to_nd(vm, v)
        if val is None:
            raise Unsupported("array assignment")
        vals = _np.empty(val[0].shape, dtype=object)
        for ix in _np.ndindex(*val[0].shape):
            vals[ix] = coerce(vm, val[0][ix], o.dtype)
        new = o.a.copy()
        try:
            new[c[0]] = vals if vals.shape else vals[()]
        except IndexError:
            raise PyRaise("IndexError")
        except ValueError:
            raise PyRaise("ValueError")
        nd_mut(vm, ref).a = new
        return
    # symbolic shape
    if getattr(o, "view", None) is not None:
        raise Unsupported("writing through a view")
    t = idx if isinstance(idx, tuple) else (idx,)
    old = o.get
    if len(t) <= len(o.shape) and all(vm.is_intlike(i) or isinstance(i, SliceVal) and (i.c is None or i.c == 1) for i in t):
        fix, part = [], {}
        for k, (i, n) in enumerate(zip(t, o.shape)):
            fix.append(None if isinstance(i, SliceVal) else smt_int(norm_index(vm, i, n)))
            if isinstance(i, SliceVal) and not (i.a is None and i.b is None):
                part[k] = slice_bounds(vm, i, n)
        fix += [None] * (len(o.shape) - len(t))
        free = [k for k, f in enumerate(fix) if f is None]
        first = lambda k: part[k][0] if k in part else 0
        if free:
            src = seq_nd(vm, v) if not vm.is_num(v) else SymNdObj((), lambda ix: v, dtype_of(v))
            if src is None:
                raise Unsupported("array assignment")
            dst = tuple(_sub(part[k][1], part[k][0]) if k in part else o.shape[k] for k in free)
            b = bshape(vm, dst, src.shape)
            if len(b) != len(dst) or any(x is not y and vm.known(vm._eqi(x, y)) is not True for x, y in zip(b, dst)):
                raise Unsupported("array assignment")
            src = SymNdObj(src.shape, src.get, src.dtype)      # what it holds now
            value = lambda jx: coerce(vm, bget(src, None, [_sub(jx[k], first(k)) if k in part else jx[k] for k in free]), o.dtype)
        else:
            w = coerce(vm, v, o.dtype)
            value = lambda jx: w

        def get(jx):
            cond = z3.simplify(z3.And(*[smt_int(jx[k]) == f for k, f in enumerate(fix) if f is not None] +
                                      [z3.And(smt_int(lo) <= smt_int(jx[k]), smt_int(jx[k]) < smt_int(hi)) for k, (lo, hi) in part.items()] + [True]))
            if z3.is_true(cond):
                return value(jx)
            if z3.is_false(cond):
                return old(jx)
            t2 = vm.merge_val(cond, value(jx), old(jx))
            return t2
        # arrays computed from this one keep what it held: a new object, never a change in place
        m = vm.renew(ref)
        m.get = get
        if m.writes is not None and part:
            m.writes = None
        if m.writes is not None:
            m.writes = m.writes + (("set", fix, ((), z3.BoolVal(True))),)
        return
    raise Unsupported("array assignment")


def nd_rows(vm, ref):
    """SymSeq of the first axis of a symbolic array"""
    o = vm.get(ref)
    if len(o.shape) == 1:
        return SymSeq(o.shape[0], lambda k: o.get([k]), "list")
    return SymSeq(o.shape[0], lambda k: sym(vm, o.shape[1:], lambda ix: o.get([k] + list(ix)), o.dtype), "list")


# ---------------------------------------------------------------- attributes and methods

def nd_attr(vm, ref, name):
    o = vm.get(ref)
    if name == "shape":
        return tuple(o.a.shape) if isinstance(o, NdObj) else tuple(o.shape)
    if name == "ndim":
        return o.a.ndim if isinstance(o, NdObj) else len(o.shape)
    if name == "size":
        if isinstance(o, NdObj):
            return int(o.a.size)
        r = 1
        for s in o.shape:
            r = r * s
        return r
    if name == "T":
        return transpose(vm, ref)
    if name == "real":
        return nd_map(vm, ref, lambda x: Scalar.of(x).real, "float")
    if name == "imag":
        return nd_map(vm, ref, lambda x: Scalar.of(x).imag, "float")
    if name == "dtype":
        return Lib("numpy." + o.dtype)
    return NotImplemented


def transpose(vm, ref):
    o = vm.get(ref)
    if isinstance(o, NdObj):
        return mkview(vm, ref, arr(vm, ref).T.copy())
    n = len(o.shape)
    return vm.alloc(SymNdObj(tuple(reversed(o.shape)), lambda ix: o.get(list(reversed(list(ix)))), o.dtype))


def nd_method(vm, ref, name, args, kw):
    o = vm.get(ref)
    if isinstance(o, CsrObj):
        from .sparse import sparse_method
        return sparse_method(vm, ref, o, name, args, kw)
    if name in ("conj", "conjugate"):
        return nd_map(vm, ref, lambda x: Scalar.of(x).conj() if isinstance(x, Scalar) else x)
    if name == "copy":
        if isinstance(o, NdObj):
            return mk(vm, arr(vm, ref).copy(), o.dtype)
        return vm.alloc(SymNdObj(o.shape, o.get, o.dtype))
    if name == "transpose" and not args:
        return transpose(vm, ref)
    if name in ("sum", "mean", "prod", "trace", "dot", "diagonal", "any", "all", "max", "min", "reshape", "ravel",
                "argsort", "nonzero"):
        m = vm.lib.get("numpy." + name)
        if m:
            return m(vm, [ref] + list(args), kw)
    if name == "flatten" and isinstance(o, NdObj):
        return mk(vm, arr(vm, ref).reshape(-1).copy(), o.dtype)
    if name == "tolist" and isinstance(o, NdObj):
        def lst(a):
            if not isinstance(a, _np.ndarray):
                return a
            return vm.alloc(ListObj([lst(x) for x in a]))
        return lst(arr(vm, ref))
    if name == "fill":
        if isinstance(o, NdObj):
            v = coerce(vm, args[0], o.dtype)
            m = nd_mut(vm, ref)
            a = _np.empty(m.a.shape, dtype=object)
            for ix in _np.ndindex(*a.shape):
                a[ix] = v
            m.a = a
            return None
    if name == "item" and isinstance(o, NdObj) and o.a.size == 1:
        return arr(vm, ref).reshape(-1)[0]
    if name == "tofile" and getattr(vm, "output_log", None) is not None:
        log_output(vm, "tofile", args[0], ref)
        return None
    if name == "astype":
        dt = dtype_arg(args[0])
        return nd_map(vm, ref, lambda x: coerce(vm, x, dt), dt)
    raise Unsupported("array method %s" % name)


# ---------------------------------------------------------------- numpy functions

def _shape_arg(vm, v):
    if vm.is_intlike(v):
        return (vm.as_int(v),)
    if isinstance(v, tuple):
        return tuple(vm.as_int(x) for x in v)
    items = vm.concrete_items(v)
    if items is None:
        raise Unsupported("shape")
    return tuple(vm.as_int(x) for _, x in items)


def _filled(vm, shape, v, dt):
    for s in shape:
        if isinstance(s, int) and s < 0:
            raise PyRaise("ValueError")
        if not isinstance(s, int) and vm.known(s >= 0) is not True:
            if not vm.decide(s >= 0):
                raise PyRaise("ValueError")
    return sym(vm, shape, lambda ix: v, dt)


@lib("numpy.zeros", "numpy.ones", "numpy.full")
def _zeros(vm, a, k):
    raise Unsupported("overridden")


def _mkfill(name):
    def f(vm, a, k):
        a = list(a)
        shape = _shape_arg(vm, a[0] if a else k["shape"])
        if name == "full":
            v = a[1] if len(a) > 1 else k["fill_value"]
            dt = a[2] if len(a) > 2 else k.get("dtype")
            dt = dtype_of(v) if dt is None else dtype_arg(dt)
            return _filled(vm, shape, coerce(vm, v, dt), dt)
        dt = dtype_arg(a[1] if len(a) > 1 else k.get("dtype"))
        c = 0 if name == "zeros" else 1
        v = bool(c) if dt == "bool" else c if dt in ("int", "object") else Scalar.of(c)
        return _filled(vm, shape, v, dt)
    return f


for _n in ("zeros", "ones", "full"):
    lib("numpy." + _n)(_mkfill(_n))


@lib("numpy.zeros_like", "numpy.ones_like", "numpy.empty_like")
def _zeros_like(vm, a, k):
    o = seq_nd(vm, a[0])
    if o is None:
        raise Unsupported("zeros_like")
    dt = dtype_arg(k["dtype"]) if k.get("dtype") is not None else o.dtype
    return _filled(vm, o.shape, 0 if dt == "int" else sc.SZERO, dt)


@lib("numpy.eye", "numpy.identity")
def _eye(vm, a, k):
    n = vm.as_int(a[0])
    if not isinstance(n, int) or len(a) > 1:
        raise Unsupported("eye")
    dt = dtype_arg(k.get("dtype"))
    m = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m[i, j] = (int(i == j)) if dt == "int" else Scalar.of(int(i == j))
    return mk(vm, m, dt)


@lib("numpy.array", "numpy.asarray")
def _array(vm, a, k):
    v = a[0]
    dt = a[1] if len(a) > 1 else k.get("dtype")
    c = to_nd(vm, v)
    if c is not None:
        d = c[1] if dt is None else dtype_arg(dt)
        out = _np.empty(c[0].shape, dtype=object)
        for ix in _np.ndindex(*c[0].shape):
            out[ix] = coerce(vm, c[0][ix], d) if d != "object" else c[0][ix]
        return mk(vm, out, d)
    o = seq_nd(vm, v)
    if o is None:
        raise Unsupported("array of symbolic structure")
    d = o.dtype if dt is None else dtype_arg(dt)
    return vm.alloc(SymNdObj(o.shape, (lambda ix: coerce(vm, o.get(ix), d)), d))


@lib("numpy.shape")
def _shape(vm, a, k):
    if isinstance(a[0], Ref) and isinstance(vm.get(a[0]), (NdObj, SymNdObj)):
        return nd_attr(vm, a[0], "shape")
    if to_nd(vm, a[0]) is None:
        o = seq_nd(vm, a[0])
        if o is not None:
            return tuple(o.shape)
    return tuple(need(vm, a[0])[0].shape)


@lib("numpy.size")
def _size(vm, a, k):
    return nd_attr(vm, a[0], "size")


@lib("numpy.conj", "numpy.conjugate")
def _conj(vm, a, k):
    if vm.is_num(a[0]):
        return Scalar.of(a[0]).conj() if isinstance(a[0], Scalar) else a[0]
    return nd_map(vm, a[0], lambda x: Scalar.of(x).conj() if isinstance(x, Scalar) else x)


@lib("numpy.real", "numpy.imag")
def _real(vm, a, k):
    raise Unsupported("overridden")


def _mkri(name):
    def f(vm, a, k):
        g = (lambda x: Scalar.of(x).real) if name == "real" else (lambda x: Scalar.of(x).imag)
        if vm.is_num(a[0]):
            return g(a[0])
        return nd_map(vm, a[0], g, "float")
    return f


for _n in ("real", "imag"):
    lib("numpy." + _n)(_mkri(_n))


@lib("numpy.exp", "math.exp", "cmath.exp")
def _exp(vm, a, k):
    if vm.is_num(a[0]):
        return sc.exp(Scalar.of(a[0]))
    return nd_map(vm, a[0], lambda x: sc.exp(Scalar.of(x)), lambda d: d if d in ("float", "complex") else "float")


@lib("numpy.transpose")
def _transpose(vm, a, k):
    if len(a) == 1 and isinstance(a[0], Ref) and isinstance(vm.get(a[0]), (NdObj, SymNdObj)):
        return transpose(vm, a[0])
    if len(a) == 1 and not k:
        return transpose(vm, stacked(vm, a[0]))
    raise Unsupported("transpose")


def stacked(vm, v):
    return vm.lib["numpy.array"](vm, [v], {})


@lib("numpy.column_stack", "numpy.vstack", "numpy.stack")
def _stack(vm, a, k):
    raise Unsupported("overridden")


def _mkstack(name):
    def f(vm, a, k):
        if name == "stack" and k.pop("axis", 0) != 0 or k or len(a) != 1:
            raise Unsupported(name)
        r = stacked(vm, a[0])
        if name != "stack" and len(vm.get(r).shape if isinstance(vm.get(r), SymNdObj) else arr(vm, r).shape) != 2:
            raise Unsupported(name)
        return transpose(vm, r) if name == "column_stack" else r
    return f


for _n in ("column_stack", "vstack", "stack"):
    lib("numpy." + _n)(_mkstack(_n))


@lib("numpy.fill_diagonal")
def _fill_diagonal(vm, a, k):
    o = vm.get(a[0])
    if not isinstance(o, NdObj) or o.a.ndim != 2:
        raise Unsupported("fill_diagonal")
    v, _ = need(vm, a[1])
    m = min(o.a.shape)
    flat = v.reshape(-1)
    new = o.a.copy()
    for i in range(m):
        if o.a.shape[0] > o.a.shape[1] and (k or len(a) > 2):
            raise Unsupported("fill_diagonal wrap")
        new[i, i] = coerce(vm, flat[i % len(flat)], o.dtype)
    nd_mut(vm, a[0]).a = new
    return None


def dot(vm, x, y):
    cx, cy = to_nd(vm, x), to_nd(vm, y)
    if cx is not None and cy is not None:
        a, b = cx[0], cy[0]
        if a.shape == () or b.shape == ():
            return nd_binop(vm, ast.Mult(), x, y)
        sb = b.reshape(b.shape[0], -1) if b.ndim <= 2 else None
        if sb is None or a.ndim > 2:
            raise Unsupported("dot of higher rank")
        sa = a.reshape(-1, a.shape[-1]) if a.ndim == 2 else a.reshape(1, -1)
        if sa.shape[1] != sb.shape[0]:
            raise PyRaise("ValueError")
        out = _np.empty((sa.shape[0], sb.shape[1]), dtype=object)
        for i in range(sa.shape[0]):
            for j in range(sb.shape[1]):
                t = sc.SZERO
                for m in range(sa.shape[1]):
                    t = t + Scalar.of(sa[i, m]) * Scalar.of(sb[m, j])
                out[i, j] = t
        if a.ndim == 1:
            out = out[0]
        if b.ndim == 1:
            out = out[..., 0]
        return wrap(vm, out, join_dtype(join_dtype(cx[1], cy[1]), "float"))
    ox, oy = seq_nd(vm, x), seq_nd(vm, y)
    if ox is None or oy is None:
        raise Unsupported("dot")
    if not ox.shape or not oy.shape or len(ox.shape) > 2 or len(oy.shape) > 2:
        raise Unsupported("dot")
    n, m = ox.shape[-1], oy.shape[0]
    if vm.known(vm._eqi(n, m)) is not True:
        raise Unsupported("dot of unrelated lengths")
    b = smt.fresh_int("s")

    def get(ix):
        ix = list(ix)
        li = ix[:len(ox.shape) - 1]
        ri = ix[len(ox.shape) - 1:]
        t = Scalar.of(ox.get(li + [b])) * Scalar.of(oy.get([b] + ri)) * sc.ind(z3.And(0 <= b, b < smt_int(n)))
        return sc.Sum(b, t)
    shape = tuple(ox.shape[:-1]) + tuple(oy.shape[1:])
    dt = join_dtype(ox.dtype, oy.dtype)
    if not shape:
        return get([])
    return sym(vm, shape, get, dt)


@lib("numpy.dot", "numpy.matmul")
def _dot(vm, a, k):
    return dot(vm, a[0], a[1])


@lib("numpy.vdot")
def _vdot(vm, a, k):
    return dot(vm, _conj(vm, [a[0]], {}), a[1])


@lib("numpy.outer")
def _outer(vm, a, k):
    x, y = need(vm, a[0])[0].reshape(-1), need(vm, a[1])[0].reshape(-1)
    out = _np.empty((len(x), len(y)), dtype=object)
    for i in range(len(x)):
        for j in range(len(y)):
            out[i, j] = binop(vm, ast.Mult(), x[i], y[j])
    return mk(vm, out, "complex")


def add_all(vm, xs):
    r = 0
    for x in xs:
        r = binop(vm, ast.Add(), r, x)
    return r


@lib("numpy.sum")
def _sum(vm, a, k):
    v = a[0]
    axis = a[1] if len(a) > 1 else k.get("axis")
    c = to_nd(vm, v)
    if c is not None:
        x = c[0]
        if axis is None:
            return add_all(vm, [_b2i(y) for y in x.reshape(-1)])
        if not isinstance(axis, int):
            raise Unsupported("axis")
        x = _np.moveaxis(x, axis, 0)
        out = _np.empty(x.shape[1:], dtype=object)
        for ix in _np.ndindex(*out.shape):
            out[ix] = add_all(vm, [_b2i(x[(m,) + ix]) for m in range(x.shape[0])])
        return wrap(vm, out, c[1])
    if isinstance(v, Ref) and isinstance(vm.get(v), ListObj) and isinstance(vm.get(v).base, SymComp):
        return vm.lib["builtins.sum"](vm, [v], {})
    o = seq_nd(vm, v)
    if o is None:
        from .loops import sum_collection
        return sum_collection(vm, v, 0)
    if axis is None:
        axes = list(range(len(o.shape)))
    elif isinstance(axis, (int, tuple)):
        axes = [x if x >= 0 else x + len(o.shape) for x in (axis if isinstance(axis, tuple) else (axis,))]
    else:
        raise Unsupported("axis")
    if set(k) - {"axis"}:
        raise Unsupported("sum with %s" % sorted(k))
    keep = [i for i in range(len(o.shape)) if i not in axes]
    bs = {i: smt.fresh_int("s") for i in axes}

    def get(ix):
        jx = []
        it = iter(list(ix))
        for i in range(len(o.shape)):
            jx.append(bs[i] if i in bs else next(it))
        few = [i for i in axes if isinstance(o.shape[i], int) and o.shape[i] <= 64]
        t = sc.SZERO
        for vals in _np.ndindex(*[o.shape[i] for i in few]):
            for i, x in zip(few, vals):
                jx[i] = x
            t = t + Scalar.of(o.get(list(jx)))
        for i in axes:
            if i in few:
                continue
            t = t * sc.ind(z3.And(0 <= bs[i], bs[i] < smt_int(o.shape[i])))
            t = sc.Sum(bs[i], t)
        return t
    if not keep:
        return get([])
    return sym(vm, tuple(o.shape[i] for i in keep), get, o.dtype)


def _b2i(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


@lib("numpy.mean")
def _mean(vm, a, k):
    if len(a) > 1 or k:
        raise Unsupported("mean with axis")
    n = vm.as_int(nd_attr(vm, a[0], "size")) if isinstance(a[0], Ref) and isinstance(vm.get(a[0]), (NdObj, SymNdObj)) \
        else vm.vlen(a[0])
    return binop(vm, ast.Div(), _sum(vm, a, k), n)


@lib("numpy.trace")
def _trace(vm, a, k):
    x, _ = need(vm, a[0])
    return add_all(vm, [x[i, i] for i in range(min(x.shape))])


@lib("numpy.diag", "numpy.diagonal")
def _diag(vm, a, k):
    x, dt = need(vm, a[0])
    off = a[1] if len(a) > 1 else k.get("k", k.get("offset", 0))
    if x.ndim == 2:
        r, c = x.shape
        d = [x[i, i + off] for i in range(r) if 0 <= i + off < c]
        return mk(vm, _objarr(d), dt)
    n = len(x) + abs(off)
    m = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m[i, j] = 0 if dt == "int" else sc.SZERO
    for i, v in enumerate(x):
        m[(i, i + off) if off >= 0 else (i - off, i)] = v
    return mk(vm, m, dt)


@lib("numpy.arange")
def _arange(vm, a, k):
    if all(isinstance(x, int) for x in a):
        return mk(vm, _objarr(list(range(*a))), "int")
    raise Unsupported("arange")


@lib("numpy.reshape", "numpy.ravel")
def _reshape(vm, a, k):
    x, dt = need(vm, a[0])
    if len(a) == 1:
        return mkview(vm, a[0], x.reshape(-1).copy())
    shp = _shape_arg(vm, a[1] if len(a) == 2 else tuple(a[1:]))
    return mk(vm, x.reshape(shp).copy(), dt)


@lib("numpy.concatenate", "numpy.hstack", "numpy.append")
def _concat(vm, a, k):
    if k or len(a) > 2:
        raise Unsupported("concatenate")
    parts = [need(vm, x) for x in (a if len(a) == 2 else [y for _, y in vm.concrete_items(a[0])])]
    if any(p[0].ndim > 1 for p in parts):
        raise Unsupported("concatenate")
    dt = parts[0][1]
    for p in parts[1:]:
        dt = join_dtype(dt, p[1])
    out = []
    for p in parts:
        out += list(p[0].reshape(-1))
    return mk(vm, _objarr(out), dt)


@lib("numpy.cumsum")
def _cumsum(vm, a, k):
    x, dt = need(vm, a[0])
    out, r = [], 0
    for v in x.reshape(-1):
        r = binop(vm, ast.Add(), r, v)
        out.append(r)
    return mk(vm, _objarr(out), dt)


@lib("numpy.maximum", "numpy.minimum")
def _maximum(vm, a, k):
    raise Unsupported("maximum")


@lib("numpy.min", "numpy.amin")
def _npmin(vm, a, k):
    return _extremum(vm, a[0], True)


@lib("numpy.max", "numpy.amax")
def _npmax(vm, a, k):
    return _extremum(vm, a[0], False)


def _extremum(vm, v, is_min):
    c = to_nd(vm, v)
    if c is not None:
        from .libs import _minmax
        if c[0].size == 0:
            raise PyRaise("ValueError")
        return _minmax(vm, list(c[0].reshape(-1)) if c[0].size > 1 else [tuple(c[0].reshape(-1))], {}, is_min)
    o = seq_nd(vm, v)
    if o is None or len(o.shape) != 1:
        raise Unsupported("min/max")
    # a bound that is attained: fresh value with the element facts available on demand
    w = smt.fresh_int("arg")
    vm.assume(z3.And(w >= 0, w < smt_int(o.shape[0])))
    r = o.get([w])
    if not hasattr(vm, "extrema"):
        vm.extrema = []
    vm.extrema.append((o, r, is_min))
    return r


@lib("numpy.linalg.norm")
def _norm(vm, a, k):
    c = to_nd(vm, a[0])
    if k or len(a) > 1:
        raise Unsupported("norm")
    if c is not None:
        t = sc.SZERO
        for x in c[0].reshape(-1):
            x = Scalar.of(x)
            t = t + x * x.conj()
        return sc.sqrt(t)
    o = seq_nd(vm, a[0])
    if o is None or len(o.shape) != 1:
        raise Unsupported("norm")
    b = smt.fresh_int("s")
    x = Scalar.of(o.get([b]))
    return sc.sqrt(sc.Sum(b, x * x.conj() * sc.ind(z3.And(0 <= b, b < smt_int(o.shape[0])))))


@lib("numpy.all", "numpy.any")
def _npall(vm, a, k):
    raise Unsupported("all/any")


def _mkallany(is_all):
    def f(vm, a, k):
        x, _ = need(vm, a[0])
        if k or len(a) > 1:
            raise Unsupported("all/any axis")
        cs = [sc.as_z3(vm.truth(y)) for y in x.reshape(-1)]
        r = z3.simplify(z3.And(*cs) if is_all else z3.Or(*cs)) if cs else z3.BoolVal(is_all)
        return True if z3.is_true(r) else False if z3.is_false(r) else r
    return f


lib("numpy.all")(_mkallany(True))
lib("numpy.any")(_mkallany(False))


CONSTS["numpy.newaxis"] = lambda vm: None


# ---------------------------------------------------------------- output

def log_output(vm, kind, name, data):
    """a contract's list of what has been written, with the values at that moment"""
    if not isinstance(name, str):
        raise Unsupported("name of the output")
    o = seq_nd(vm, data)
    if o is None:
        raise Unsupported("output of %r" % (data,))
    vm.mut(vm.output_log).items.append(Written(kind, name, SymNdObj(o.shape, o.get, o.dtype)))


class Written(Opaque):
    def __init__(self, kind, name, data):
        Opaque.__init__(self, "output")
        self.kind, self.name, self.data = kind, name, data


@lib("numpy.savetxt")
def _savetxt(vm, a, k):
    if getattr(vm, "output_log", None) is None or len(a) != 2 or set(k) - {"fmt", "header"}:
        raise Unsupported("savetxt")
    log_output(vm, "savetxt", a[0], a[1])


class H5File(Opaque):
    def __init__(self):
        Opaque.__init__(self, "h5 file")

    def method_model(self, vm, name, args, kw):
        if name == "create_dataset" and len(args) == 1 and set(kw) == {"data"}:
            log_output(vm, "h5", args[0], kw["data"])
            return Opaque("dataset")
        if name in ("close", "flush"):
            return None
        raise Unsupported("h5 file method %s" % name)
