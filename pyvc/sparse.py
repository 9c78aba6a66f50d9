"""Contracts of scipy.sparse matrices built from (data, (row, column)) lists, and of MPI broadcasts.

An entry of such a matrix is the sum of the data with that row and column (duplicates are added)."""
import ast
import z3

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .values import *
from .libs import lib
from .nd import SymNdObj, NdObj, seq_nd, smt_int


def parts_of(vm, v):
    """[(ident, binders, condition, element, facts)] of a list built by loops, or None"""
    from .loops import Bag
    if isinstance(v, Ref) and isinstance(vm.get(v), ListObj):
        o = vm.get(v)
        base = o.base
        ps = [] if base is None else base.parts if isinstance(base, Bag) else [base]
        out = []
        for p in ps:
            if type(p).__name__ == "PosTuple" or not isinstance(p, (SymComp, SymSeq)) or type(p).__name__ == "HavocList":
                raise Unsupported("sparse matrix of such a list")
            if isinstance(p, SymComp):
                out.append((p.ident, p.binders, sc.as_z3(p.cond), p.elem, p.facts))
            else:
                k = smt.fresh_int("k")
                out.append((("seq", str(smt_int(p.length))), [k], z3.And(0 <= k, k < smt_int(p.length)), p.get(k),
                            (lambda zs, p=p: p.facts(zs[0])) if p.facts else None))
        for j, x in enumerate(o.items):
            out.append((("item", j), [], z3.BoolVal(True), x, None))
        return out
    if isinstance(v, SymSeq):
        k = smt.fresh_int("k")
        return [(("seq", str(smt_int(v.length))), [k], z3.And(0 <= k, k < smt_int(v.length)), v.get(k), (lambda zs: v.facts(zs[0])) if v.facts else None)]
    if isinstance(v, tuple):
        return [(("item", j), [], z3.BoolVal(True), x, None) for j, x in enumerate(v)]
    return None


def triplets(vm, data, row, col):
    ps = [parts_of(vm, x) for x in (data, row, col)]
    if any(p is None for p in ps) or len({len(p) for p in ps}) != 1:
        raise Unsupported("sparse matrix from other data")
    out = []
    for d, r, c in zip(*ps):
        vals = [d[3]]
        for o in (r, c):
            if o[0] != d[0] or len(o[1]) != len(d[1]) or any(x.sort() != y.sort() for x, y in zip(o[1], d[1])):
                raise Unsupported("row, column and data lists of different structure")
            pr = list(zip(o[1], d[1]))
            c2 = z3.simplify(z3.substitute(o[2], *pr)) if pr else o[2]
            if not c2.eq(z3.simplify(d[2])) and vm.known(c2 == d[2]) is not True:
                raise Unsupported("row, column and data lists of different length")
            from .loops import subst_val
            vals.append(subst_val(vm, o[3], pr))
        fs = d[4](d[1]) if d[4] else []
        out.append((d[1], d[2], vals[0], smt_int(vals[1]), smt_int(vals[2]), fs))
    return out


def _csr(vm, a, k):
    shape = k.get("shape", a[1] if len(a) > 1 else None)
    if set(k) - {"shape", "dtype"} or len(a) > 2:
        raise Unsupported("options of a sparse matrix")
    src = a[0] if a else k.get("arg1")
    if isinstance(src, tuple) and len(src) == 2 and isinstance(src[1], tuple) and len(src[1]) == 2:
        if shape is None:
            raise Unsupported("sparse matrix without shape")
        n, m = [smt_int(x) for x in shape]
        ts = triplets(vm, src[0], src[1][0], src[1][1])
        for bs, c, d, r, q, fs in ts:
            if smt.entails(vm.asms() + [c] + list(fs), z3.And(0 <= r, r < n, 0 <= q, q < m)) is not True:
                raise Unsupported("indices of a sparse matrix")

        def get(ix):
            i, j = smt_int(ix[0]), smt_int(ix[1])
            t = sc.SZERO
            for bs, c, d, r, q, fs in ts:
                x = sc.ind(z3.And(c, r == i, q == j)) * Scalar.of(vm.as_scalar(d))
                for b in reversed(bs):
                    x = sc.Sum(b, x)
                t = t + x
            return t
        return vm.alloc(CsrObj((shape[0], shape[1]), get, "complex"))
    if isinstance(src, tuple) and len(src) == 2 and all(vm.is_intlike(x) for x in src):
        return vm.alloc(CsrObj(src, lambda ix: sc.SZERO, "complex"))
    o = seq_nd(vm, src) if isinstance(src, Ref) else None
    if o is not None and len(o.shape) == 2:
        return vm.alloc(CsrObj(o.shape, o.get, o.dtype))
    raise Unsupported("sparse matrix from other data")


for _n in ("csr_matrix", "coo_matrix", "csc_matrix"):
    lib("scipy.sparse." + _n)(_csr)


def sparse_binop(vm, op, a, b, sp):
    if all(sp) and isinstance(op, (ast.Add, ast.Sub)):
        x, y = vm.get(a), vm.get(b)
        for p, q in zip(x.shape, y.shape):
            if vm.known(smt_int(p) == smt_int(q)) is not True:
                raise Unsupported("shapes of sparse matrices")
        xg, yg = x.get, y.get
        f = (lambda u, v: u + v) if isinstance(op, ast.Add) else (lambda u, v: u - v)
        return vm.alloc(CsrObj(x.shape, lambda ix: f(Scalar.of(xg(ix)), Scalar.of(yg(ix))), "complex"))
    s, o = (a, b) if sp[0] else (b, a)
    if not all(sp) and isinstance(op, ast.Mult) and vm.is_num(o):
        x = vm.get(s)
        return vm.alloc(CsrObj(x.shape, lambda ix, xg=x.get: Scalar.of(xg(ix)) * Scalar.of(vm.as_scalar(o)), "complex"))
    raise Unsupported("operation on sparse matrices")


def sparse_method(vm, ref, o, name, args, kw):
    if name in ("todense", "toarray", "A") and not args:
        return vm.alloc(SymNdObj(o.shape, o.get, o.dtype))
    if name in ("tocsr", "tocsc", "tocoo", "copy") and not args:
        return vm.alloc(CsrObj(o.shape, o.get, o.dtype))
    if name == "dot" and len(args) == 1:
        from .nd import dot
        if isinstance(args[0], Ref) and isinstance(vm.get(args[0]), CsrObj):
            raise Unsupported("product of sparse matrices")
        return dot(vm, vm.alloc(SymNdObj(o.shape, o.get, o.dtype)), args[0])
    if name in ("getH",) and not args or name in ("conj", "conjugate", "transpose"):
        get = o.get
        if name in ("conj", "conjugate", "getH"):
            g0 = get
            get = lambda ix: Scalar.of(g0(ix)).conj()
        sh = o.shape
        if name in ("transpose", "getH"):
            g1, sh = get, o.shape[::-1]
            get = lambda ix: g1((ix[1], ix[0]))
        return vm.alloc(CsrObj(sh, get, o.dtype))
    raise Unsupported("method %s of a sparse matrix" % name)


# ---------------------------------------------------------------- broadcasts

def _consts(vm, v, out, depth=0):
    """free constants of a value"""
    if depth > 6:
        raise Unsupported("deep message")
    if isinstance(v, Scalar):
        for (g, m) in v.t:
            for i in g:
                out |= {str(c) for c in sc.free_consts(sc.LITS[i])}
            for i, e in m:
                _atom_consts(vm, sc.ATOMS[i], out, depth)
    elif isinstance(v, z3.ExprRef):
        out |= {str(c) for c in sc.free_consts(v)}
    elif isinstance(v, (tuple, list)):
        for x in v:
            _consts(vm, x, out, depth + 1)
    elif v is None or isinstance(v, (bool, int, str, Opaque)):
        pass
    elif isinstance(v, SymComp):
        _consts(vm, sc.as_z3(v.cond), out, depth + 1)
        _consts(vm, v.elem, out, depth + 1)
    elif isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, MapObj):
            q = smt.fresh(o.keys.sort, "q")
            _consts(vm, sc.as_z3(o.dom(q)), out, depth + 1)
            snap = vm.save()
            for p in vm.explore(lambda: (vm.assume(sc.as_z3(o.dom(q)), "d"), o.val(q))[1]):
                vm.restore(p.snap)
                if p.kind != "ok":
                    raise Unsupported("message")
                _consts(vm, p.value, out, depth + 1)
                vm.restore(snap)
        elif isinstance(o, DictObj):
            for pr, kk, x in o.d.values():
                if not isinstance(pr, bool):
                    _consts(vm, pr, out, depth + 1)
                _consts(vm, kk, out, depth + 1)
                _consts(vm, x, out, depth + 1)
        elif isinstance(o, ListObj):
            for x in o.items + ([] if o.base is None else [o.base]):
                _consts(vm, x, out, depth + 1)
        elif isinstance(o, SymNdObj):
            _consts(vm, o.get(tuple(smt.fresh_int("i") for _ in o.shape)), out, depth + 1)
        elif isinstance(o, NdObj):
            for x in o.a.reshape(-1):
                _consts(vm, x, out, depth + 1)
        else:
            raise Unsupported("message of type %s" % type(o).__name__)
    elif isinstance(v, SymSeq):
        _consts(vm, smt_int(v.length), out, depth + 1)
        _consts(vm, v.get(smt.fresh_int("k")), out, depth + 1)
    else:
        raise Unsupported("message %r" % (v,))


def _atom_consts(vm, a, out, depth):
    b = a.data if a.kind == "conj" else a
    if b.kind == "app":
        for x in b.data[1]:
            _consts(vm, x, out, depth + 1)
    elif b.kind == "sum":
        _consts(vm, b.data[2], out, depth + 1)
    elif b.kind == "par":
        pass
    else:
        for x in (b.data if isinstance(b.data, tuple) else (b.data,)):
            if isinstance(x, (Scalar, z3.ExprRef, tuple)):
                _consts(vm, x, out, depth + 1)


def bcast(vm, a, k):
    """the value the root holds.  Every rank runs the same code on the same arguments, so it is the value held here with
    the rank number replaced; refused when that does not describe the other ranks (branches on the rank number, values
    introduced by facts about it)"""
    from .loops import subst_val
    x = a[0]
    root = k.get("root", a[1] if len(a) > 1 else 0)
    rank = getattr(vm, "rank", None)
    if rank is None:
        return x
    root = smt_int(root)
    dep = {str(rank)}
    facts = [e for e, kind in vm.pc]
    for e, kind in vm.pc:
        if kind == "d" and str(rank) in {str(c) for c in sc.free_consts(e)}:
            raise Unsupported("message sent under a condition on the rank: %s" % str(e)[:100])
    ok = {str(vm.ranks)} | getattr(vm, "rank_free", set())
    born = int(str(rank).split("!")[-1])

    def later(c):
        e = c.split("!")[-1]
        return e.isdigit() and int(e) > born       # introduced after the rank number; anything else is an input
    changed = True
    while changed:
        changed = False
        for e in facts:
            cs = {str(c) for c in sc.free_consts(e)}
            if cs & dep:
                new = {c for c in cs if c not in dep and c not in ok and later(c)}
                if new:
                    dep |= new
                    changed = True
    mine = set()
    _consts(vm, x, mine)
    if (mine & dep) - {str(rank)}:
        raise Unsupported("message depends on values that differ between ranks: %s" % sorted((mine & dep) - {str(rank)})[:3])
    if str(rank) not in mine:
        return x
    return subst_val(vm, x, [(rank, root)])


lib("mpi4py.MPI.COMM_WORLD.bcast")(bcast)
