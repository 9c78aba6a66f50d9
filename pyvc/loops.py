"""Loops over symbolic collections: the body is executed once for a generic element with all loop-carried
state havocked; the effect of the whole loop is assembled from the effect of the generic iteration."""
import z3
import numpy as _np

from . import smt
from . import scalar as sc
from . import preds
from .scalar import Scalar
from .values import *
from .interp import (force, PyRaise, ReturnSig, BreakSig, ContinueSig, Infeasible, NOMERGE, smt_int, empty_map,
                     Vm, _ite)

HV = "hv!"


class Coll:
    """binders(): fresh binder constants; guard(xs), elem(xs), facts(xs)"""

    def __init__(self, sorts, guard, elem, facts=None, ordered=None, keyset=None, prior=None, length=None, tag=None):
        self.sorts, self.guard, self.elem = sorts, guard, elem
        self.facts = facts or (lambda xs: [])
        self.ordered, self.keyset, self.prior, self.length, self.tag = ordered, keyset, prior, length, tag

    def fresh(self):
        return [smt.fresh(s, "x") for s in self.sorts]


def seq_coll(vm, s):
    n = smt_int(s.length)
    return Coll([z3.IntSort()], lambda xs: z3.And(0 <= xs[0], xs[0] < n), lambda xs: s.get(xs[0]),
                (lambda xs: s.facts(xs[0])) if s.facts else None, ordered=s,
                prior=lambda ys, xs: ys[0] < xs[0], length=n, tag=s.tag)


def collection(vm, it):
    if isinstance(it, Coll):
        return it
    if hasattr(it, "collection_model"):
        return it.collection_model(vm)
    from .libs import DictView, BitChar, BitNum, list_seq, as_seq
    if isinstance(it, SymSeq):
        return seq_coll(vm, it)
    if isinstance(it, (tuple, range, str)):
        return seq_coll(vm, as_seq(vm, it))
    if isinstance(it, BStr):
        b = it.bits
        return seq_coll(vm, SymSeq(b.length, lambda k: BitChar(b.bit(k)), "str"))
    if isinstance(it, PosTuple):
        if len(it.parts) == 1 and it.parts[0][0] == "set":
            _, a, n, lo, hi = it.parts[0]
            def guard(xs):
                p = xs[0]
                r = smt.PC(a, p)
                return z3.simplify(z3.And(0 <= p, p < smt_int(n), z3.Select(a, p), lo <= r, r < hi))
            full = vm.known(z3.And(lo == 0, hi == smt.PC(a, smt_int(n)))) is True
            if full:
                guard = lambda xs: z3.And(0 <= xs[0], xs[0] < smt_int(n), z3.Select(a, xs[0]))
            return Coll([z3.IntSort()], guard, lambda xs: xs[0], prior=lambda ys, xs: ys[0] < xs[0], tag=("pos", a, n))
        raise Unsupported("iteration over a composed tuple")
    if isinstance(it, SymComp):
        bs = list(it.binders)
        def sub(v, xs):
            return subst_val(vm, v, list(zip(bs, xs)))
        return Coll([b.sort() for b in bs], lambda xs: z3.substitute(sc.as_z3(it.cond), *zip(bs, xs)),
                    lambda xs: sub(it.elem, xs), it.facts,
                    prior=(lambda ys, xs: _lex(ys, xs)) if all(b.sort() == z3.IntSort() for b in bs) else None)
    if isinstance(it, DictView):
        o = vm.get(it.ref)
        if isinstance(o, MapObj):
            w = it.what
            ref_o = o
            def elem(xs):
                k = xs[0]
                if w == "keys":
                    return o.keys.wrap(vm, k)
                v = ref_o.val(k)
                return v if w == "values" else (o.keys.wrap(vm, k), v)
            return map_coll(vm, o, elem)
        if hasattr(o, "view_coll"):
            return o.view_coll(vm, it.ref, it.what)
        items = it.concrete_items(vm)
        if items is not None and all(p is True for p, _ in items):
            return seq_coll(vm, as_seq(vm, tuple(v for _, v in items)))
    if isinstance(it, Ref):
        o = vm.get(it)
        if isinstance(o, MapObj):
            return map_coll(vm, o, lambda xs: o.keys.wrap(vm, xs[0]))
        if isinstance(o, SymSetObj):
            return map_coll(vm, o, lambda xs: o.keys.wrap(vm, xs[0]))
        if isinstance(o, ListObj):
            if isinstance(o.base, (SymComp, PosTuple)) and not o.items:
                return collection(vm, o.base)
            if o.base is not None and not isinstance(o.base, SymSeq) and hasattr(o.base, "collection_model"):
                if not o.items:
                    return o.base.collection_model(vm)
                raise Unsupported("list structure")
            return seq_coll(vm, list_seq(vm, o))
        if isinstance(o, BitArrObj):
            b = o.bits
            return seq_coll(vm, SymSeq(b.length, lambda k: BitNum(b.bit(k)), "list"))
        if hasattr(o, "collection_obj"):
            return o.collection_obj(vm, it)
        if isinstance(o, PyObj) and o.cls == "iter":
            return seq_coll(vm, as_seq(vm, tuple(o.fields["items"])))
        if isinstance(o, SymNdObj):
            from .nd import nd_rows
            return seq_coll(vm, nd_rows(vm, it))
    raise Unsupported("iteration over %r" % (it,))


def _lex(ys, xs):
    r = z3.BoolVal(False)
    for y, x in reversed(list(zip(ys, xs))):
        r = z3.Or(y < x, z3.And(y == x, r))
    return r


def map_coll(vm, o, elem):
    def facts(xs):
        out = [f for f in o.keys.valid(vm, xs[0])]
        for f in o.facts:
            y = f(xs[0])
            if y is not None:
                out.append(y)
        return out
    return Coll([o.keys.sort], lambda xs: sc.as_z3(o.dom(xs[0])), elem, facts, keyset=(o.keys, o.dom), length=None)


# ---------------------------------------------------------------- substitution in values

def subst_val(vm, v, pairs):
    if not pairs or v is None or isinstance(v, (bool, int, str, bytes, Lib, Func, Opaque, Poison, RepoModule)):
        return v
    if isinstance(v, Scalar):
        return sc.subst(v, pairs)
    if isinstance(v, z3.ExprRef):
        return z3.simplify(z3.substitute(v, *pairs))
    if isinstance(v, tuple):
        return tuple(subst_val(vm, x, pairs) for x in v)
    if isinstance(v, Bits):
        return Bits([(_zs(a, pairs), _zs(o, pairs), _zs(n, pairs)) for a, o, n in v.p])
    if isinstance(v, (BStr, BBytes, BInt)):
        return type(v)(subst_val(vm, v.bits, pairs))
    if isinstance(v, PosTuple):
        return PosTuple([(p[0],) + tuple(_zs(x, pairs) for x in p[1:]) for p in v.parts], v.kind)
    if isinstance(v, SymSeq):
        def get(k):
            y = smt.fresh_int("sq")
            return subst_val(vm, v.get(y), list(pairs) + [(y, k)])
        def facts(k):
            y = smt.fresh_int("sq")
            return [z3.substitute(f, *(list(pairs) + [(y, k)])) for f in v.facts(y)]
        return SymSeq(_zs(v.length, pairs), get, v.kind, None, facts if v.facts else None)
    if isinstance(v, SymComp):
        return subst_comp(vm, v, pairs)
    if hasattr(v, "subst_model"):
        return v.subst_model(vm, pairs)
    if isinstance(v, Ref):
        o = vm.get(v)
        return vm.alloc(subst_obj(vm, o, pairs))
    raise Unsupported("substitution in %r" % (v,))


def _zs(x, pairs):
    return z3.simplify(z3.substitute(x, *pairs)) if smt.is_z3(x) else x


def isolated(vm, thunk, pairs):
    """value of thunk with substituted names: computed under the assumptions that do not mention these names"""
    snap = vm.save()
    ks = [a for a, _ in pairs]
    vm.pc = [(e, k) for e, k in vm.pc if not any(sc.occurs(a, e) for a in ks)]
    try:
        paths = vm.explore(thunk)
    finally:
        vm.restore(snap)
    if any(p.kind != "ok" for p in paths) or not paths:
        raise Unsupported("value of an entry")
    conds = [z3.simplify(z3.substitute(path_cond(p), *pairs)) for p in paths]
    i = 0
    if len(paths) > 1:
        known = [j for j, c in enumerate(conds) if vm.known(c) is True]
        i = known[0] if known else vm.choose(conds)
    p = paths[i]
    for oid, ob in p.snap[0].items():
        if oid not in vm.heap:
            ob.readonly = True
            vm.heap[oid] = ob
    return subst_val(vm, p.value, pairs)


def subst_obj(vm, o, pairs):
    if isinstance(o, MapObj):
        def dom(q):
            y = smt.fresh(o.keys.sort, "sq")
            d = o.dom(y)
            return z3.simplify(z3.substitute(d, *(list(pairs) + [(y, q)]))) if smt.is_z3(d) else d
        def val(q):
            y = smt.fresh(o.keys.sort, "sq")
            pr = list(pairs) + [(y, q)]
            if o.kind == "scalar":
                return subst_val(vm, o.val(y), pr)
            return isolated(vm, lambda: (vm.assume(sc.as_z3(o.dom(y)), "g"), o.val(y))[1], pr)
        return MapObj(o.keys, dom, val, o.kind, (), o.name)
    if isinstance(o, DictObj):
        return DictObj({k: (p if isinstance(p, bool) else _zs(p, pairs), subst_val(vm, kk, pairs), subst_val(vm, v, pairs))
                        for k, (p, kk, v) in o.d.items()}, o.default, o.token.at(pairs) if o.token and not o.d else None)
    if isinstance(o, ListObj):
        if o.base is not None:
            return ListObj([subst_val(vm, x, pairs) for x in o.items], subst_val(vm, o.base, pairs))
        return ListObj([subst_val(vm, x, pairs) for x in o.items])
    if isinstance(o, NdObj):
        a = _np.empty(o.a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            a[i] = subst_val(vm, o.a[i], pairs)
        return NdObj(a, o.dtype)
    if isinstance(o, BitArrObj):
        return BitArrObj(subst_val(vm, o.bits, pairs))
    if isinstance(o, SymNdObj):
        def get(ix):
            ys = tuple(smt.fresh_int("sq") for _ in ix)
            return subst_val(vm, o.get(ys), list(pairs) + list(zip(ys, [smt_int(i) for i in ix])))
        return type(o)(tuple(_zs(s, pairs) for s in o.shape), get, o.dtype)
    if isinstance(o, PyObj):
        return PyObj(o.cls, {k: subst_val(vm, x, pairs) for k, x in o.fields.items()})
    if hasattr(o, "subst_obj"):
        return o.subst_obj(vm, pairs)
    raise Unsupported("substitution in object %s" % type(o).__name__)


# ---------------------------------------------------------------- names inside expressions

_has_cache = {}


def term_has_prefix(t, prefix):
    key = (t.get_id(), prefix)
    if key in _has_cache:
        return _has_cache[key][0]
    st, seen, r = [t], set(), False
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                if nm.startswith(prefix):
                    r = True
                    break
                if nm in sc.COND_T and scalar_has_prefix(sc.cond_of(e)[1], prefix):
                    r = True
                    break
            st.extend(e.children())
        elif z3.is_quantifier(e):
            st.append(e.body())
    _has_cache[key] = (r, t)
    return r


def scalar_has_prefix(s, prefix):
    for i in s.guards():
        if term_has_prefix(sc.LITS[i], prefix):
            return True
    return any(_atom_has_prefix(sc.ATOMS[i], prefix) for i in s.atoms())


def _atom_has_prefix(a, prefix):
    if a.kind == "app":
        if a.data[0].startswith(prefix):
            return True
        for y in a.data[1]:
            if smt.is_z3(y) and term_has_prefix(y, prefix):
                return True
            if isinstance(y, Scalar) and scalar_has_prefix(y, prefix):
                return True
        return False
    if a.kind == "conj":
        return _atom_has_prefix(a.data, prefix)
    if a.kind == "sum":
        return scalar_has_prefix(a.data[2], prefix)
    return scalar_has_prefix(a.data, prefix)


def val_has_prefix(vm, v, prefix):
    if isinstance(v, Scalar):
        return scalar_has_prefix(v, prefix)
    if isinstance(v, z3.ExprRef):
        return term_has_prefix(v, prefix)
    if isinstance(v, tuple):
        return any(val_has_prefix(vm, x, prefix) for x in v)
    if isinstance(v, Bits):
        return any(smt.is_z3(x) and term_has_prefix(x, prefix) for p in v.p for x in p)
    if isinstance(v, (BStr, BBytes, BInt)):
        return val_has_prefix(vm, v.bits, prefix)
    if isinstance(v, PosTuple):
        return any(smt.is_z3(x) and term_has_prefix(x, prefix) for p in v.parts for x in p[1:])
    return False


def hv_lits(s, prefix):
    """guard literals (positive atoms) that mention havocked state"""
    out = {}
    for i in s.guards():
        t = sc.LITS[i]
        a = t.arg(0) if z3.is_not(t) else t
        if term_has_prefix(a, prefix):
            out[a.get_id()] = a
    return list(out.values())


def set_lit(s, a, value):
    """s with the literal a decided"""
    r = {}
    pos, neg = sc.lit(a), sc._NEG[sc.lit(a)]
    t, f = (pos, neg) if value else (neg, pos)
    for (g, m), v in s.t.items():
        if f in g:
            continue
        k = (g - {t}, m)
        w = r.get(k)
        w = v if w is None else w + v
        if w.t:
            r[k] = w
        else:
            r.pop(k, None)
    return Scalar(r)


def split_neq(s, q):
    """[q != t] written as 1 - [q == t]"""
    r = sc.SZERO
    for (g, m), v in s.t.items():
        x = Scalar({(frozenset(), m): v})
        for i in g:
            t = sc.LITS[i]
            if z3.is_not(t) and z3.is_eq(t.arg(0)) and (t.arg(0).arg(0).eq(q) or t.arg(0).arg(1).eq(q)):
                x = x * (sc.SONE - Scalar({(frozenset([sc._NEG[i]]), ()): sc.ONE}))
            else:
                x = x * Scalar({(frozenset([i]), ()): sc.ONE})
        r = r + x
    return r


def merge_eq(s, q, prefix, asms):
    """in terms guarded by t == q, write t for q; drop terms whose havocked factor is zero there"""
    r = sc.SZERO
    for (g, m), v in s.t.items():
        x = Scalar({(g, m): v})
        eqs = []
        for i in g:
            t = sc.LITS[i]
            if z3.is_eq(t):
                a, b = t.children()
                if b.eq(q):
                    a, b = b, a
                if a.eq(q) and z3.substitute(b, (q, smt.fresh(q.sort(), "o"))).eq(b):
                    eqs.append((i, b))
        if eqs and any(_atom_has_prefix(sc.ATOMS[i], prefix) for i, _ in m):
            i, b = eqs[0]
            x = sc.subst(Scalar({(g - {i}, m): v}), [(q, b)]) * Scalar({(frozenset([i]), ()): sc.ONE})
        for (g2, m2), v2 in x.t.items():
            y = Scalar({(g2, m2): v2})
            for j, _e in m2:
                a = sc.ATOMS[j]
                a = a.data if a.kind == "conj" else a
                if a.kind == "app" and a.data[0].startswith(prefix) and a.data[0] in sc.ZERO_WHEN:
                    c = sc.ZERO_WHEN[a.data[0]](*a.data[1])
                    if c is not None and smt.entails(list(asms) + [sc.LITS[k] for k in g2], c) is True:
                        y = sc.SZERO
                        break
            r = r + y
    return r


def drop_zero_terms(s, asms=()):
    """remove monomials that vanish by the zero-outside-domain rules; drop domain literals implied by a factor"""
    r = {}
    for (g, m), v in s.t.items():
        g2, dead = g, False
        for i, _e in m:
            a = sc.ATOMS[i]
            b = a.data if a.kind == "conj" else a
            if b.kind == "app" and b.data[0] in sc.ZERO_WHEN:
                c = sc.ZERO_WHEN[b.data[0]](*b.data[1])
                if c is None:
                    continue
                c = z3.simplify(c)
                ci = sc.lit(c)
                if ci in g2:
                    dead = True
                    break
                if sc._NEG[ci] in g2:
                    g2 = g2 - {sc._NEG[ci]}
        if dead:
            continue
        k = (g2, m)
        w = r.get(k)
        w = v if w is None else w + v
        if w.t:
            r[k] = w
        else:
            r.pop(k, None)
    return Scalar(r)


# ---------------------------------------------------------------- the loop

class HavocList(SymSeq):
    pass


class NeedKind(Exception):
    pass


class Loop:
    def __init__(self, vm, coll, bind, body):
        self.vm, self.coll, self.bind, self.body = vm, coll, bind, body
        self.uid = smt.fresh_name("L")
        self.prefix = HV + self.uid + "."
        self.hav = {}          # loc -> description
        self.exact = {}        # loc -> f(xs) -> value at the start of iteration xs
        self.invs = []         # adopted invariants (callables on hv state)
        self.own = {}          # maps of objects read under the assumption that iterations own their keys: loc -> (xs, key)
        self.reads = {}

    # locations: ("v", frame oid, name) / ("o", oid)
    def pre(self, loc):
        h = self.snap0[0]
        if loc[0] == "v":
            return force(h[loc[1]].vars.get(loc[2], MISSING))
        return h[loc[1]]

    def havoc_state(self, xs):
        vm = self.vm
        self.lifted = set()
        self.cur = xs
        for loc, kind in self.hav.items():
            if loc in self.exact:
                v = self.exact[loc](xs)
            else:
                v = self.fresh_for(loc, kind)
            if kind[0] in ("lift", "symval"):
                v = vm.alloc(v)
                self.lifted.add(v.oid)
            if v is MISSING:
                continue
            if loc[0] == "v":
                vm.mut(Ref(loc[1])).vars[loc[2]] = v
            else:
                vm.put(Ref(loc[1]), v)

    def hname(self, loc, sub=""):
        return self.prefix + ("%s.%s" % (loc[1], loc[2]) if loc[0] == "v" else "o%s" % loc[1]) + sub

    def fresh_for(self, loc, kind):
        nm = self.hname(loc)
        if kind == "int":
            return z3.Int(nm)
        if kind == "bool":
            return z3.Bool(nm)
        if kind == "scalar":
            return sc.app(nm, real=False)
        if kind == "rscalar":
            return sc.app(nm, real=True)
        if kind == "str":
            return StrAcc(nm, [])
        if kind == "temp":
            return Poison("set in an earlier iteration of a loop")
        if kind == "missing":
            return MISSING
        if kind == "list":
            o = ListObj([], HavocList(z3.Int(nm + ".len"), lambda k: Poison("element of a list being built"), "list"))
            return o
        if kind[0] == "map":
            _, keys, mk = kind
            pre = self.pre(loc)
            H = z3.Function(nm + ".dom", keys.sort, z3.BoolSort())
            if mk == "scalar":
                sc.ZERO_WHEN[nm] = lambda k: z3.Not(H(k))
                m = MapObj(keys, lambda k: H(k), lambda k: sc.app(nm, k), "scalar",
                           pre.facts if isinstance(pre, MapObj) else ())
            else:
                own = z3.simplify(z3.substitute(self.own[loc][1], *zip(self.own[loc][0], self.cur))) if loc in self.own and len(self.cur) == 1 else None
                # the entry of this iteration is the one from before the loop (own keys, established by own_ok)
                m = MapObj(keys, lambda k: sc.as_z3(pre.dom(k)) if own is not None and k.eq(own) else H(k),
                           lambda k: self.old_value(loc, k), mk)
            m.writes = ()
            return m
        if kind[0] == "set":
            keys = kind[1]
            H = z3.Function(nm + ".dom", keys.sort, z3.BoolSort())
            return SymSetObj(keys, lambda k: H(k))
        if kind == "bits":
            o = self.pre(loc)
            return BitArrObj(Bits([(z3.Const(nm, smt.Arr), 0, o.bits.length)]))
        if kind == "nd" or kind[0] == "lift":
            o = self.pre(loc) if kind == "nd" else NdObj(_np.empty(kind[1], dtype=object), kind[2])
            a = _np.empty(o.a.shape, dtype=object)
            for i in _np.ndindex(a.shape):
                x = o.a[i]
                a[i] = sc.app(nm + "." + "_".join(map(str, i)), real=o.dtype == "float")
            return NdObj(a, o.dtype)
        if kind[0] == "symval":
            return SymNdObj(kind[1], lambda ix: sc.app(nm, *[smt_int(i) for i in ix]), kind[2])
        if kind == "symnd":
            o = self.pre(loc)
            return type(o)(o.shape, lambda ix: sc.app(nm, *[smt_int(i) for i in ix]), o.dtype, None, ())
        if kind[0] == "dict":
            o = self.pre(loc)
            d = {}
            for j, (k, (p, kk, v)) in enumerate(o.d.items()):
                d[k] = (p, kk, sc.app(nm + ".%d" % j))
            return DictObj(d, o.default)
        if kind[0] == "custom":
            return kind[1].havoc_obj(self.vm, nm, self.pre(loc))
        raise Unsupported("havoc %r" % (kind,))

    def classify(self, loc, news):
        """kind of a modified location given its pre value and some values after an iteration"""
        v0 = self.pre(loc)
        vm = self.vm
        if loc[0] == "v":
            if v0 is MISSING or isinstance(v0, (Poison, Opaque)):
                return "missing" if v0 is MISSING else "temp"
            if isinstance(v0, (bool, z3.BoolRef)):
                return "bool" if all(isinstance(n, (bool, z3.BoolRef)) for n in news) else "temp"
            if vm.is_num(v0):
                if all(vm.is_intlike(n) for n in news) and vm.is_intlike(v0):
                    return "int"
                if all(vm.is_num(n) for n in news):
                    return "scalar"
                # a number at first, an array afterwards: 0 + array
                objs = [hp.get(n.oid) if isinstance(n, Ref) else None for n, hp in zip(news, self.heaps[loc])]
                if Scalar.of(v0).const() is not None and all(isinstance(o, NdObj) for o in objs) \
                        and len({o.a.shape for o in objs}) == 1:
                    return ("lift", objs[0].a.shape, objs[0].dtype)
                return "temp"
            if isinstance(v0, (str, BStr)) and all(isinstance(n, (str, BStr, StrAcc)) for n in news):
                return "str"
            if vm.ghosts and isinstance(v0, Ref) and type(self.snap0[0].get(v0.oid)) is SymNdObj:
                o = self.snap0[0][v0.oid]
                objs = [hp.get(n.oid) if isinstance(n, Ref) else None for n, hp in zip(news, self.heaps[loc])]
                if all(type(x) is SymNdObj and len(x.shape) == len(o.shape)
                       and all(vm.known(smt_int(a) == smt_int(b)) is True for a, b in zip(x.shape, o.shape)) for x in objs):
                    return ("symval", o.shape, "complex")
            return "temp"
        o = v0
        if isinstance(o, ListObj):
            return "list"
        if isinstance(o, (DictObj, MapObj)) or hasattr(o, "havoc_obj"):
            for n in news:
                if hasattr(n, "havoc_obj"):
                    return ("custom", n)
            for n in news:
                if isinstance(n, MapObj):
                    return ("map", n.keys, n.kind)
            if isinstance(o, MapObj):
                return ("map", o.keys, o.kind)
            if isinstance(o, DictObj):
                from .libs import INTKEY, ZKey
                new = [(k, e[2]) for n in news if isinstance(n, DictObj) for k, e in n.d.items()]
                if not o.d and new and all(isinstance(k, ZKey) and z3.is_int(k.e) for k, _ in new):
                    return ("map", INTKEY, "scalar" if all(vm.is_num(e) for _, e in new) else "other")
                return ("dict",)
        if isinstance(o, BitArrObj):
            return "bits"
        if isinstance(o, NdObj):
            return "nd"
        if isinstance(o, SymNdObj):
            return "symnd"
        if isinstance(o, (SetObj, SymSetObj)):
            for n in news:
                if isinstance(n, SymSetObj):
                    return ("set", n.keys)
            if isinstance(o, SetObj) and isinstance(news[0], SetObj):
                raise Unsupported("set of concrete members in a symbolic loop")
        raise Unsupported("loop modifies object %s" % type(o).__name__)

    def old_value(self, loc, k):
        """value found under key k in a map of objects that the loop writes: the one from before the loop when
        no other iteration writes k (assumed here, established by own_ok)"""
        if loc not in self.own or term_has_prefix(k, self.prefix):
            return Poison("value of a map being built")
        self.reads.setdefault(loc, []).append(k)
        return self.pre(loc).val(k)

    # -- running
    def iteration(self, xs):
        def go():
            self.vm.iterations.append(xs)
            try:
                self.bind(self.coll.elem(xs))
                self.body()
            finally:
                self.vm.iterations.pop()
        return go

    def run_generic(self, xs):
        vm = self.vm
        vm.restore(self.snap0)
        self.base_pc = None
        vm.run_count += 1
        self.havoc_state(xs)
        g = self.coll.guard(xs)
        vm.assume(g, "f")
        for f in self.coll.facts(xs):
            vm.assume(f)
        for f in self.inv_facts(xs):
            vm.assume(f)
        self.gen_snap = vm.save()
        self.generic = []
        self.reads = {}
        self.fresh_mark = smt._fresh[0]
        paths = vm.explore(self.iteration(xs))
        return paths

    def inv_facts(self, xs):
        return [f(xs) for f in self.invs]

    def modified(self, paths):
        out = {}
        self.heaps = {}
        h0 = self.gen_snap[0]
        for p in paths:
            if p.kind in ("return", "raise"):
                continue
            for oid, o in p.snap[0].items():
                b = h0.get(oid)
                if b is None or b is o or oid in self.lifted:
                    continue
                if isinstance(o, FrameObj):
                    for k, v in o.vars.items():
                        v, w = force(v), force(b.vars.get(k, MISSING))
                        if w is not v:
                            out.setdefault(("v", oid, k), []).append(v)
                            self.heaps.setdefault(("v", oid, k), []).append(p.snap[0])
                else:
                    out.setdefault(("o", oid), []).append(o)
        return out

    def discover(self):
        xs = self.coll.fresh()
        mark = (smt._fresh[0], self.vm.next)
        for _ in range(12):
            # every trial is thrown away before the next: names may be used again (solver answers are cached)
            smt._fresh[0], self.vm.next = mark
            paths = self.run_generic(xs)
            mod = self.modified(paths)
            new = {}
            for loc, vals in mod.items():
                # values in the pre-state of other locations may be aliased: keyed by object
                k = self.classify(loc, vals)
                if loc not in self.hav or (self.hav[loc] != k and self.stronger(loc, k)):
                    new[loc] = k
            if not new:
                return xs, paths
            self.hav.update(new)
            for loc, kind in new.items():
                if kind[0] == "map" and kind[2] != "scalar" and isinstance(self.pre(loc), MapObj) and len(xs) == 1:
                    key = xs[0] if xs[0].sort() == kind[1].sort else self.written_key(loc, xs, paths)
                    if key is None:
                        continue
                    H = z3.Function(self.hname(loc) + ".dom", kind[1].sort, z3.BoolSort())
                    self.own[loc] = (list(xs), key)
                    self.invs = self.invs + [OwnKeys(loc, list(xs), [H(key) == sc.as_z3(self.pre(loc).dom(key))])]
            if self.vm.key_invariants:
                # assumed while looking for the loop state, verified by lp_solve
                self.invs = self.invs + key_candidates(self, set(new))
        raise Unsupported("loop state does not stabilise")

    def written_key(self, loc, xs, paths):
        """the key an iteration stores at, when there is one"""
        ws = written_keys([p for p in paths if p.kind in ("ok", "continue") and isinstance(path_value(p, loc), MapObj)], loc)
        ks = [z3.simplify(k) for _, op, k in ws or [] if op == "set"]
        if not ks or any(not k.eq(ks[0]) for k in ks) or term_has_prefix(ks[0], self.prefix) or has_fresh(self, ks[0]):
            return None
        return ks[0]

    def stronger(self, loc, k):
        """kind changes only along int -> scalar, * -> temp, dict -> map"""
        old = self.hav[loc]
        order = {"bool": 0, "int": 0, "scalar": 1, "str": 1, "temp": 3}
        if isinstance(old, str) and isinstance(k, str):
            return order.get(k, 2) > order.get(old, 2)
        if isinstance(old, tuple) and isinstance(k, tuple):
            return old[0] == "dict" and k[0] in ("map", "custom")
        return True


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()


EXIT_MARKS = {}         # conditions "some iteration of this loop leaves it"


def exit_conds(vm, paths, exits):
    """conditions of the paths that leave a loop.  When every path on which an inner loop is left is such a path, their
    joint condition is that the inner loop is left at some iteration (no need to name that iteration)"""


    def marked(p):
        return [i for i, (e, k) in enumerate(p.pc) if k == "d" and e.get_id() in EXIT_MARKS]

    def prefix(p, i):
        return tuple(e.get_id() for e, _ in p.pc[:i + 1])
    rest = set()
    for p in paths:
        if not any(p is q for q in exits):
            rest |= {prefix(p, i) for i in marked(p)}
    out, done = [], set()
    for p in exits:
        for i in marked(p):
            key = prefix(p, i)
            if key not in rest:
                if key not in done:
                    done.add(key)
                    out.append(smt.bigand([e for e, k in p.pc[:i + 1] if k == "d"]))
                break
        else:
            out.append(path_cond(p))
    return out


def path_cond(p):
    return smt.bigand([e for e, k in p.pc if k == "d"])


def summarise(vm, it, bind, body, orelse, fr):
    for h in vm.loop_hooks:
        if h(vm, it, bind, body, orelse, fr):
            return
    coll = collection(vm, it)
    lp = Loop(vm, coll, bind, body)
    lp.snap0 = vm.save()
    xs0 = coll.fresh()
    # trivially empty?
    if smt.check_sat(vm.asms() + [coll.guard(xs0)] + list(coll.facts(xs0)), 2000, False)[0] == "unsat":
        orelse()
        return
    try:
        if lp_solve(lp):
            orelse()
    except Unsupported:
        vm.restore(lp.snap0)
        raise


def lp_solve(lp):
    """computes the state after the loop; returns False when the loop was left by break"""
    vm, coll = lp.vm, lp.coll
    xs, paths = lp.discover()
    if lp.invs:
        own = [c for c in lp.invs if c.kind == "own"]
        cands = [c for c in lp.invs if c.kind != "own"]
        # owned keys first: independence of the iterations, given what they find
        bad = [c for c in own if not own_ok(lp, c.loc, xs, paths)]
        if bad:
            for c in bad:
                lp.own.pop(c.loc, None)
            own = [c for c in own if c not in bad]
            lp.invs = own + cands
            xs = coll.fresh()
            paths = lp.run_generic(xs)
            if any(not own_ok(lp, c.loc, xs, paths) for c in own):
                raise Unsupported("iterations share entries of a map of objects")
        if len(verify_invariants(lp, own, cands, paths)) < len(cands):
            xs = coll.fresh()
            paths = lp.run_generic(xs)
    for rule in vm.fold_rules:
        r = rule(lp)
        if r:
            xs = coll.fresh()
            paths = lp.run_generic(xs)
            break
    # resolve counters first, then run again with their exact values
    if resolve_counters(lp, xs, paths):
        xs = coll.fresh()
        paths = lp.run_generic(xs)
    if vm.ghosts and coll.ordered is not None:
        xs, paths = ghost_rule(lp, xs, paths)
    last = None
    for attempt in range(2):
        try:
            final, exits = effects(lp, xs, paths)
            if exits and lp.done_name is None:
                ec = skolem_free(lp, xs, z3.simplify(z3.Or(*[path_cond(p) for p in exits])))
                if term_has_prefix(ec, lp.prefix):
                    raise Unsupported("the way out of a loop depends on accumulated state")
            break
        except Unsupported as e:
            last = e
            if attempt == 0 and find_invariants(lp, xs, paths):
                xs = coll.fresh()
                paths = lp.run_generic(xs)
                continue
            raise
    vm.restore(lp.snap0)
    if exits:
        g = coll.guard(xs)
        ec = z3.simplify(z3.Or(*exit_conds(vm, paths, exits)))
        ec = skolem_free(lp, xs, ec)
        if term_has_prefix(ec, lp.prefix):
            raise Unsupported("the way out of a loop depends on accumulated state")
        facts = list(coll.facts(xs))
        done = preds.forall_many(xs, z3.Implies(z3.And(g, *facts), z3.Not(ec)))
        done = sc.as_z3(done)
        if lp.done_name is not None:
            done = lp.done_name
        notdone = z3.Not(done)
        EXIT_MARKS[notdone.get_id()] = notdone
        if vm.choose([done, notdone]) == 1:
            # left at some iteration
            ys = coll.fresh()
            vm.assume(coll.guard(ys))
            for f in coll.facts(ys):
                vm.assume(f)
            vm.assume(z3.substitute(ec, *zip(xs, ys)), "f")
            kinds = {p.kind for p in exits}
            if coll.prior is not None:
                zs = coll.fresh()
                ez = z3.substitute(z3.And(g, *facts, ec), *zip(xs, zs))
                early = preds.forall_many(zs, z3.Implies(coll.prior(zs, ys), z3.Not(ez)))
                vm.assume(sc.as_z3(early))
            for f in lp.exit_facts(ys):
                vm.assume(f)
            lp.enter_iteration(ys, final, kinds)
            vm.iterations.append(ys)
            try:
                lp.bind(coll.elem(ys))
                lp.body()
            except BreakSig:
                lp.left(ys)
                return False
            except ContinueSig:
                raise Infeasible()
            finally:
                vm.iterations.pop()
            raise Infeasible()
    for loc, v in final.items():
        lp.store(loc, v)
    for f in lp.final_facts:
        vm.assume(f)
    return True


def _store(self, loc, v):
    vm = self.vm
    if callable(v) and not isinstance(v, (Obj,)):
        v = v(None)
    if v is MISSING:
        return
    if loc[0] == "v":
        vm.mut(Ref(loc[1])).vars[loc[2]] = v
    else:
        vm.put(Ref(loc[1]), v)


def _enter(self, ys, final, kinds):
    """state at the start of iteration ys"""
    for loc, v in final.items():
        if loc in self.exact:
            self.store(loc, exact_final(self, loc)(ys))
        elif callable(v) and not isinstance(v, Obj):
            if self.coll.prior is None:
                if kinds <= {"raise"}:
                    if loc[0] == "v":
                        self.store(loc, Poison("loop state at an exception"))
                    continue
                raise Unsupported("loop over an unordered collection left in the middle")
            self.store(loc, v(ys))
        elif isinstance(v, Poison):
            self.store(loc, v)
        elif kinds <= {"raise"}:
            continue
        else:
            raise Unsupported("state at the way out of a loop")


Loop.store = _store
Loop.enter_iteration = _enter
Loop.final_facts = ()
Loop.exit_facts = lambda self, ys: []
Loop.done_name = None
Loop.left = lambda self, ys: None


def resolve_counters(lp, xs, paths):
    """integer variables with a constant or element-dependent increment in ordered loops: exact value at
    iteration k"""
    vm, coll = lp.vm, lp.coll
    normal = [p for p in paths if p.kind in ("ok", "continue")]
    found = False
    if coll.ordered is None or not normal:
        return False
    k = xs[0]
    for loc, kind in list(lp.hav.items()):
        if kind != "int" or loc in lp.exact:
            continue
        h = z3.Int(lp.hname(loc))
        v0 = smt_int(vm.as_int(lp.pre(loc)))
        ds = []
        for p in normal:
            nv = path_value(p, loc)
            if nv is None or not vm.is_intlike(nv):
                ds = None
                break
            ds.append((path_cond(p), z3.simplify(smt_int(vm.as_int(nv)) - h)))
        if ds is None or any(term_has_prefix(d, lp.prefix) for _, d in ds):
            continue
        d0 = ds[0][1]
        if all(d.eq(d0) for _, d in ds) and not sc.occurs(k, d0) and not has_fresh(lp, d0):
            lp.exact[loc] = lambda ys, v0=v0, d0=d0: z3.simplify(v0 + d0 * ys[0])
            found = True
            continue
        if any(term_has_prefix(c, lp.prefix) for c, _ in ds):
            continue
        # d depends on the element: prefix sum
        d = ds[-1][1]
        for c, x in reversed(ds[:-1]):
            d = z3.If(c, x, d)
        d = z3.simplify(d)
        if has_fresh(lp, d):
            continue
        F = prefix_sum(k, d, [coll.guard(xs)] + list(coll.facts(xs)), vm)
        lp.exact[loc] = lambda ys, v0=v0, F=F: z3.simplify(v0 + F(ys[0]))
        found = True
    return found


def has_fresh(lp, t):
    """mentions constants created inside the body (they depend on the element)"""
    for c in sc.free_consts(t):
        nm = c.decl().name()
        if "!" in nm:
            tail = nm.rsplit("!", 1)[1]
            if tail.isdigit() and int(tail) > lp.fresh_mark and not nm.startswith(("nz!", "lt!", "all!", "wit!")):
                return True
    return False


def path_value(p, loc):
    h = p.snap[0]
    if loc[0] == "v":
        return force(h[loc[1]].vars.get(loc[2]))
    return h[loc[1]]


PSUMS = {}


def prefix_sum(k, d, guards, vm):
    """F with F(0)=0, F(j+1)=F(j)+d(j); keyed by the summand so that equal sums share the symbol"""
    terms = []
    preds._max_terms(d, k, terms, set())
    ph = [z3.Const("!q%d_%s" % (i, str(t.sort()).replace(" ", "")), t.sort()) for i, t in enumerate(terms)]
    kb = z3.Const("!x_Int", z3.IntSort())
    tb = z3.substitute(d, *(list(zip(terms, ph)) + [(k, kb)]))
    key = tb.get_id()
    if key not in PSUMS:
        name = "psum!%d" % len(PSUMS)
        f = z3.Function(name, *([p.sort() for p in ph] + [z3.IntSort(), z3.IntSort()]))
        PSUMS[key] = (name, f, tb, kb, ph)
        PS_BY[name] = PSUMS[key]
    name, f, tb, kb, ph = PSUMS[key]
    return lambda j: f(*(terms + [smt_int(j)]))


PS_BY = {}


def _psum_facts(terms):
    facts = []
    apps = [x.t for x in terms if x.name in PS_BY]
    byf = {}
    for t in apps:
        name, f, tb, kb, ph = PS_BY[t.decl().name()]
        args = t.children()
        j = args[-1]
        pr = list(zip(ph, args[:-1]))
        facts.append(z3.Implies(j == 0, t == 0))
        step = z3.substitute(tb, *(pr + [(kb, j)]))
        nxt = f(*(args[:-1] + [z3.simplify(j + 1)]))
        facts.append(z3.Implies(j >= 0, nxt == t + step))
        byf.setdefault((name, tuple(a.get_id() for a in args[:-1])), []).append((j, t, pr, step))
    for key, lst in byf.items():
        name, f, tb, kb, ph = PS_BY[key[0]]
        q = z3.Int("!pk")
        pr = lst[0][2]
        nonneg = z3.ForAll([q], z3.Implies(q >= 0, z3.substitute(tb, *(pr + [(kb, q)])) >= 0))
        if PS_NONNEG.get(key[0]):
            nonneg = z3.BoolVal(True)
        for a in range(len(lst)):
            for b in range(len(lst)):
                if a == b:
                    continue
                ja, ta, _, sa = lst[a]
                jb, tb2, _, sb = lst[b]
                # summands are nonnegative in every use here when declared so
                if PS_NONNEG.get(key[0]):
                    facts.append(z3.Implies(z3.And(0 <= ja, ja < jb), tb2 >= ta + sa))
                    facts.append(z3.Implies(z3.And(0 <= ja, ja <= jb), tb2 >= ta))
    return facts


PS_NONNEG = {}
smt.INSTANTIATORS.append(_psum_facts)


# ---------------------------------------------------------------- effects

def skolem_free(lp, xs, t):
    if has_fresh(lp, t):
        return skolemise(lp, xs, t)
    return t


def fresh_pairs(lp, xs, consts):
    pairs = []
    for c in consts:
        nm = c.decl().name()
        if "!" in nm and not nm.startswith(("nz!", "lt!", "all!", "wit!", HV)):
            tail = nm.rsplit("!", 1)[1]
            if tail.isdigit() and int(tail) > lp.fresh_mark and not any(c.eq(x) for x in xs) \
                    and not any(c.eq(x) for x in lp.generic):
                f = z3.Function("sk." + nm.replace("!", "_"), *([x.sort() for x in xs] + [c.sort()]))
                pairs.append((c, f(*xs)))
    return pairs


def skolemise(lp, xs, t):
    pairs = fresh_pairs(lp, xs, sc.free_consts(t))
    return z3.substitute(t, *pairs) if pairs else t


def skolem_scalar(lp, xs, s):
    cs = []
    def see(t):
        cs.extend(sc.free_consts(t))
        return t
    sc.rebuild(s, see, see)
    pairs = fresh_pairs(lp, xs, cs)
    return sc.subst(s, pairs) if pairs else s


def sum_over(xs, s):
    for x in reversed(xs):
        s = sc.Sum(x, s)
    return s


def effects(lp, xs, paths):
    """final: loc -> value or f(ys): value at the start of iteration ys (None: after the loop)"""
    vm, coll = lp.vm, lp.coll
    exits = [p for p in paths if p.kind not in ("ok", "continue")]
    normal = [p for p in paths if p.kind in ("ok", "continue")]
    final = {}
    g = coll.guard(xs)
    if coll.prior is None:
        for p in exits:
            if p.kind == "break":
                # allowed only if nothing but temporaries changes
                pass
    for loc, kind in lp.hav.items():
        if loc in lp.exact:
            final[loc] = exact_final(lp, loc)
            continue
        if kind in ("temp", "missing"):
            final[loc] = Poison("loop variable after the loop")
            continue
        if kind == "int":
            final[loc] = eff_scalar(lp, xs, normal, loc, g)
            continue
        if kind in ("scalar", "rscalar"):
            final[loc] = eff_scalar(lp, xs, normal, loc, g)
            continue
        if kind == "bool":
            final[loc] = eff_bool(lp, xs, normal, loc, g)
            continue
        if kind == "str":
            final[loc] = eff_str(lp, xs, normal, loc, g)
            continue
        if kind == "list":
            final[loc] = eff_list(lp, xs, normal, loc, g)
            continue
        if kind == "nd":
            final[loc] = eff_nd(lp, xs, normal, loc, g)
            continue
        if kind[0] == "lift":
            final[loc] = eff_lift(lp, xs, normal, loc, g, kind)
            continue
        if kind == "symnd":
            final[loc] = eff_symnd(lp, xs, normal, loc, g)
            continue
        if kind[0] == "dict":
            final[loc] = eff_dict(lp, xs, normal, loc, g)
            continue
        if kind[0] == "map":
            final[loc] = eff_map(lp, xs, normal, loc, g, kind)
            continue
        if kind[0] == "set":
            final[loc] = eff_set(lp, xs, normal, loc, g, kind)
            continue
        if kind[0] == "symval":
            final[loc] = Poison("array rebuilt by every iteration of a loop")
            continue
        if kind[0] == "custom":
            final[loc] = kind[1].eff_obj(lp, xs, normal, loc, g)
            continue
        raise Unsupported("loop effect on %s (%r)" % (loc, kind))
    return final, exits


# ---------------------------------------------------------------- ghost sequences (contracts of recurrences)

class Ghost:
    """A sequence of arrays defined by recursion: value(k, ix), and step(k, ix) = [(condition, value(k+1, ix))].
    base "free": value(0, .) is not constrained by the definition (it names what the loop starts from);
    otherwise value(0, ix) must be what the location holds before the loop.
    An array of a loop is shown to follow the sequence by induction: it holds value(k, .) at the start of iteration k."""

    def __init__(self, name, ndim, value, step, free=False, base=None):
        self.name, self.ndim, self.value, self.step, self.free = name, ndim, value, step, free
        self.base = base or (lambda ix: value(z3.IntVal(0), ix))      # value(0, .) written out


def _array_at(lp, loc, heap):
    """(shape, get, dtype) of the array at a location"""
    o = heap[loc[1]] if loc[0] == "o" else force(heap[loc[1]].vars.get(loc[2], MISSING))
    if loc[0] == "v":
        o = heap.get(o.oid) if isinstance(o, Ref) else None
    return o if isinstance(o, SymNdObj) else None


def ghost_rule(lp, xs, paths):
    vm, coll = lp.vm, lp.coll
    locs = [loc for loc, kind in lp.hav.items() if (kind == "symnd" or kind[0] == "symval") and loc not in lp.exact]
    cand = {}
    for loc in locs:
        o = _array_at(lp, loc, lp.snap0[0])
        if o is not None:
            snap = vm.save()
            vm.restore(lp.snap0)
            cand[loc] = [g for g in vm.ghosts if g.ndim == len(o.shape) and ghost_base(lp, g, o)]
            vm.restore(snap)
    cand = {k: v for k, v in cand.items() if v}
    if not cand:
        return xs, paths
    import itertools
    # each location follows one sequence or none
    locs = list(cand)
    for pick in itertools.product(*[cand[l] + [None] for l in locs]):
        chosen = {l: g for l, g in zip(locs, pick) if g is not None}
        if not chosen or len({g.name for g in chosen.values() if g.free}) < len([g for g in chosen.values() if g.free]):
            continue
        old = dict(lp.exact)
        for l, g in chosen.items():
            lp.exact[l] = ghost_exact(lp, l, g)
        ys = coll.fresh()
        try:
            ps = lp.run_generic(ys)
            if all(ghost_step(lp, l, g, ys, ps) for l, g in chosen.items()):
                return ys, ps
        except Unsupported:
            pass
        lp.exact = old
    ys = coll.fresh()
    return ys, lp.run_generic(ys)


def ghost_exact(lp, loc, g):
    o = _array_at(lp, loc, lp.snap0[0])
    obj = loc[0] == "o"

    def at(ys):
        r = SymNdObj(o.shape, lambda ix: g.value(smt_int(ys[0]), tuple(smt_int(i) for i in ix)), o.dtype if obj else lp.hav[loc][2])
        r.ghost = (g.name, ys[0])
        return r
    return at


def _index(lp, o):
    ix = tuple(smt.fresh_int("ix") for _ in o.shape)
    return ix, [z3.And(0 <= i, i < smt_int(n)) for i, n in zip(ix, o.shape)]


def ghost_base(lp, g, o):
    if g.free:
        return True
    ix, fs = _index(lp, o)
    return sc.is_zero(Scalar.of(o.get(ix)) - g.base(ix), lp.vm.asms() + fs) is True


def ghost_step(lp, loc, g, xs, paths):
    for p in paths:
        if p.kind in ("return", "raise"):
            continue
        if p.kind not in ("ok", "continue"):
            return False
        o = _array_at(lp, loc, p.snap[0])
        if o is None:
            return False
        ix, fs = _index(lp, o)
        asms = [e for e, _ in p.snap[1]] + fs
        got = Scalar.of(o.get(ix))
        for c, want in g.step(xs[0], ix):
            if sc.contradictory(asms + [c]):
                continue
            if sc.is_zero(got - want, asms + [c]) is not True:
                if DEBUG_GHOST:
                    print("ghost", g.name, loc, "differs:", str(got - want)[:3000], "under", c)
                return False
    return True


DEBUG_GHOST = False


def exact_final(lp, loc):
    coll = lp.coll
    f = lp.exact[loc]

    def at(ys):
        v = f([smt_int(coll.length)] if ys is None else ys)
        return lp.vm.alloc(v) if loc[0] == "v" and isinstance(v, SymNdObj) else v
    return at


def expand_compound(s, prefix):
    """[not (A and B)] = 1 - [A][B] for literals about havocked state"""
    for _ in range(4):
        r, hit = sc.SZERO, False
        for (g, m), v in s.t.items():
            f = None
            for i in g:
                l = sc.LITS[i]
                if (z3.is_not(l) and z3.is_and(l.arg(0)) or z3.is_or(l)) and term_has_prefix(l, prefix):
                    neg = l.arg(0) if z3.is_not(l) else z3.And(*[z3.Not(c) for c in l.children()])
                    f = sc.SONE - sc.ind(neg)
                    g = g - {i}
                    break
            x = Scalar({(g, m): v})
            if f is not None:
                hit = True
                x = f * x
            r = r + x
        if not hit:
            return s
        s = r
    return s


def norm_delta(lp, xs, total):
    """eliminate literals about havocked state; the result must not mention it"""
    vm = lp.vm
    asms = [e for e, _ in lp.gen_snap[1]]
    total = expand_compound(drop_zero_terms(total), lp.prefix)
    total = skolem_scalar(lp, xs, total)
    total = drop_zero_terms(sc.assume_simplify(total, asms)) if total.guards() else total
    for _ in range(8):
        hl = hv_lits(total, lp.prefix)
        if not hl:
            break
        a = hl[0]
        t1, t0 = set_lit(total, a, True), set_lit(total, a, False)
        if sc.is_zero(sc.ind(a) * (t1 - t0), asms) is True:
            total = t0
        elif sc.is_zero(sc.ind(z3.Not(a)) * (t1 - t0), asms) is True:
            total = t1
        else:
            raise Unsupported("accumulation depends on earlier iterations: %s" % str(a)[:120])
        total = drop_zero_terms(total)
    if scalar_has_prefix(total, lp.prefix):
        # terms that cancel only semantically
        keep = {}
        bad = {}
        for k, v in total.t.items():
            x = Scalar({k: v})
            (bad if scalar_has_prefix(x, lp.prefix) else keep)[k] = v
        if sc.is_zero(Scalar(bad), asms) is True:
            total = Scalar(keep)
        else:
            raise Unsupported("accumulated value depends on earlier iterations: %s" % str(Scalar(bad))[:200])
    return total


def at_guard(lp, xs, g, ys):
    """guard of contributing iterations: all, or those before ys"""
    if ys is None:
        return z3.And(g)
    return z3.And(g, lp.coll.prior(xs, ys))


def eff_scalar(lp, xs, normal, loc, g):
    h = Scalar.of(z3.Int(lp.hname(loc))) if lp.hav[loc] == "int" else sc.app(lp.hname(loc))
    v0 = Scalar.of(lp.pre(loc))
    total = sc.SZERO
    for p in normal:
        nv = path_value(p, loc)
        if not lp.vm.is_num(nv):
            raise Unsupported("accumulator of changing type")
        total = total + sc.ind(path_cond(p)) * (Scalar.of(nv) - h)
    try:
        total = norm_delta(lp, xs, total)
    except Unsupported:
        if lp.hav[loc] == "int":
            return lambda ys: smt.fresh_int("unk")       # any integer
        return Poison("variable carried through the loop in an unsupported way")
    return lambda ys: v0 + sum_over(xs, sc.ind(at_guard(lp, xs, g, ys)) * total)


def eff_bool(lp, xs, normal, loc, g):
    h = z3.Bool(lp.hname(loc))
    v0 = lp.pre(loc)
    cs, same = [], True
    isor, isand = True, True
    add, rem = [], []
    for p in normal:
        nv = sc.as_z3(path_value(p, loc))
        c = path_cond(p)
        t = z3.simplify(z3.substitute(nv, (h, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(nv, (h, z3.BoolVal(False))))
        if term_has_prefix(t, lp.prefix) or term_has_prefix(f, lp.prefix) or term_has_prefix(c, lp.prefix):
            return Poison("flag carried through the loop in an unsupported way")
        if not z3.is_true(t):
            isor = False
        if not z3.is_false(f):
            isand = False
        add.append(z3.And(c, f))
        rem.append(z3.And(c, z3.Not(t)))
    if isor:
        b = skolem_free(lp, xs, z3.simplify(z3.Or(*add)))
        return lambda ys: z3.simplify(z3.Or(sc.as_z3(v0), sc.as_z3(preds.exists_many(xs, z3.And(at_guard(lp, xs, g, ys), b)))))
    if isand:
        b = skolem_free(lp, xs, z3.simplify(z3.Or(*rem)))
        return lambda ys: z3.simplify(z3.And(sc.as_z3(v0), z3.Not(sc.as_z3(preds.exists_many(xs, z3.And(at_guard(lp, xs, g, ys), b))))))
    return Poison("flag carried through the loop in an unsupported way")


def eff_str(lp, xs, normal, loc, g):
    from .libs import char_bit, to_bits
    vm = lp.vm
    if lp.coll.ordered is None or len(xs) != 1:
        raise Unsupported("string built over an unordered collection")
    bit = None
    for p in normal:
        nv = path_value(p, loc)
        if not isinstance(nv, StrAcc) or len(nv.added) != 1:
            raise Unsupported("string accumulation")
        b = sc.as_z3(char_bit(vm, nv.added[0]))
        c = path_cond(p)
        if term_has_prefix(b, lp.prefix) or term_has_prefix(c, lp.prefix) or has_fresh(lp, b) or has_fresh(lp, c):
            raise Unsupported("string accumulation depends on earlier iterations")
        bit = b if bit is None else z3.If(c, b, bit)
    q = z3.Int("k!lam")
    lam = z3.Lambda([q], z3.simplify(z3.substitute(bit, (xs[0], q))))
    v0 = lp.pre(loc)
    pre = to_bits(vm, v0)

    def at(ys):
        n = lp.coll.length if ys is None else ys[0]
        return BStr(Bits(list(pre.p) + [(lam, 0, n)]))
    return at


class Bag:
    """elements of several comprehensions, one after the other in an order that is not tracked"""

    def __init__(self, parts):
        self.parts = parts

    def subst_model(self, vm, pairs):
        return Bag([subst_val(vm, x, pairs) for x in self.parts])


def subst_comp(vm, c, pairs):
    bs = [smt.fresh(b.sort(), "sq") for b in c.binders]
    pr = list(pairs) + list(zip(c.binders, bs))

    def facts(zs):
        return [z3.substitute(f, *pairs) for f in c.facts(zs)]
    return SymComp(bs, z3.simplify(z3.substitute(sc.as_z3(c.cond), *pr)), subst_val(vm, c.elem, pr), c.kind, c.ident,
                   facts if c.facts else None)


def same_comp(vm, a, b):
    if len(a.binders) != len(b.binders) or any(x.sort() != y.sort() for x, y in zip(a.binders, b.binders)):
        return False
    pr = list(zip(b.binders, a.binders))
    c = z3.substitute(sc.as_z3(b.cond), *pr)
    if not z3.simplify(c).eq(z3.simplify(sc.as_z3(a.cond))) and vm.known(c == a.cond) is not True:
        return False
    e = subst_val(vm, b.elem, pr)
    if smt.is_z3(e) and smt.is_z3(a.elem):
        return e.eq(a.elem) or vm.known(e == a.elem) is True
    return vm.is_num(e) and vm.is_num(a.elem) and sc.is_zero(Scalar.of(e) - Scalar.of(a.elem)) is True


def eff_bag(lp, xs, normal, loc, g):
    """each iteration adds the elements of comprehensions (built by inner loops)"""
    vm = lp.vm
    pre = lp.pre(loc)
    if pre.items:
        raise Unsupported("append to a non-empty list")
    groups = []
    for p in normal:
        o = path_value(p, loc)
        base = o.base
        parts = base.parts if isinstance(base, Bag) else [base]
        if o.items or not isinstance(parts[0], HavocList) or not str(parts[0].length).startswith(lp.hname(loc)):
            raise Unsupported("list accumulation pattern")
        for c in parts[1:]:
            if not isinstance(c, SymComp):
                raise Unsupported("list accumulation pattern")
            for gr in groups:
                if same_comp(vm, gr[0], c):
                    gr[1].append(path_cond(p))
                    gr[2].append(c.ident)
                    break
            else:
                groups.append((c, [path_cond(p)], [c.ident]))
    built = []
    asms = [e for e, _ in lp.gen_snap[1]]
    for c, conds, ids in groups:
        pc = z3.simplify(z3.Or(*conds))
        if smt.entails(asms, pc, 3000) is True:
            pc = z3.BoolVal(True)
        inner = list(c.binders)
        keep = lp.generic
        lp.generic = keep + inner
        try:
            cond = skolem_free(lp, xs, z3.simplify(z3.And(pc, sc.as_z3(c.cond))))
            el = c.elem
            el = skolem_scalar(lp, xs, el) if isinstance(el, Scalar) else skolem_free(lp, xs, el) if smt.is_z3(el) else el
        finally:
            lp.generic = keep
        if term_has_prefix(cond, lp.prefix) or val_has_prefix(vm, el, lp.prefix) or isinstance(el, Ref):
            raise Unsupported("element depends on earlier iterations")
        built.append((inner, cond, el, c, tuple(ids)))

    def at(ys):
        parts = []
        for inner, cond, el, c, ids in built:
            def facts(zs, inner=inner, c=c):
                m = len(xs)
                pr = list(zip(xs, zs[:m]))
                out = list(lp.coll.facts(zs[:m]))
                if c.facts:
                    out += [z3.substitute(f, *pr) for f in c.facts(zs[m:])]
                return out
            parts.append(SymComp(list(xs) + inner, z3.simplify(z3.And(at_guard(lp, xs, g, ys), cond)), el, "list",
                                 (lp.uid, ids), facts))
        old = [] if pre.base is None else pre.base.parts if isinstance(pre.base, Bag) else [pre.base]
        parts = old + parts
        return ListObj([], parts[0] if len(parts) == 1 else Bag(parts))
    return at


def eff_list(lp, xs, normal, loc, g):
    vm = lp.vm
    pre = lp.pre(loc)
    per = []
    if any(isinstance(path_value(p, loc), ListObj) and isinstance(path_value(p, loc).base, Bag) for p in normal) \
            and not isinstance(pre.base, Bag):
        return eff_bag(lp, xs, normal, loc, g)
    for p in normal:
        o = path_value(p, loc)
        if not isinstance(o, ListObj) or not isinstance(o.base, HavocList):
            raise Unsupported("list changed other than by appending")
        per.append((p, o.items))
    counts = {len(i) for _, i in per}
    for p, items in per:
        c = path_cond(p)
        if term_has_prefix(c, lp.prefix):
            raise Unsupported("list accumulation depends on earlier iterations")
    if counts == {0}:
        return pre
    if counts == {1} and lp.coll.ordered is not None and len(xs) == 1:
        n = lp.coll.length
        elems = [(path_cond(p), items[0], p) for p, items in per]

        def get(k):
            v = elem_at(lp, xs, elems, [k])
            return v

        def at(ys):
            m = n if ys is None else ys[0]
            seq = SymSeq(m, get, "list", ("built", lp.uid))
            if pre.base is None and not pre.items:
                return ListObj([], seq)
            from .libs import list_seq
            a = list_seq(vm, pre)
            na = smt_int(a.length)

            def get2(k):
                if vm.decide(k < na):
                    return a.get(k)
                return get(z3.simplify(k - na))
            return ListObj([], SymSeq(z3.simplify(na + m), get2, "list"))
        return at
    if counts <= {0, 1}:
        old = [] if pre.base is None else pre.base.parts if isinstance(pre.base, Bag) else [pre.base]
        if pre.items or any(not isinstance(x, (HavocList, SymComp)) for x in old):
            raise Unsupported("conditional append to a non-empty list")
        app = [(path_cond(p), items[0], p) for p, items in per if items]
        cond = z3.simplify(z3.Or(*[c for c, _, _ in app]))
        cond = skolem_free(lp, xs, cond)
        v = merge_elems(lp, xs, app)

        def at(ys):
            gg = z3.simplify(z3.And(at_guard(lp, xs, g, ys), cond))
            # a comprehension over a set of positions is a tuple of positions
            if not old and len(xs) == 1 and xs[0].sort() == z3.IntSort() and lp.coll.ordered is not None and smt.is_z3(v) \
                    and v.eq(xs[0]):
                q = z3.Int("k!lam")
                n = lp.coll.length
                if not lp.coll.facts(xs):
                    lam = z3.Lambda([q], z3.simplify(z3.substitute(gg, (xs[0], q))))
                    return ListObj([], PosTuple.full(lam, n, "list"))
            new = SymComp(list(xs), gg, v, "list", lp.uid, lp.coll.facts)
            return ListObj([], Bag(old + [new]) if old else new)
        return at
    # several appends per iteration over an ordered collection
    if lp.coll.ordered is not None and len(counts) == 1 and len(xs) == 1:
        c = counts.pop()
        n = lp.coll.length
        cols = [[(path_cond(p), items[j], p) for p, items in per] for j in range(c)]

        def get(k):
            j = vm.choose([k % c == r for r in range(c)]) if not z3.is_int_value(z3.simplify(k % c)) else z3.simplify(k % c).as_long()
            return elem_at(lp, xs, cols[j], [z3.simplify(k / c)])
        if pre.base is not None or pre.items:
            raise Unsupported("append to a non-empty list")
        return lambda ys: ListObj([], SymSeq(z3.simplify(c * (n if ys is None else ys[0])), get, "list"))
    raise Unsupported("list accumulation pattern")


def merge_elems(lp, xs, app):
    vm = lp.vm
    v = None
    for c, x, p in reversed(app):
        if isinstance(x, Ref) and len(app) > 1 and x.oid not in lp.gen_snap[0]:
            raise Unsupported("objects built under conditions")
        v = x if v is None else vm.merge_val(c, x, v)
        if v is NOMERGE:
            raise Unsupported("elements of different kinds")
    if val_has_prefix(vm, v, lp.prefix):
        raise Unsupported("element depends on earlier iterations")
    if isinstance(v, Ref) and v.oid not in lp.gen_snap[0]:
        raise Unsupported("objects in a filtered list")
    return v


def elem_at(lp, xs, elems, ks):
    """element built at iteration ks"""
    vm = lp.vm
    pairs = list(zip(xs, ks))
    if len(elems) == 1:
        c, v, p = elems[0]
        return import_val(lp, xs, v, p, pairs)
    vals = []
    for c, v, p in elems:
        vals.append((z3.simplify(z3.substitute(skolem_free(lp, xs, c), *pairs)), import_val(lp, xs, v, p, pairs)))
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        r = vm.merge_val(c, v, r)
        if r is NOMERGE:
            i = vm.choose([c for c, _ in vals])
            return vals[i][1]
    return r


def import_val(lp, xs, v, p, pairs):
    """value of a finished iteration, at iteration given by pairs, with the objects it refers to"""
    vm = lp.vm
    if val_has_prefix(vm, v, lp.prefix):
        raise Unsupported("element depends on earlier iterations")
    if isinstance(v, tuple):
        return tuple(import_val(lp, xs, x, p, pairs) for x in v)
    if isinstance(v, Ref):
        if v.oid in lp.gen_snap[0]:
            return v
        o = p.snap[0][v.oid]
        # objects are substituted with the heap of that iteration available
        o = import_obj(lp, xs, o, p, pairs)
        o.readonly = True
        return vm.alloc(o)
    if isinstance(v, Scalar):
        v = skolem_scalar(lp, xs, v)
    elif isinstance(v, z3.ExprRef):
        v = skolem_free(lp, xs, v)
    return subst_val(vm, v, pairs)


def import_obj(lp, xs, o, p, pairs):
    vm = lp.vm
    if isinstance(o, ListObj) and o.base is None:
        return ListObj([import_val(lp, xs, x, p, pairs) for x in o.items])
    if isinstance(o, DictObj):
        return DictObj({k: (q if isinstance(q, bool) else _zs(q, pairs), kk, import_val(lp, xs, v, p, pairs))
                        for k, (q, kk, v) in o.d.items()}, o.default, o.token.at(pairs) if o.token and not o.d else None)
    return subst_obj(vm, o, pairs)


def eff_nd(lp, xs, normal, loc, g):
    pre = lp.pre(loc)
    nm = lp.hname(loc)
    tot = _np.empty(pre.a.shape, dtype=object)
    for i in _np.ndindex(pre.a.shape):
        h = sc.app(nm + "." + "_".join(map(str, i)), real=pre.dtype == "float")
        t = sc.SZERO
        for p in normal:
            t = t + sc.ind(path_cond(p)) * (Scalar.of(path_value(p, loc).a[i]) - h)
        tot[i] = norm_delta(lp, xs, t)

    def at(ys):
        out = _np.empty(pre.a.shape, dtype=object)
        for i in _np.ndindex(pre.a.shape):
            out[i] = Scalar.of(pre.a[i]) + sum_over(xs, sc.ind(at_guard(lp, xs, g, ys)) * tot[i])
        return NdObj(out, pre.dtype)
    return at


def eff_lift(lp, xs, normal, loc, g, kind):
    # a variable that starts as a number and becomes an array in the first iteration
    vm, nm, shape = lp.vm, lp.hname(loc), kind[1]
    v0 = Scalar.of(lp.pre(loc))
    if lp.coll.length is None or vm.known(smt_int(lp.coll.length) >= 1) is not True:
        return Poison("a number or an array after the loop")
    tot = _np.empty(shape, dtype=object)
    for i in _np.ndindex(shape):
        h = sc.app(nm + "." + "_".join(map(str, i)), real=kind[2] == "float")
        t = sc.SZERO
        for p in normal:
            r = path_value(p, loc)
            o = p.snap[0].get(r.oid) if isinstance(r, Ref) else None
            if not isinstance(o, NdObj) or o.a.shape != shape:
                return Poison("accumulator of changing type")
            t = t + sc.ind(path_cond(p)) * (Scalar.of(o.a[i]) - h)
        tot[i] = norm_delta(lp, xs, t)

    def at(ys):
        if ys is not None:
            return Poison("a number or an array inside the loop")
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(shape):
            out[i] = v0 + sum_over(xs, sc.ind(g) * tot[i])
        return vm.alloc(NdObj(out, kind[2]))
    return at


def eff_symnd(lp, xs, normal, loc, g):
    pre = lp.pre(loc)
    nm = lp.hname(loc)
    ix = tuple(smt.fresh_int("ix") for _ in pre.shape)
    lp.generic += list(ix)
    t = sc.SZERO
    for p in normal:
        t = t + sc.ind(path_cond(p)) * (Scalar.of(path_value(p, loc).get(ix)) - sc.app(nm, *ix))
    t = drop_zero_terms(t)
    try:
        t = norm_delta(lp, xs, t)
    except Unsupported:
        t = independent(lp, xs, normal, loc, nm, ix, t, lambda a: Scalar.of(pre.get(a)))

    ws = array_writes(normal, loc)

    def at(ys):
        r = type(pre)(pre.shape, lambda jx: Scalar.of(pre.get(jx)) + sc.subst(
            sum_over(xs, sc.ind(at_guard(lp, xs, g, ys)) * t), list(zip(ix, [smt_int(j) for j in jx]))), pre.dtype)
        if ws is not None and pre.writes is not None and not any(
                any(term_has_prefix(e, lp.prefix) for e in [c] + [i for i in k if i is not None]) for c, k, bs in ws):
            gd = at_guard(lp, xs, g, ys)
            r.writes = pre.writes + tuple(("set", k, (tuple(xs) + tuple(bs), z3.And(gd, c))) for c, k, bs in ws)
        return r
    return at


def array_writes(normal, loc):
    """[(condition, index, binders)] of the entries an iteration may write, or None"""
    out = []
    for p in normal:
        o = path_value(p, loc)
        if getattr(o, "writes", None) is None:
            return None
        for op, k, (bs, c) in o.writes:
            out.append((z3.And(path_cond(p), c), k, bs))
    return out


def eff_dict(lp, xs, normal, loc, g):
    pre = lp.pre(loc)
    nm = lp.hname(loc)
    tot = {}
    for p in normal:
        o = path_value(p, loc)
        if not isinstance(o, DictObj) or set(o.d) != set(pre.d):
            raise Unsupported("keys of a dictionary change in a symbolic loop")
    for j, (k, (pr, kk, v)) in enumerate(pre.d.items()):
        h = sc.app(nm + ".%d" % j)
        t = sc.SZERO
        for p in normal:
            o = path_value(p, loc)
            if not isinstance(o, DictObj) or set(o.d) != set(pre.d):
                raise Unsupported("keys of a dictionary change in a symbolic loop")
            t = t + sc.ind(path_cond(p)) * (Scalar.of(o.d[k][2]) - h)
        tot[k] = norm_delta(lp, xs, t)

    def at(ys):
        return DictObj({k: (pr, kk, Scalar.of(v) + sum_over(xs, sc.ind(at_guard(lp, xs, g, ys)) * tot[k]))
                        for k, (pr, kk, v) in pre.d.items()}, pre.default)
    return at


def subst_fn(t, name, f):
    """replace applications of the z3 function `name` (or the constant) by f(args)"""
    if not smt.is_z3(t):
        return t
    memo = {}

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(e) or not z3.is_app(e):
            r = e
        else:
            cs = [go(c) for c in e.children()]
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() == name:
                r = sc.as_z3(f(*cs))
            elif any(not a.eq(b) for a, b in zip(cs, e.children())):
                r = e.decl()(*cs) if not z3.is_and(e) and not z3.is_or(e) else (z3.And(*cs) if z3.is_and(e) else z3.Or(*cs))
            else:
                r = e
        memo[i] = (e, r)
        return r
    return z3.simplify(go(t)) if not isinstance(t, bool) else t


def pre_map(lp, loc, kind):
    o = lp.pre(loc)
    if isinstance(o, DictObj):
        if o.d:
            raise Unsupported("mixed keys")
        return empty_map(kind[1], kind[2])
    return o


def subst_scalar_fn(s, name, f, dname, df):
    """replace atoms name(args) by f(args) and domain literals dname(t) by df(t)"""
    r = sc.SZERO
    for (g, m), v in s.t.items():
        x = Scalar({(frozenset(), ()): v})
        for i in g:
            x = x * sc.ind(fix_cond(sc.LITS[i], name, f, dname, df))
        for i, e in m:
            x = x * _atom_fn(sc.ATOMS[i], name, f, dname, df) ** e
        r = r + x
    return r


def fix_cond(t, name, f, dname, df):
    """conditions on scalars mentioning the havocked values are rebuilt"""
    if z3.is_not(t):
        return z3.Not(sc.as_z3(fix_cond(t.arg(0), name, f, dname, df)))
    c = sc.cond_of(t)
    if c is not None and scalar_has_prefix(c[1], name):
        p = subst_scalar_fn(c[1], name, f, dname, df)
        return sc.as_z3(sc.cond_nz(p) if c[0] == "nz" else sc.cond_lt0(p))
    return subst_fn(t, dname, df)


def _atom_fn(a, name, f, dname, df):
    if a.kind == "app":
        if a.data[0] == name:
            return Scalar.of(f(*a.data[1]))
        return Scalar.atom(a)
    if a.kind == "conj":
        return _atom_fn(a.data, name, f, dname, df).conj()
    rec = lambda s: subst_scalar_fn(s, name, f, dname, df)
    if a.kind == "inv":
        return rec(a.data).inverse()
    if a.kind == "exp":
        return sc.exp(rec(a.data))
    if a.kind == "sqrt":
        return sc.sqrt(rec(a.data))
    if a.kind == "abs":
        return sc.absval(rec(a.data))
    if a.kind == "sum":
        sort, b, body = a.data
        y = smt.fresh(b.sort(), "y")
        return sc.Sum(y, rec(sc.subst(body, [(b, y)])))
    raise NotImplementedError


def written_keys(normal, loc):
    out = []
    for p in normal:
        o = path_value(p, loc)
        if getattr(o, "writes", None) is None:
            return None
        for op, k, v in o.writes:
            if op.startswith("bulk"):
                return None
            if op != "if":
                out.append((path_cond(p), op, k))
    return out


def touched_at(o, q):
    """condition under which the logged writes may have changed the entry of q"""
    cs = []
    for op, k, v in o.writes:
        if op.startswith("bulk"):
            cs.append(sc.as_z3(v(q)))
        elif op != "if":
            cs.append(k == q)
    return z3.simplify(z3.Or(*cs)) if cs else z3.BoolVal(False)


def bulk_ok(lp, xs, normal, loc, nm, dname, q):
    """whole ranges of keys are written: every entry depends on its own old value only, and at most one iteration writes it"""
    if any(getattr(path_value(p, loc), "writes", None) is None for p in normal):
        return False
    for p in normal:
        o = path_value(p, loc)
        if hv_args(path_cond(p), nm, dname):
            return False
        if any(not a.eq(q) for a in hv_args(Scalar.of(o.val(q)), nm, dname) + hv_args(sc.as_z3(o.dom(q)), nm, dname)):
            return False
    asms = [e for e, _ in lp.gen_snap[1]]
    ys = lp.coll.fresh()
    pr = list(zip(xs, ys))
    asms2 = [z3.substitute(e, *pr) for e in asms if any(sc.occurs(x, e) for x in xs)]
    diff = z3.Or(*[x != y for x, y in pr])
    ts = [skolem_free(lp, xs, z3.And(path_cond(p), touched_at(path_value(p, loc), q))) for p in normal]
    for a in ts:
        for b in ts:
            if smt.entails(asms + asms2 + [diff, a], z3.Not(z3.substitute(b, *pr)), 5000) is not True:
                return False
    return True


def hv_args(s, name, dname):
    """arguments at which the havocked map is read"""
    out = []

    def put(t):
        if not any(t.eq(u) for u in out):
            out.append(t)

    def lit(t):
        st, seen = [t], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                if e.decl().name() == dname:
                    put(e.arg(0))
                if e.decl().name() in sc.COND_T:
                    scan(sc.cond_of(e)[1])
                st.extend(e.children())

    def scan(x):
        for i in x.guards():
            lit(sc.LITS[i])
        for i in x.atoms():
            at(sc.ATOMS[i])

    def at(a):
        if a.kind == "app":
            if a.data[0] == name:
                put(a.data[1][0])
        elif a.kind == "conj":
            at(a.data)
        elif a.kind == "sum":
            if _atom_has_prefix(a, name):
                raise Unsupported("sum over a map being changed")
        else:
            scan(a.data)
    if isinstance(s, Scalar):
        scan(s)
    else:
        lit(s)
    return out


def independent_ok(lp, xs, keys_w, reads):
    """no iteration writes what another iteration reads or writes"""
    vm = lp.vm
    asms = [e for e, _ in lp.gen_snap[1]]
    ys = lp.coll.fresh()
    pr = list(zip(xs, ys))
    asms2 = [z3.substitute(e, *pr) for e in asms if any(sc.occurs(x, e) for x in xs)]
    diff = z3.Or(*[x != y for x, y in zip(xs, ys)])
    for c, op, k in keys_w:
        ck = skolem_free(lp, xs, k)
        for c2, r in reads:
            c2s = z3.substitute(skolem_free(lp, xs, c2), *pr)
            rs = z3.substitute(skolem_free(lp, xs, r), *pr)
            if term_has_prefix(c, lp.prefix):
                c = z3.BoolVal(True)
            if term_has_prefix(c2s, lp.prefix):
                c2s = z3.BoolVal(True)
            if smt.entails(asms + asms2 + [c, c2s, diff], ck != rs, 5000) is not True:
                return False
    return True


def drop_irrelevant(lp, phi, asms, have=None):
    """phi without the literals on havocked state that it does not depend on (unless `have` holds anyway)"""
    for _ in range(8):
        a = _hv_literal(phi, lp.prefix)
        if a is None:
            return phi
        t = z3.simplify(z3.substitute(phi, (a, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(phi, (a, z3.BoolVal(False))))
        if t.eq(f) or smt.entails(asms, t == f, 3000) is True:
            phi = t
        elif have is not None and smt.entails(asms + [z3.Not(have), a], t == f, 3000) is True:
            phi = f
        elif have is not None and smt.entails(asms + [z3.Not(have), z3.Not(a)], t == f, 3000) is True:
            phi = t
        else:
            return phi
    return phi


def _hv_literal(phi, prefix):
    todo = [phi]
    while todo:
        t = todo.pop()
        if not z3.is_app(t) or not isinstance(t, z3.BoolRef):
            continue
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and term_has_prefix(t, prefix):
            return t
        todo += t.children()
    return None


def eff_map(lp, xs, normal, loc, g, kind):
    vm = lp.vm
    keys = kind[1]
    pre = pre_map(lp, loc, kind)
    nm = lp.hname(loc)
    dname = nm + ".dom"
    q = smt.fresh(keys.sort, "key")
    lp.generic.append(q)
    H = z3.Function(dname, keys.sort, z3.BoolSort())
    if kind[2] != "scalar":
        return eff_map_other(lp, xs, normal, loc, g, kind, pre, nm, dname, q, H)
    total = sc.SZERO
    domn = []
    for p in normal:
        o = path_value(p, loc)
        c = path_cond(p)
        if isinstance(o, DictObj):
            raise Unsupported("map replaced by another object")
        total = total + sc.ind(c) * (Scalar.of(o.val(q)) - sc.app(nm, q))
        domn.append((c, sc.as_z3(o.dom(q))))
    total = drop_zero_terms(split_neq(total, q))
    asms = [e for e, _ in lp.gen_snap[1]] + [f for f in keys.valid(vm, q)]
    # pattern (i): accumulation
    reason = None
    try:
        if scalar_has_prefix(total, lp.prefix):
            total = merge_eq(total, q, lp.prefix, asms)
        tot = norm_delta(lp, xs, total)
        adds = []
        for c, d in domn:
            d1 = z3.simplify(z3.substitute(d, (H(q), z3.BoolVal(True))))
            if not z3.is_true(d1) and smt.entails(asms + [c, H(q)], d) is not True:
                raise Unsupported("entries are removed")
            adds.append(z3.And(c, d))
        add = z3.simplify(z3.Or(*adds)) if adds else z3.BoolVal(False)
        star = drop_irrelevant(lp, subst_fn(add, dname, lambda k: z3.BoolVal(False)), asms, H(q))
        if term_has_prefix(star, lp.prefix) or smt.entails(
                asms, z3.Or(H(q), add) == z3.Or(H(q), star)) is not True:
            raise Unsupported("new keys depend on earlier iterations")
        star = skolem_free(lp, xs, star)

        def at(ys):
            gg = at_guard(lp, xs, g, ys)
            S = sum_over(xs, sc.ind(gg) * tot)
            E = sc.as_z3(one_point_exists(xs, z3.simplify(z3.And(gg, star))))
            m = MapObj(keys, lambda k: _bor(pre.dom(k), z3.simplify(z3.substitute(E, (q, k)))),
                       lambda k: Scalar.of(pre.val(k)) + drop_zero_terms(sc.subst(S, [(q, k)])), "scalar",
                       pre.facts if pre.facts and not z3.is_false(star) else pre.facts)
            m.writes = None
            if isinstance(lp.pre(loc), MapObj) and lp.pre(loc).facts:
                m.facts = ()
            m.facts = tuple(inv_key_facts(lp, loc, m))
            return m
        return at
    except Unsupported as e:
        reason = e
    # pattern (ii): iterations that do not touch each other's keys
    ws = written_keys(normal, loc)
    if ws is None and not bulk_ok(lp, xs, normal, loc, nm, dname, q):
        raise reason
    reads = [(c, k) for c, op, k in ws or []]
    for p in normal if ws is not None else []:
        o = path_value(p, loc)
        c = path_cond(p)
        for a in hv_args(c, nm, dname):
            reads.append((c, a))
        for op, k, v in o.writes:
            if isinstance(v, Scalar):
                for a in hv_args(v, nm, dname):
                    reads.append((c, a))
    if ws is not None and not independent_ok(lp, xs, ws, reads):
        raise reason
    f0 = lambda k: pre.val(k)
    d0 = lambda k: sc.as_z3(pre.dom(k))
    tot = sc.SZERO
    doms = []
    for p in normal:
        o = path_value(p, loc)
        c0 = fix_cond_all(path_cond(p), nm, f0, dname, d0)
        if term_has_prefix(c0, lp.prefix):
            raise reason
        val = subst_scalar_fn(Scalar.of(o.val(q)) - sc.app(nm, q), nm, f0, dname, d0)
        tot = tot + sc.ind(c0) * val
        touched = touched_at(o, q)
        dd = subst_fn(sc.as_z3(o.dom(q)), dname, d0)
        if term_has_prefix(dd, lp.prefix):
            raise reason
        doms.append((c0, touched, dd))
    if scalar_has_prefix(tot, lp.prefix):
        raise reason
    tot = drop_zero_terms(skolem_scalar(lp, xs, split_neq(tot, q)))

    def at2(ys):
        gg = at_guard(lp, xs, g, ys)
        S = sum_over(xs, sc.ind(gg) * tot)
        ins = z3.simplify(z3.Or(*[z3.And(gg, c, t, d) for c, t, d in doms]))
        outs = z3.simplify(z3.Or(*[z3.And(gg, c, t, z3.Not(d)) for c, t, d in doms]))
        EI = sc.as_z3(one_point_exists(xs, skolem_free(lp, xs, ins)))
        EO = sc.as_z3(one_point_exists(xs, skolem_free(lp, xs, outs)))
        m = MapObj(keys,
                   lambda k: z3.simplify(z3.Or(z3.substitute(EI, (q, k)),
                                               z3.And(sc.as_z3(pre.dom(k)), z3.Not(z3.substitute(EO, (q, k)))))),
                   lambda k: Scalar.of(pre.val(k)) + drop_zero_terms(sc.subst(S, [(q, k)])), "scalar", ())
        m.facts = tuple(f for f in pre.facts) if z3.is_false(z3.simplify(EI)) else ()
        m.facts += tuple(inv_key_facts(lp, loc, m))
        m.writes = None
        if ys is None and isinstance(lp.pre(loc), MapObj) and pre.writes is not None:
            ET = z3.simplify(z3.Or(EI, EO))
            m.writes = pre.writes + (("bulk", None, lambda k: z3.substitute(ET, (q, k))),)
        return m
    return at2


def fix_cond_all(t, name, f, dname, df):
    if z3.is_and(t):
        return z3.And(*[fix_cond_all(c, name, f, dname, df) for c in t.children()])
    if z3.is_or(t):
        return z3.Or(*[fix_cond_all(c, name, f, dname, df) for c in t.children()])
    if z3.is_not(t):
        return z3.Not(fix_cond_all(t.arg(0), name, f, dname, df))
    return sc.as_z3(fix_cond(t, name, f, dname, df))


def inv_key_facts(lp, loc, m):
    """adopted key invariants of this map hold for its final domain"""
    out = []
    for iv in lp.invs:
        if iv.loc == loc and iv.kind == "key":
            out.append(lambda k, f=iv.f: z3.Implies(sc.as_z3(m.dom(k)), sc.as_z3(f(k))))
    return out


def eff_map_other(lp, xs, normal, loc, g, kind, pre, nm, dname, q, H):
    """map of arbitrary values: each iteration stores at keys no other iteration touches"""
    vm = lp.vm
    keys = kind[1]
    ws = written_keys(normal, loc)
    if ws is None:
        raise Unsupported("map of objects changed in an unsupported way")
    if any(op != "set" for _, op, _ in ws):
        raise Unsupported("entries removed from a map of objects")
    if any(term_has_prefix(c, lp.prefix) for c, _, _ in ws):
        raise Unsupported("stores depend on earlier iterations")
    ent = []
    for p in normal:
        o = path_value(p, loc)
        if len(o.writes) > 1 or any(op != "set" for op, _, _ in o.writes):
            raise Unsupported("several stores per iteration")
        for op, k, v in o.writes:
            ent.append((path_cond(p), k, v, p))
    if not independent_ok(lp, xs, ws, [(c, k) for c, _, k in ws]):
        raise Unsupported("stores of different iterations may overwrite each other")
    inv = []
    for c, k, v, p in ent:
        sol = invert(xs, k, q, lambda d: smt.entails([e for e, _ in lp.gen_snap[1]] + [g, c], d) is True)
        if sol is None:
            raise Unsupported("stored key cannot be inverted")
        inv.append((c, sol, v, p))

    def at(ys):
        gg = at_guard(lp, xs, g, ys)

        def dom(k):
            cs = [sc.as_z3(pre.dom(k))]
            for c, (ts, res), v, p in inv:
                pr = [(x, z3.substitute(t, (q, k))) for x, t in zip(xs, ts)]
                cs.append(z3.And(z3.substitute(z3.And(gg, c), *pr), z3.substitute(res, (q, k))))
            return z3.simplify(join_cases(cs))

        def val(k):
            conds, vals = [], []
            for c, (ts, res), v, p in inv:
                pr = [(x, z3.substitute(t, (q, k))) for x, t in zip(xs, ts)]
                conds.append(z3.simplify(z3.And(z3.substitute(z3.And(gg, c), *pr), z3.substitute(res, (q, k)))))
                vals.append((v, p, pr))
            conds.append(z3.simplify(z3.Not(z3.Or(*conds))))
            i = None
            for j, c in enumerate(conds):
                if vm.known(c) is True:
                    i = j
                    break
            if i is None:
                i = vm.choose(conds)
            if i == len(vals):
                return pre.val(k)
            v, p, pr = vals[i]
            return import_val(lp, xs, v, p, pr)
        m = MapObj(keys, dom, val, kind[2], ())
        m.writes = None
        return m
    return at


def join_cases(cs):
    """disjunction of the conditions, where A and c, A and not c become A"""
    todo = [{l.get_id(): l for l in sc._lits(z3.simplify(sc.as_z3(c)))} for c in cs]
    todo = [d for d in todo if not any(z3.is_false(l) for l in d.values())]
    again = True
    while again:
        again = False
        for i in range(len(todo)):
            for j in range(i):
                a, b = ([todo[u][x] for x in todo[u] if x not in todo[v]] for u, v in ((i, j), (j, i)))
                if len(a) == len(b) == 1 and z3.is_true(z3.simplify(a[0] == z3.Not(b[0]))):
                    common = {x: l for x, l in todo[i].items() if x in todo[j]}
                    todo = [d for u, d in enumerate(todo) if u not in (i, j)] + [common]
                    again = True
                    break
            if again:
                break
    return z3.Or(*[z3.And(*d.values()) for d in todo])


def invert(xs, k, q, known=lambda c: False):
    """xs as a function of q when q == k(xs): ([terms], residual condition) or None"""
    if len(xs) != 1:
        return None
    x = xs[0]
    if k.eq(x):
        return [q], z3.BoolVal(True)
    if z3.is_app(k) and k.decl().name() in sc.INVOLUTIONS and k.arg(0).eq(x):
        return [sc.INVOLUTIONS[k.decl().name()](q)], z3.BoolVal(True)
    call = sc._call_of(k, sc.INVERSES, x)
    if call:
        v, ps = call
        g, image = sc.INVERSES[k.decl().name()]
        r = invert(xs, v, g(q, *ps))
        return None if r is None else (r[0], z3.simplify(z3.And(r[1], image(q, *ps))))
    call = sc._call_of(k, sc.COND_INVERSES, x)
    if call:
        v, ps = call
        g, image, dom = sc.COND_INVERSES[k.decl().name()]
        if v.eq(x) and known(dom(x, *ps)):
            return [g(q, *ps)], z3.simplify(image(q, *ps))
    if x.sort() == z3.IntSort() and k.sort() == z3.IntSort():
        d = z3.simplify(k - x)
        if not sc.occurs(x, d):
            return [z3.simplify(q - d)], z3.BoolVal(True)
    return None


def one_point_exists(xs, body):
    """exists xs. body, using x == t inside disjuncts when possible"""
    if z3.is_false(body):
        return z3.BoolVal(False)
    ds = body.children() if z3.is_or(body) else [body]
    out = []
    for d in ds:
        lits = sc._lits(d)
        rest = list(xs)
        changed = True
        while changed and rest:
            changed = False
            for x in rest:
                for i, l in enumerate(lits):
                    t, extra = sc.solve_for(x, l, lits)
                    if t is not None:
                        lits = [z3.simplify(z3.substitute(m, (x, t))) for j, m in enumerate(lits) if j != i] + extra
                        lits = [m for y in lits for m in sc._lits(y)]
                        rest = [r for r in rest if not r.eq(x)]
                        changed = True
                        break
                if changed:
                    break
        b = z3.simplify(z3.And(*lits)) if lits else z3.BoolVal(True)
        for x in reversed(rest):
            b = sc.as_z3(preds.exists(x, b))
        out.append(b)
    return z3.simplify(z3.Or(*out))


def _bor(a, b):
    r = z3.simplify(z3.Or(sc.as_z3(a), sc.as_z3(b)))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def eff_set(lp, xs, normal, loc, g, kind):
    keys = kind[1]
    pre = lp.pre(loc)
    q = smt.fresh(keys.sort, "key")
    lp.generic.append(q)
    dname = lp.hname(loc) + ".dom"
    H = z3.Function(dname, keys.sort, z3.BoolSort())
    d0 = (lambda k: False) if isinstance(pre, SetObj) else pre.dom
    if isinstance(pre, SetObj) and pre.d:
        raise Unsupported("set with concrete members")
    asms = [e for e, _ in lp.gen_snap[1]]
    adds, rems = [], []
    for p in normal:
        d = sc.as_z3(path_value(p, loc).dom(q)) if isinstance(path_value(p, loc), SymSetObj) else None
        if d is None:
            raise Unsupported("set changed kind")
        c = path_cond(p)
        if adds is not None and smt.entails(asms + [c, H(q)], d) is True:
            adds.append(z3.And(c, d))
        else:
            adds = None
        if rems is not None and smt.entails(asms + [c, d], H(q)) is True:
            rems.append(z3.And(c, z3.Not(d)))
        else:
            rems = None
    if adds is None and rems is None:
        raise Unsupported("members are removed in a loop")
    if adds is None:
        # members are removed only
        star = subst_fn(z3.simplify(z3.Or(*rems)), dname, lambda k: z3.BoolVal(True))
        if term_has_prefix(star, lp.prefix) or smt.entails(asms + [H(q)], z3.simplify(z3.Or(*rems)) == star) is not True:
            raise Unsupported("removed members depend on earlier iterations")
        star = skolem_free(lp, xs, star)

        def at_rem(ys):
            E = sc.as_z3(one_point_exists(xs, z3.simplify(z3.And(at_guard(lp, xs, g, ys), star))))
            return SymSetObj(keys, lambda k: z3.simplify(z3.And(sc.as_z3(d0(k)), z3.Not(z3.substitute(E, (q, k))))))
        return at_rem
    add = z3.simplify(z3.Or(*adds))
    star = subst_fn(add, dname, lambda k: z3.BoolVal(False))
    if term_has_prefix(star, lp.prefix) or smt.entails(asms, z3.Or(H(q), add) == z3.Or(H(q), star)) is not True:
        raise Unsupported("new members depend on earlier iterations")
    star = skolem_free(lp, xs, star)

    def at(ys):
        E = sc.as_z3(one_point_exists(xs, z3.simplify(z3.And(at_guard(lp, xs, g, ys), star))))
        return SymSetObj(keys, lambda k: _bor(d0(k), z3.substitute(E, (q, k))))
    return at


def array_reads(x, nm):
    """indices at which the havocked array is read in x"""
    out, seen = [], set()

    def scal(y):
        for (_, m) in y.t:
            for i, _e in m:
                at(sc.ATOMS[i])
        for i in y.guards():
            lit(sc.LITS[i])

    def lit(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in sc.COND_T:
            scal(sc.cond_of(e)[1])
        for k in e.children():
            lit(k)

    def at(a):
        if a.kind == "app":
            if a.data[0] == nm:
                out.append(a.data[1])
        elif a.kind == "conj":
            at(a.data)
        elif a.kind == "sum":
            if _atom_has_prefix(a, nm):
                raise Unsupported("sum over an array being changed")
        else:
            scal(a.data)
    scal(x)
    return out


def independent(lp, xs, normal, loc, nm, ix, t, f0):
    """array entries written by one iteration only"""
    ws = array_writes(normal, loc)
    if ws is None:
        raise Unsupported("array written in an unsupported way")
    vm = lp.vm
    asms = [e for e, _ in lp.gen_snap[1]]
    ys = lp.coll.fresh()
    pr = list(zip(xs, ys))
    asms2 = [z3.substitute(e, *pr) for e in asms if any(sc.occurs(x, e) for x in xs)]
    diff = z3.Or(*[x != y for x, y in zip(xs, ys)])
    for c, k, bs in ws:
        if any(term_has_prefix(e, lp.prefix) for e in [c] + [i for i in k if i is not None]):
            raise Unsupported("array write depends on earlier iterations")
        for c2, k2, bs2 in ws:
            other = pr + [(b, smt.fresh(b.sort(), "w")) for b in bs2]      # the other iteration's inner loops
            # None: a whole axis
            same = z3.And(*[a == z3.substitute(b, *other) for a, b in zip(k, k2) if a is not None and b is not None])
            if smt.entails(asms + asms2 + [c, z3.substitute(c2, *other), diff], z3.Not(same), 5000) is not True:
                raise Unsupported("array entries written by several iterations")
    r = sc.SZERO
    for p in normal:
        v = Scalar.of(path_value(p, loc).get(ix)) - sc.app(nm, *ix)
        for rd in array_reads(v, nm):
            if len(rd) != len(ix) or not all(smt.is_z3(i) and i.eq(j) for i, j in zip(rd, ix)):
                raise Unsupported("an array entry depends on other entries written in the loop")
        v = subst_scalar_fn(v, nm, lambda *a: f0(a), "", None) if scalar_has_prefix(v, nm) else v
        r = r + sc.ind(path_cond(p)) * v
    return norm_delta(lp, xs, r)


# ---------------------------------------------------------------- invariants (Houdini)

class Inv:
    def __init__(self, loc, kind, f, fact, at):
        self.loc, self.kind, self.f, self.fact, self.at = loc, kind, f, fact, at

    def __call__(self, xs):
        return self.fact


class OwnKeys:
    """what an iteration finds at keys only it touches: the entries from before the loop (by induction on the
    iterations; independence is established from their writes)"""
    kind = "own"

    def __init__(self, loc, xs, eqs):
        self.loc, self.xs, self.eqs = loc, xs, eqs

    def __call__(self, xs):
        return z3.substitute(z3.And(*self.eqs), *zip(self.xs, xs))


def own_ok(lp, loc, xs, paths):
    """no iteration writes a key of this map that another iteration reads or writes"""
    normal = [p for p in paths if p.kind in ("ok", "continue")]
    ws = written_keys(normal, loc)
    if ws is None:
        return False
    nm = lp.hname(loc)
    oxs, okey = lp.own.get(loc, (xs, xs[0]))
    reads = [(z3.BoolVal(True), k) for _, _, k in ws] + [(z3.BoolVal(True), z3.simplify(z3.substitute(okey, *zip(oxs, xs))))]
    try:
        for p in paths:
            reads += [(z3.BoolVal(True), a) for a in hv_args(path_cond(p), nm, nm + ".dom")]
    except Unsupported:
        return False
    reads += [(z3.BoolVal(True), k) for k in lp.reads.get(loc, [])]
    us = []
    for c, k in reads:
        if not any(k.eq(u) for _, u in us):
            us.append((c, k))
    if any(has_fresh(lp, k) or term_has_prefix(k, lp.prefix) for _, k in us):
        return False
    return independent_ok(lp, xs, ws, us)


def own_keys(lp, xs, paths):
    out = []
    normal = [p for p in paths if p.kind in ("ok", "continue")]
    for loc, kind in lp.hav.items():
        if kind[0] != "map" or loc in lp.exact:
            continue
        ws = written_keys(normal, loc)
        pre = _dom_of(lp.pre(loc), kind[1])
        if not ws or pre is None or any(iv.loc == loc and iv.kind == "own" for iv in lp.invs):
            continue
        nm = lp.hname(loc)
        reads = []
        try:
            for p in paths:
                c = path_cond(p)
                reads += [(z3.BoolVal(True), a) for a in hv_args(c, nm, nm + ".dom")]
            for p in normal:
                for op, k, v in path_value(p, loc).writes:
                    if isinstance(v, Scalar):
                        reads += [(z3.BoolVal(True), a) for a in hv_args(v, nm, nm + ".dom")]
        except Unsupported:
            continue
        ks = []
        for k in [k for _, _, k in ws] + [k for _, k in reads]:
            if not any(k.eq(u) for u in ks):
                ks.append(k)
        if any(has_fresh(lp, k) or term_has_prefix(k, lp.prefix) for k in ks):
            continue
        if not independent_ok(lp, xs, ws, reads + [(z3.BoolVal(True), k) for _, _, k in ws]):
            continue
        H = z3.Function(nm + ".dom", kind[1].sort, z3.BoolSort())
        out.append(OwnKeys(loc, list(xs), [H(k) == sc.as_z3(pre(k)) for k in ks]))
    return out


def _dom_of(o, keys):
    if isinstance(o, DictObj):
        return (lambda k: False) if not o.d else None
    return o.dom


def find_invariants(lp, xs=None, paths=None):
    vm = lp.vm
    own = own_keys(lp, xs, paths) if xs is not None else []
    keep0 = list(lp.invs) + own
    if own:
        lp.invs = keep0
        houdini(lp, keep0)
        return True
    return houdini(lp, keep0)


def key_candidates(lp, locs=None):
    """invariants on the keys of maps proposed by the contract, true before the loop"""
    vm = lp.vm
    maps = [(loc, kind) for loc, kind in lp.hav.items() if kind[0] == "map" and loc not in lp.exact]
    cands = []
    for loc, kind in maps:
        if locs is not None and loc not in locs:
            continue
        H = z3.Function(lp.hname(loc) + ".dom", kind[1].sort, z3.BoolSort())
        y = z3.Const("!inv", kind[1].sort)
        for kk, fn in vm.key_invariants:
            if kk is kind[1]:
                fact = z3.ForAll([y], z3.Implies(H(y), sc.as_z3(fn(y))), patterns=[H(y)])
                cands.append(Inv(loc, "key", fn, fact, None))
        for loc2, kind2 in maps:
            if loc2 == loc or kind2[1] is not kind[1]:
                continue
            H2 = z3.Function(lp.hname(loc2) + ".dom", kind[1].sort, z3.BoolSort())
            fact = z3.ForAll([y], z3.Implies(H(y), H2(y)), patterns=[H(y)])
            cands.append(Inv(loc, "sub", loc2, fact, None))
            if locs is not None and loc2 not in locs:
                fact = z3.ForAll([y], z3.Implies(H2(y), H(y)), patterns=[H2(y)])
                cands.append(Inv(loc2, "sub", loc, fact, None))
    if not cands:
        return []
    snap = vm.save()
    vm.restore(lp.snap0)
    asms0 = vm.asms()
    cands = [c for c in cands if inv_holds(lp, c, lp.snap0[0], asms0)]
    vm.restore(snap)
    return cands


def inv_holds(lp, iv, heap, asms):
    vm = lp.vm
    kind = lp.hav[iv.loc]
    q = smt.fresh(kind[1].sort, "key")
    o = heap[iv.loc[1]]
    d = _dom_of(o, kind[1])
    if d is None:
        return False
    lhs = sc.as_z3(d(q))
    if iv.kind == "key":
        rhs = sc.as_z3(iv.f(q))
    else:
        d2 = _dom_of(heap[iv.f[1]], kind[1])
        if d2 is None:
            return False
        rhs = sc.as_z3(d2(q))
    val = list(kind[1].valid(vm, q))
    if isinstance(o, MapObj):
        val += [sc.as_z3(f(q)) for f in o.facts]
    return smt.entails(asms + val, z3.Implies(lhs, rhs), 5000) is True


def verify_invariants(lp, keep0, cands, paths=None):
    """drop candidates that an iteration does not preserve, until the rest is inductive"""
    while cands:
        lp.invs = keep0 + cands
        if paths is None:
            paths = lp.run_generic(lp.coll.fresh())
        keep = []
        for c in cands:
            if all(inv_holds(lp, c, p.snap[0], [e for e, _ in p.snap[1]])
                   for p in paths if p.kind in ("ok", "continue")):
                keep.append(c)
        if len(keep) == len(cands):
            break
        cands, paths = keep, None
    lp.invs = keep0 + cands
    return cands


def houdini(lp, keep0):
    old = [c for c in keep0 if isinstance(c, Inv)]
    cands = [c for c in key_candidates(lp) if not any(c.loc == o.loc and c.kind == o.kind and c.f is o.f for o in old)]
    if not cands:
        return False
    return bool(verify_invariants(lp, keep0, cands))


# ---------------------------------------------------------------- helpers used by the library model

def run_symbolic(vm, src, fn):
    cell = {}

    def bind(v):
        cell["v"] = v
    summarise(vm, src, bind, lambda: fn(cell["v"]), lambda: None, None)


def sum_collection(vm, v, start):
    import ast
    fr = vm.alloc(FrameObj({"acc": start}, "<sum>", None, "<sum>"))
    cell = {}

    def bind(x):
        vm.mut(fr).vars["x"] = x

    def body():
        f = vm.get(fr)
        r = vm.binop(ast.Add(), force(f.vars["acc"]), force(f.vars["x"]))
        vm.mut(fr).vars["acc"] = r
    summarise(vm, v, bind, body, lambda: None, fr)
    r = force(vm.get(fr).vars["acc"])
    if isinstance(r, Poison):
        raise Unsupported("sum over a collection")
    return r


def while_loop(vm, st, fr, n):
    raise Unsupported("while loop with an undecided condition")
