"""C09: the starting basis, for symbolic numbers of bath states, occupations and limits."""
import itertools

from .base import *
from pyvc import preds
from .spectra_model import Handle
from pyvc.libs import CNT, CANON, restricted

MOD = ED + ".finite"
PSR = ED + ".product_state_representation"


class Spec:
    """the arguments of get_basis for the shells ls"""

    def __init__(self, vm, ls, empty):
        self.ls = ls
        self.par = {}
        o = z3.IntVal(sum(2 * (2 * l + 1) for l in ls))
        imp = 0
        self.blocks = []                # (l, what, lo, hi)
        for l, (v0, c0) in zip(ls, empty):
            p = {x: smt.fresh_int(x) for x in ("nB", "val", "dv", "dc", "tol", "n0")}
            v = z3.IntVal(0) if v0 else p["val"]
            c = z3.IntVal(0) if c0 else smt.fresh_int("con")
            if not v0:
                vm.assume(v >= 1)
            if not c0:
                vm.assume(c >= 1)
            p["val"], p["con"], p["nB"] = v, c, z3.simplify(v + c)
            self.par[l] = p
            w = 2 * (2 * l + 1)
            self.blocks += [(l, "imp", z3.IntVal(imp), z3.IntVal(imp + w)), (l, "val", o, z3.simplify(o + v)),
                            (l, "con", z3.simplify(o + v), z3.simplify(o + v + c))]
            imp += w
            o = z3.simplify(o + v + c)
        self.n = o

    def as_py(self, x):
        x = z3.simplify(x)
        return x.as_long() if z3.is_int_value(x) else x

    def args(self, vm):
        return [ordered_dict(vm, [(l, self.as_py(self.par[l][x])) for l in self.ls]) for x in ("nB", "val", "dv", "dc", "tol", "n0")]

    def occupations(self, X):
        """{l: (impurity electrons, missing from the valence bath, in the conduction bath)}"""
        r = {}
        for l, w, lo, hi in self.blocks:
            r.setdefault(l, {})[w] = CNT(X, lo, hi)
        return {l: (d["imp"], self.par[l]["val"] - d["val"], d["con"]) for l, d in r.items()}

    def allowed(self, X):
        cs = []
        for l, (i, v, c) in self.occupations(X).items():
            p = self.par[l]
            cs += [0 <= v, v <= p["dv"], 0 <= c, c <= p["dc"], v - c <= p["tol"], c - v <= p["tol"], i == p["n0"] + v - c]
        return z3.And(*cs)

    def count_facts(self, X):
        return [z3.And(0 <= CNT(X, lo, hi), CNT(X, lo, hi) <= hi - lo) for _, _, lo, hi in self.blocks]


def member(vm, p, h):
    """h is in this part of a tuple"""
    if p[0] == "one":
        return h == p[1]
    _, a, n, lo, hi = p
    if vm.known(z3.And(lo == 0, hi == smt.PC(a, smt_int(n)))) is True:
        return z3.And(0 <= h, h < n, z3.Select(a, h))
    return z3.And(0 <= h, h < n, z3.Select(a, h), lo <= smt.PC(a, h), smt.PC(a, h) < hi)


def encoding(vm, b):
    """C01: the product state whose occupied spin-orbitals are the members of t"""
    from pyvc.libs import contains
    t = b["t"]
    h = smt.fresh_int("h")
    if isinstance(t, PosTuple):
        e = z3.Or(*[member(vm, p, h) for p in t.parts])
    elif isinstance(t, tuple):
        e = contains(vm, t, h)
    else:
        raise Unsupported("product state given as %r" % (t,))
    k = z3.Int("h!lam")
    return Handle("product state", (z3.Lambda([k], z3.substitute(sc.as_z3(e), (h, k))), smt_int(vm.as_int(b["n"]))))


def index(sp):
    """C08: the number of a label"""
    def contract(vm, b):
        d = vm.get(b["nBaths"])
        if not isinstance(d, DictObj) or list(d.d) != sp.ls or any(e[0] is not True for e in d.d.values()):
            raise Unsupported("other numbers of bath states")
        for l in sp.ls:
            if not z3.simplify(smt_int(d.d[l][2]) == sp.par[l]["nB"]).eq(z3.BoolVal(True)):
                raise Unsupported("other numbers of bath states")
        t = b["spinOrb"]
        if not isinstance(t, tuple) or t[0] not in sp.ls:
            raise Unsupported("label")
        l = t[0]
        at = {w: lo for k, w, lo, _ in sp.blocks if k == l}
        if len(t) == 3 and all(isinstance(x, int) for x in t) and t[1] in (0, 1) and abs(t[2]) <= l:
            return z3.simplify(at["imp"]).as_long() + t[1] * (2 * l + 1) + t[2] + l
        if len(t) == 2:
            k = smt_int(vm.as_int(t[1]))
            if vm.known(z3.And(0 <= k, k < sp.par[l]["nB"])) is not True:
                raise Unsupported("bath state out of range")
            return z3.simplify(at["val"] + k)
        raise Unsupported("label")
    return contract


def build(ck):
    ck.assume_note("itertools.combinations(s, r) yields every r-element subset of distinct numbers once")
    ck.assume_note("product states are encoded as proved in C01 (tuple2bytes by contract)")
    ck.jobs = 8
    both = [(0, 0), (1, 0), (0, 1), (1, 1)]
    for l in (2, 1, 0, 3):
        for e in both:
            basis(ck, [l], [e])
    ck.collect()


def basis(ck, ls, empty):
    S = {}

    def thunk(vm):
        sp = S["sp"] = Spec(vm, ls, empty)
        vm.contracts[PSR, "tuple2bytes"] = encoding
        vm.contracts[MOD, "c2i"] = index(sp)
        return vm.function(MOD, "get_basis"), sp.args(vm), {}

    def limits(l, v, c):
        p = S["sp"].par[l]
        return z3.And(0 <= v, v <= p["dv"], 0 <= c, c <= p["dc"], v - c <= p["tol"], c - v <= p["tol"])

    def possible(l, v, c):
        p = S["sp"].par[l]
        return z3.And(v <= p["val"], c <= p["con"], 0 <= p["n0"] + v - c, p["n0"] + v - c <= 2 * (2 * l + 1))
    hint = z3.Function("hint!c09", z3.IntSort(), z3.BoolSort())

    def feasible(vm):
        """every pair of numbers within the limits can be occupied"""
        st = ("proved", "")
        for l in ls:
            v, c = smt.fresh_int("v"), smt.fresh_int("c")
            st = worst(st, yes(vm, possible(l, v, c), [limits(l, v, c), hint(v), hint(c)]))
        return st

    def raised(vm, e):
        if e.typ not in ("AssertionError", "ValueError"):
            return [("no exception", "undecided", "raises %s" % e.typ)]
        # assume that every pair within the limits is possible: the failing iteration contradicts it
        ts = [t for t in sc.free_consts(z3.And(*vm.asms())) if t.sort() == z3.IntSort() and str(t).startswith("x!")]
        given = [z3.Implies(limits(l, v, c), possible(l, v, c)) for l in ls for v in ts for c in ts]
        r = yes(vm, z3.BoolVal(False), given)
        return [("rejects impossible occupations only", *r)]

    def post(vm, v):
        sp = S["sp"]
        rows = [("impossible occupations are rejected", *feasible(vm))]
        c = members(vm, v)
        bs, cond, e = c.binders, sc.as_z3(c.cond), c.elem
        if not isinstance(e, Handle) or e.family != "product state":
            raise Unsupported("basis of %r" % (e,))
        U, n = e.idx
        h = smt.fresh_int("h")
        rows.append(("encoded over all spin-orbitals", *yes(vm, z3.Implies(cond, n == sp.n))))
        arrs = [b for b in bs if b.sort() == smt.Arr]
        ints = [b for b in bs if b.sort() == z3.IntSort()]
        if len(arrs) + len(ints) != len(bs):
            raise Unsupported("other kinds of choices")

        def sel(A):
            return z3.Select(A, h)
        # the block each set of electrons is chosen from
        blocks = {w: (lo, hi) for l, w0, lo, hi in sp.blocks for w in [(l, w0)]}
        place = {}
        for A in arrs:
            for w, (lo, hi) in blocks.items():
                if w not in place.values() and smt.entails(vm.asms() + [cond], CANON(A, lo, hi)) is True:
                    place[A.get_id()] = w
                    break
            else:
                raise Unsupported("set of another block")
        counts = []
        for A in arrs:
            lo, hi = blocks[place[A.get_id()]]
            same = smt.entails(vm.asms() + [cond, lo <= h, h < hi], z3.Select(U, h) == sel(A))
            if same is not True:
                return rows + [("chosen electrons are those of the product state", "undecided", "")]
            counts.append(CNT(U, lo, hi) == CNT(A, lo, hi))         # lemma: sets agreeing on a block have as many members there
        for w, (lo, hi) in blocks.items():
            if w not in place.values():
                # the product state holds nothing, or the block is empty
                if smt.entails(vm.asms() + [cond, lo <= h, h < hi], z3.Not(z3.Select(U, h))) is not True:
                    return rows + [("chosen electrons are those of the product state", "undecided", "")]
                counts.append(CNT(U, lo, hi) == 0)
        rows.append(("nothing outside the spin-orbitals", *yes(vm, z3.Implies(z3.And(cond, sel(U)), z3.And(0 <= h, h < sp.n)))))
        rows.append(("every member is allowed", *yes(vm, z3.Implies(z3.And(cond, *counts), sp.allowed(U)))))

        # every allowed product state X is a member: choose its electrons in each block
        X = smt.fresh(smt.Arr, "X")
        occ = sp.occupations(X)
        given, pairs = [sp.allowed(X), z3.Implies(sel(X), z3.And(0 <= h, h < sp.n))] + sp.count_facts(X), []
        for A in arrs:
            lo, hi = blocks[place[A.get_id()]]
            R = z3.Const("restricted!%s!%d" % (A, h.get_id()), smt.Arr)
            given += [CANON(R, lo, hi), CNT(R, lo, hi) == CNT(X, lo, hi), sel(R) == z3.And(lo <= h, h < hi, sel(X))]
            pairs.append((A, R))
        cands = [t for l in ls for t in occ[l][1:]]
        ok = None
        for pick in itertools.permutations(cands, len(ints)):
            sub = pairs + list(zip(ints, pick))
            if smt.entails(vm.asms() + given + [hint(t) for t in pick], z3.substitute(cond, *sub)) is True:
                ok = sub
                break
        if ok is None:
            rows.append(("every allowed state is a member", "undecided", ""))
        else:
            rows.append(("every allowed state is a member", *yes(vm, z3.substitute(sel(U), *ok) == sel(X), given)))

        # no two choices give the same product state
        other = [(b, smt.fresh(b.sort(), "y")) for b in bs]
        both = [cond, z3.substitute(cond, *other), sel(U) == z3.substitute(sel(U), *other)]
        st = ("proved", "")
        eq = []
        for b, y in other:
            if b.sort() == smt.Arr:
                lo, hi = blocks[place[b.get_id()]]
                st = worst(st, yes(vm, z3.Implies(z3.And(lo <= h, h < hi), sel(b) == sel(y)), both))
                eq.append(b == y)                                   # lemma: equal on the block, nothing outside
        st = worst(st, yes(vm, z3.And(*[b == y for b, y in other]), both + eq))
        rows.append(("each product state once", *st))
        total = z3.Sum(*[CNT(X, lo, hi) for lo, hi in blocks.values()])
        rows.append(("same number of electrons", *yes(vm, total == z3.Sum(*[sp.par[l]["n0"] + sp.par[l]["val"] for l in ls]), [sp.allowed(X)])))
        return rows
    run1(ck, "C09.get_basis %s%s" % (ls, "".join(
        ", %s: %s valence, %s conduction" % (l, "no" if v else "some", "no" if c else "some") for l, (v, c) in zip(ls, empty))),
        "finite.get_basis", thunk, post, raised)


def yes(vm, phi, more=()):
    return ("proved", "") if smt.entails(list(vm.asms()) + list(more), phi, 20000) is True else ("undecided", short(phi))


def members(vm, v):
    o = vm.get(v) if isinstance(v, Ref) else v
    if isinstance(o, ListObj) and not o.items:
        o = o.base
    if not isinstance(o, SymComp):
        raise Unsupported("basis given as %r" % (v,))
    return o
