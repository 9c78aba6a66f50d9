"""A symbolic basis: nb distinct product states, in an order."""
from .base import *
from pyvc import libs

BAS = z3.Function("bas", z3.IntSort(), smt.Arr)       # the i-th product state
POS = z3.Function("bas!pos", smt.Arr, z3.IntSort())   # where a product state stands
HAS = z3.Function("bas!has", smt.Arr, z3.BoolSort())  # whether it is in the basis
NB = z3.Int("bas!n")

sc.COND_INVERSES["bas!pos"] = (lambda w: BAS(w), lambda w: z3.And(0 <= w, w < NB), lambda x: HAS(x))
sc.INVERSES["bas"] = (lambda w: POS(w), lambda w: HAS(w))


def _facts(terms):
    """the product states of the basis are distinct"""
    out = []
    for x in terms:
        if x.name == "bas":
            i = x.kids[0]
            out.append(z3.Implies(z3.And(0 <= i, i < NB), z3.And(HAS(x.t), POS(x.t) == i)))
        elif x.name in ("bas!pos", "bas!has"):
            w = x.kids[0]
            if z3.is_app(w) and w.decl().name() == "bas":
                continue
            out.append(z3.Implies(HAS(w), z3.And(0 <= POS(w), POS(w) < NB, BAS(POS(w)) == w)))
    return out


smt.INSTANTIATORS.append(_facts)


def basis(vm, kind="tuple"):
    n = vm.state_n

    def get(k):
        return vm.state_value(BAS(smt_int(k)), n)
    s = SymSeq(NB, get, kind, ("basis",), lambda k: [smt.canonical(BAS(smt_int(k)), smt_int(n))])
    vm.assume(NB >= 1)
    if kind == "list":
        return vm.alloc(ListObj([], s))
    return s
