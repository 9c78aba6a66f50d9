"""Contracts of the elementary operations on many-body states (discharged against their bodies under C03), used in
place of the bodies when the functions that call them are verified."""
from .base import *
from pyvc import libs
from .c03 import sgn

FIN = ED + ".finite"
T, F = z3.BoolVal(True), z3.BoolVal(False)


def parts(vm, ref):
    """(dom, val) of a many-body state"""
    if not isinstance(ref, Ref):
        raise Unsupported("not a many-body state")
    o = vm.get(ref)
    if isinstance(o, DictObj) and not o.d:
        return (lambda B: F), (lambda B: sc.SZERO)
    if isinstance(o, MapObj) and o.keys is libs.STATE and o.kind == "scalar":
        return (lambda B: sc.as_z3(o.dom(B))), (lambda B: Scalar.of(o.val(B)))
    raise Unsupported("not a many-body state: %r" % (o,))


def state(dom, val, name=None):
    return MapObj(libs.STATE, dom, val, "scalar", (), name)


def need(vm, cond, what):
    if smt.entails(vm.asms(), cond, 5000) is not True:
        raise Unsupported("precondition of %s not established: %s" % (what, short(cond)))


def ladder(create):
    """a / c: B gets the sign times the amplitude of B with orbital i flipped"""
    def contract(vm, bound):
        n, i, psi = list(bound.values())[:3]
        n, i = smt_int(vm.as_int(n)), smt_int(vm.as_int(i))
        need(vm, z3.And(0 <= i, i < n), "a, c")
        need(vm, n == smt_int(vm.state_n), "a, c")
        D, V = parts(vm, psi)

        def src(B):
            return z3.Store(B, i, z3.BoolVal(not create))

        def dom(B):
            has = z3.Select(B, i) if create else z3.Not(z3.Select(B, i))
            return z3.And(has, D(src(B)))
        return vm.alloc(state(dom, lambda B: sc.ind(z3.Select(B, i) if create else z3.Not(z3.Select(B, i)))
                              * V(src(B)) * sgn(B, i)))
    return contract


def addToFirst(vm, bound):
    p1, p2, mul = list(bound.values())[:3]
    D1, V1 = parts(vm, p1)
    D2, V2 = parts(vm, p2)
    mul = Scalar.of(vm.as_scalar(mul))
    vm.mut(p1)
    vm.put(p1, state(lambda B: z3.Or(D1(B), D2(B)), lambda B: V1(B) + V2(B) * mul))
    return None


def total(f):
    X = smt.fresh_arr("X")
    return sc.Sum(X, f(X))


def inner(vm, bound):
    p1, p2 = list(bound.values())[:2]
    D1, V1 = parts(vm, p1)
    D2, V2 = parts(vm, p2)
    return total(lambda X: V1(X).conj() * V2(X))


def norm2(vm, bound):
    D1, V1 = parts(vm, list(bound.values())[0])
    return total(lambda X: V1(X).conj() * V1(X))


ALL = {"a": ladder(False), "c": ladder(True), "addToFirst": addToFirst, "inner": inner, "norm2": norm2}


def use(vm, *names):
    for nm in names or ALL:
        vm.contracts[FIN, nm] = ALL[nm]
