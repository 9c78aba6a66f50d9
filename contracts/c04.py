"""C04: applying an operator to a state."""
from .base import *
from .c03 import psi_map, value_at, zero
from . import proc
from .proc import *

MOD = ED + ".finite"


def amplitude(B, DO, DP, op="op", psi="psi"):
    """sum over processes and product states of strength * amplitude * sign on the resulting product state"""
    X = smt.fresh_arr("X")
    p = smt.fresh(PROC, "p")
    t = sc.ind(z3.And(DP(X), DO(p), OK(p, X), FIN(p, X) == B)) * sc.app(psi, X) * sc.app(op, p) * SGN(p, X)
    return sc.Sum(X, sc.Sum(p, t))


def reached(B, DO, DP):
    X = smt.fresh_arr("X")
    p = smt.fresh(PROC, "p")
    return preds.exists_many([X, p], z3.And(DP(X), DO(p), OK(p, X), FIN(p, X) == B))


def build(ck):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        vm.fold_rules.append(proc.rule)
        psi, DP = psi_map(vm, "psi")
        op, DO = op_map(vm, "op")
        w = sc.par("w")
        S.update(n=n, psi=psi, op=op, DP=DP, DO=DO, w=w)
        return vm.function(MOD, "applyOp"), [n, op, psi, w], {}

    def post(vm, value):
        DP, DO = S["DP"], S["DO"]
        B = fresh_state(vm, "B")
        v, d = value_at(vm, value, B)
        want = amplitude(B, DO, DP)
        keep = sc.ind(z3.Not(sc.cond_lt0(want * want.conj() - S["w"])))

        return [("amplitude", *zero(vm, v - want * keep))]
    run1(ck, "C04.applyOp", "finite.applyOp", thunk, post)
