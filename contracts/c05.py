"""C05: occupation restrictions."""
from .base import *
from .c03 import psi_map, value_at, zero
from . import proc
from .proc import *
from .c04 import amplitude, reached, MOD


def build(ck):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        vm.fold_rules.append(proc.rule)
        vm.key_invariants.append((libs.STATE, lambda B: allowed(B, n)))
        psi, DP = psi_map(vm, "psi")
        op, DO = op_map(vm, "op")
        w = sc.par("w")
        restr = restr_map(vm)
        S.update(n=n, psi=psi, op=op, DP=DP, DO=DO, w=w)
        return vm.function(MOD, "applyOp"), [n, op, psi, w, restr], {}

    def post(vm, value):
        DP, DO = S["DP"], S["DO"]
        B = fresh_state(vm, "B")
        v, d = value_at(vm, value, B)
        full = amplitude(B, DO, DP)
        keep = sc.ind(z3.And(allowed(B, S["n"]), z3.Not(sc.cond_lt0(full * full.conj() - S["w"]))))
        return [("amplitude", *zero(vm, v - full * keep)),
                ("no forbidden product state", *ck.judge(vm, z3.Implies(d, allowed(B, S["n"]))))]
    run1(ck, "C05.applyOp", "finite.applyOp", thunk, post)
