"""C06: remembering the action of an operator."""
from .base import *
from .c03 import psi_map, value_at, zero
from . import proc
from .proc import *
from .c04 import MOD


def action(A, B, DO):
    """strength with which the operator takes the product state A to B"""
    p = smt.fresh(PROC, "p")
    return sc.Sum(p, sc.ind(z3.And(DO(p), OK(p, A), FIN(p, A) == B)) * sc.app("op", p) * SGN(p, A))


def touched(A, B, DO):
    p = smt.fresh(PROC, "p")
    return sc.as_z3(preds.exists(p, z3.And(DO(p), OK(p, A), FIN(p, A) == B)))


SHAS = z3.Function("store!has", smt.Arr, z3.BoolSort())
SIN = z3.Function("store!in", smt.Arr, smt.Arr, z3.BoolSort())


def store_map(vm, allow=None):
    """arbitrary store: for any set of product states, any remembered result"""
    def val(A):
        m = MapObj(libs.STATE, lambda B: SIN(A, B), lambda B: sc.ind(SIN(A, B)) * sc.app("st", A, B), "scalar",
                   ((lambda B: z3.Implies(SIN(A, B), allow(B))),) if allow else (), "stored")
        m.readonly = True
        return vm.alloc(m)
    return vm.alloc(MapObj(libs.STATE, lambda A: SHAS(A), val, "other", (), "store"))


def build(ck):
    for restricted in (False, True):
        one(ck, restricted)


def one(ck, restricted):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        vm.fold_rules.append(proc.rule)
        allow = (lambda B: allowed(B, n)) if restricted else None
        vm.key_invariants.append((libs.STATE, (lambda B: allowed(B, n)) if restricted else (lambda B: True)))
        psi, DP = psi_map(vm, "psi")
        op, DO = op_map(vm, "op")
        w = sc.par("w")
        restr = restr_map(vm) if restricted else None
        store = store_map(vm, allow)
        S.update(n=n, psi=psi, op=op, DP=DP, DO=DO, w=w, store=store)
        return vm.function(MOD, "applyOp"), [n, op, psi, w, restr, store], {}

    def post(vm, value):
        DP, DO, n, w = S["DP"], S["DO"], S["n"], S["w"]
        al = (lambda B: allowed(B, n)) if restricted else (lambda B: z3.BoolVal(True))
        B = fresh_state(vm, "B")
        v, d = value_at(vm, value, B)
        X = smt.fresh_arr("X")
        full = sc.Sum(X, sc.ind(DP(X)) * sc.app("psi", X) * (
            sc.ind(z3.And(SHAS(X), SIN(X, B))) * sc.app("st", X, B)
            + sc.ind(z3.And(z3.Not(SHAS(X)), al(B))) * action(X, B, DO)))
        keep = sc.ind(z3.Not(sc.cond_lt0(full * full.conj() - w)))
        rows = [("result from remembered and fresh actions", *zero(vm, v - full * keep))]
        if restricted:
            rows.append(("no forbidden product state", *ck.judge(vm, z3.Implies(d, al(B)))))
        # the store afterwards, at an arbitrary product state A
        A = fresh_state(vm, "A")
        so = vm.get(S["store"])
        rows.append(("product states in the store", *ck.judge(vm, sc.as_z3(so.dom(A)) == z3.Or(SHAS(A), DP(A)))))
        for cond, lab in ((SHAS(A), "entries already present"), (z3.And(DP(A), z3.Not(SHAS(A))), "new entries")):
            snap = vm.save()
            vm.assume(cond)
            o = so.val(A)
            sv, sd = value_at(vm, o, B)
            if lab == "new entries":
                h = action(A, B, DO) * sc.ind(al(B))
                want = h * sc.ind(z3.Not(sc.cond_lt0(h * h.conj() - w)))
                rows.append((lab + ": exact action above the cutoff", *zero(vm, sv - want)))
                rows.append((lab + ": keys", *ck.judge(vm, z3.Implies(sd, z3.And(touched(A, B, DO), al(B))))))
            else:
                rows.append((lab + ": unchanged", *zero(vm, sv - sc.ind(SIN(A, B)) * sc.app("st", A, B))))
                rows.append((lab + ": keys unchanged", *ck.judge(vm, sd == SIN(A, B))))
            vm.restore(snap)
        return rows
    run1(ck, "C06.applyOp %s restrictions" % ("with" if restricted else "without"), "finite.applyOp", thunk, post)
