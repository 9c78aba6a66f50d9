"""C10: the Hamiltonian matrix equals the operator in the basis."""
from .base import *
from .c03 import zero
from .basis import *
from . import ranks
from pyvc import libs, nd
from pyvc.nd import SymNdObj

FN = ED + ".finite"
ACT = z3.Function("act!in", smt.Arr, smt.Arr, z3.BoolSort())


def act(A, B):
    """amplitude of B in the operator applied to A"""
    return sc.ind(ACT(A, B)) * sc.app("act", A, B)


def apply_contract(S):
    def contract(vm, bound):
        psi = bound["psi"]
        o = vm.get(psi) if isinstance(psi, Ref) else None
        if not isinstance(o, MapObj) or not o.writes or len(o.writes) != 1 or o.writes[0][0] != "set":
            raise Unsupported("applyOp on another state than a single product state")
        _, A, amp = o.writes[0]
        if sc.is_zero(Scalar.of(vm.as_scalar(amp)) - 1, vm.asms()) is not True:
            raise Unsupported("applyOp on an unnormalised product state")
        if bound["op"] != S["op"] or bound["n_spin_orbitals"] is not S["n"] or bound["restrictions"] is not None \
                or bound["opResult"] is not None or sc.is_zero(Scalar.of(vm.as_scalar(bound["slaterWeightMin"])) - vm.as_scalar(S["cut"]), vm.asms()) is not True:
            raise Unsupported("applyOp with other arguments")
        return vm.alloc(MapObj(libs.STATE, lambda B: ACT(A, B), lambda B: act(A, B), "scalar", (), "result"))
    return contract


def build(ck):
    ck.assume_note("the basis holds no product state twice")
    ck.assume_note("every rank runs the same code on the same arguments")
    for mode in ("dense_serial", "dense_MPI", "sparse_serial", "sparse_MPI"):
        one(ck, mode)
    ck.assume_note("remembered actions: each basis state's action is stored (on exactly one rank), and leads into the basis (C11)")
    for mode, par, local in (("dense", "serial", False), ("sparse", "serial", False), ("sparse", "H_build", False),
                             ("sparse", "H_build", True)):
        stored(ck, "C10", mode, par, local)


def one(ck, mode):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        bs = basis(vm)
        op = vm.alloc(PyObj("operator", {}))
        f = vm.function(FN, "get_hamiltonian_matrix")
        S.update(n=n, op=op, cut=1e-12)
        ranks.RULES.clear()
        vm.contracts[FN, "get_job_tasks"] = ranks.job_contract
        vm.contracts[FN, "applyOp"] = apply_contract(S)
        return f, [n, op, bs, mode], {}

    def post(vm, value):
        o = nd.seq_nd(vm, value)
        i, j = smt.fresh_int("i"), smt.fresh_int("j")
        vm.assume(z3.And(0 <= i, i < NB, 0 <= j, j < NB))
        rows = [("shape", *ck.judge(vm, z3.And(smt_int(o.shape[0]) == NB, smt_int(o.shape[1]) == NB)))]
        rows.append(("element (i,j)", *zero(vm, Scalar.of(o.get((i, j))) - act(BAS(j), BAS(i)))))
        return rows
    run1(ck, "C10.get_hamiltonian_matrix " + mode, "finite.get_hamiltonian_matrix", thunk, post)


HOME = z3.Function("home", smt.Arr, z3.IntSort())
OTHER = z3.Function("elsewhere", smt.Arr, z3.IntSort(), z3.BoolSort())


def _home(terms):
    if not any(x.name == "home" for x in terms) or RANKS[0] is None:
        return []
    return [z3.And(0 <= x.t, x.t < RANKS[0]) for x in terms if x.name == "home"]


RANKS = [None]
smt.INSTANTIATORS.append(_home)


def held(vm, rank):
    """remembered actions held by a rank: of the basis states it is home to, and of any product states outside the basis.
    Every product state reached from a basis state is in the basis (the space is closed, C11)"""
    def val(A):
        # where A is known to be in the basis, so is every state its action leads to (the fact below, written into the domain)
        inside = vm.entails(HAS(A))
        m = MapObj(libs.STATE, (lambda B: z3.And(ACT(A, B), HAS(B))) if inside else (lambda B: ACT(A, B)), lambda B: act(A, B), "scalar",
                   (lambda B: z3.Implies(z3.And(HAS(A), ACT(A, B)), HAS(B)),), "action")
        m.readonly = True
        return vm.alloc(m)
    if rank is None:
        dom = lambda A: z3.Or(HAS(A), OTHER(A, z3.IntVal(0)))
    else:
        dom = lambda A: z3.If(HAS(A), HOME(A) == rank, OTHER(A, rank))
    return vm.alloc(MapObj(libs.STATE, dom, val, "other", (), "h_dict"))


def stored(ck, pid, mode, par, local):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        bs = basis(vm)
        f = vm.function(FN, "get_hamiltonian_matrix_from_h_dict")
        from pyvc.physlib import _rank
        RANKS[0] = None
        rank = None
        if par != "serial":
            rank = _rank(vm)
            RANKS[0] = vm.ranks
        S["rank"] = rank
        S["h"] = held(vm, rank)
        S["h0"] = vm.get(S["h"])
        return f, [S["h"], bs], {"parallelization_mode": par, "return_h_local": local, "mode": mode}

    def post(vm, value):
        h, index = value
        o = nd.seq_nd(vm, h)
        i, j = smt.fresh_int("i"), smt.fresh_int("j")
        vm.assume(z3.And(0 <= i, i < NB, 0 <= j, j < NB))
        want = act(BAS(j), BAS(i))
        if local:
            want = want * sc.ind(HOME(BAS(j)) == S["rank"])
        rows = [("shape", *ck.judge(vm, z3.And(smt_int(o.shape[0]) == NB, smt_int(o.shape[1]) == NB)))]
        rows.append(("element (i,j)", *zero(vm, Scalar.of(o.get((i, j))) - want)))
        rows.append(("kind of matrix", "proved" if isinstance(vm.get(h), CsrObj) == (mode == "sparse") else "refuted", ""))
        m = vm.get(index)
        B = fresh_state(vm, "B")
        rows.append(("index of the basis: product states", *ck.judge(vm, sc.as_z3(m.dom(B)) == HAS(B))))
        vm.assume(HAS(B))
        rows.append(("index of the basis: positions", *zero(vm, Scalar.of(vm.as_scalar(m.val(B))) - Scalar.of(POS(B)))))
        rows.append(("remembered actions unchanged", "proved" if vm.get(S["h"]) is S["h0"] else "undecided", ""))
        return rows
    run1(ck, "%s.get_hamiltonian_matrix_from_h_dict %s %s%s" % (pid, mode, par, " local" if local else ""),
         "finite.get_hamiltonian_matrix_from_h_dict", thunk, post)
