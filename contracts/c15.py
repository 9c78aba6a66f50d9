"""C15: one correctly weighted Green's function per state, operator and mesh point (getSpectra).

applyOp (C04-C06), norm2 (C03), get_job_tasks (C12) and getGreen (C14) enter by contract."""
from .base import *
from .c03 import zero
from . import ranks, states
from .spectra_model import *
from pyvc import libs, nd

SP = ED + ".spectra"


def build(ck):
    ck.assume_note("every rank runs the same code on the same arguments; bcast hands every rank the root's object")
    ck.assume_note("a many-body state with stored amplitudes has nonzero norm (applyOp stores no zero amplitudes, C04)")
    ck.assume_note("getGreen depends on its state, energy, mesh, broadening, operator, restrictions and Krylov size only, "
                   "whatever actions of this operator are remembered (C06, C14); the parallel mode gives the serial value (C13)")
    for mode in ("H_build", "eigen_states"):
        one(ck, mode)


def one(ck, mode):
    M = Model()

    def thunk(vm):
        M.start(vm)
        nT, nE = smt.fresh_int("nT"), smt.fresh_int("nE")
        vm.assume(z3.And(nT >= 0, nE >= 0))
        M.nT, M.nE = nT, nE
        hop = Handle("H", ())
        tops = operators("T", nT)
        psis = eigenstates(vm, nE)
        es = vm.alloc(SymNdObj((nE,), lambda ix: energy(ix[0]), "float"))
        M.hop = hop
        f = vm.function(SP, "getSpectra")
        ranks.RULES.clear()
        M.install(vm, serial=mode == "eigen_states")
        vm.contracts[FIN, "get_job_tasks"] = ranks.job_contract
        vm.contracts[SP, "get_job_tasks"] = ranks.job_contract
        return f, [M.n, hop, tops, psis, es, M.mesh(vm, "w"), M.delta, M.restr, M.kry, M.cut, mode], {}

    def post(vm, value):
        o = nd.seq_nd(vm, value)
        i, t, m = (smt.fresh_int(x) for x in "itm")
        nw = M.nmesh["w"]
        vm.assume(z3.And(0 <= i, i < M.nE, 0 <= t, t < M.nT, 0 <= m, m < nw))
        rows = [("shape", *ck.judge(vm, z3.And(len(o.shape) == 3, *[smt_int(a) == b for a, b in zip(o.shape, (M.nE, M.nT, nw))])))]
        want = norm_sq("T", t, i) * sc.app("green", t, i, i, m)
        got = Scalar.of(vm.as_scalar(o.get((i, t, m))))
        rows.append(("entry (state, operator, mesh point)", *zero(vm, got - want)))
        return rows
    run1(ck, "C15.getSpectra " + mode, "spectra.getSpectra", thunk, post)
