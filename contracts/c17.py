"""C17: thermal averages, for every number of states, all energies, observables and temperatures."""
from .base import *
from .c03 import zero

MOD = ED + ".average"


def seq(vm, name, N, shape=()):
    """list of N numbers (or arrays of the given shape) name(k)"""
    import numpy as np

    def get(k):
        k = smt_int(k)
        if not shape:
            return sc.app(name, k, real=True)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            a[i] = sc.app(name + "_".join(map(str, i)), k, real=True)
        return vm.alloc(NdObj(a, "float"))
    return vm.alloc(ListObj([], SymSeq(N, get, "list")))


def boltzmann(N, name, kT):
    k = smt.fresh_int("k")
    r = sc.ind(z3.And(0 <= k, k < N))
    w = sc.exp(-sc.app("E", k, real=True) * kT.inverse())
    return sc.Sum(k, r * w * sc.app(name, k, real=True)), sc.Sum(k, r * w)


def build(ck):
    ck.assume_note("scipy.constants: k_B is the exact decimal of scipy's table; exp, sums and quotients are exact")
    for shape in ((), (2,)):
        for temp in ("given", "default"):
            S = {}

            def thunk(vm):
                N = smt.fresh_int("N")
                vm.assume(N >= 1)
                S["N"] = N
                T = sc.par("T", real=True)
                vm.assume(sc.as_z3(sc.cond_lt0(-T)))
                S["kT"] = kB(vm) * (T if temp == "given" else 300)
                return vm.function(MOD, "thermal_average"), [seq(vm, "E", N), seq(vm, "O", N, shape)], {"T": T} if temp == "given" else {}

            def post(vm, v):
                rows = []
                vals = [("", v, "O")] if not shape else [("[%d]" % i, x, "O%d" % i) for i, x in enumerate(vm.get(v).a)]
                for lab, x, name in vals:
                    num, den = boltzmann(S["N"], name, S["kT"])
                    x = Scalar.of(vm.as_scalar(x))
                    rows.append(("Boltzmann average" + lab, *zero(vm, x * den - num)))
                return rows
            run1(ck, "C17.thermal_average %s, temperature %s" % ("scalars" if not shape else "arrays", temp), "average.thermal_average", thunk, post)

    for shape in ((), (2,)):
        def mismatch(vm):
            N, M = smt.fresh_int("N"), smt.fresh_int("M")
            vm.assume(z3.And(N >= 1, M >= 1, N != M))
            return vm.function(MOD, "thermal_average"), [seq(vm, "E", N), seq(vm, "O", M, shape)], {"T": sc.par("T", real=True)}
        rejects(ck, "C17.thermal_average %s: lengths that differ are rejected" % ("scalars" if not shape else "arrays"),
                "average.thermal_average", mismatch)
    from . import printing
    printing.thermal(ck, "C17")


def kB(vm):
    return Scalar.of(vm.as_scalar(vm.lookup("k_B", vm.load(MOD))))
