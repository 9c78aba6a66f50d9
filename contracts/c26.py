"""C26: eigenstates are returned lowest first and paired with their energies.

The eigensolvers and argsort are trusted libraries: their contracts are stated here."""
from .base import *
from .c03 import value_at, zero
from .basis import *
from pyvc import libs, nd
from pyvc.nd import SymNdObj

FN = ED + ".finite"
PERM = z3.Function("perm", z3.IntSort(), z3.IntSort())


PLEN = z3.Int("perm!n")


def _facts(terms):
    return [z3.Implies(z3.And(0 <= x.kids[0], x.kids[0] < PLEN), z3.And(0 <= x.t, x.t < PLEN))
            for x in terms if x.name == "perm"]


smt.INSTANTIATORS.append(_facts)


def E(src, j):
    return sc.app("energy!" + src, j, real=True)


def V(src, i, j):
    return sc.app("vector!" + src, i, j)


def matrix(vm, bound):
    """the Hamiltonian matrix of this operator and basis (C10)"""
    def todense(vm, a, k):
        return h

    h = vm.alloc(PyObj("matrix", {"todense": Builtin("todense", todense), "toarray": Builtin("toarray", todense),
                                  "shape": (NB, NB), "args": tuple(bound.values())}))
    return h


def build(ck):
    ck.assume_note("numpy.linalg.eigh: eigenvalues ascending, column j the eigenvector of eigenvalue j")
    ck.assume_note("scipy.sparse.linalg.eigsh(which='SA', k): the k lowest eigenvalues in any order, column j belonging "
                   "to eigenvalue j (the recorded finding about degenerate copies is a failure of this assumption)")
    ck.assume_note("numpy.argsort: a permutation putting the values in ascending order")
    ck.assume_note("the basis holds no product state twice, and the cutoff is positive or the vectors are as returned")
    for mode in ("full", "Lanczos"):
        one(ck, mode)


def one(ck, mode):
    S = {}

    def thunk(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        bs = basis(vm)
        m = smt.fresh_int("nPsiMax")
        vm.assume(z3.And(m >= 1, m <= NB if mode == "full" else m < NB))
        tol, cut = sc.par("tol", real=True), sc.par("cut", real=True)
        op = vm.alloc(PyObj("operator", {}))
        vm.contracts[FN, "get_hamiltonian_matrix"] = matrix

        def is_h(x):
            o = vm.get(x) if isinstance(x, Ref) else None
            if not isinstance(o, PyObj) or o.cls != "matrix":
                raise Unsupported("matrix")
            a = list(o.fields["args"])
            if a[0] is not n or a[1] != op or a[2] is not bs:
                S["bad"] = "matrix of something else"

        def eigh(vm, a, k):
            is_h(a[0])
            if len(a) > 1 or k:
                raise Unsupported("eigh options")
            return (vm.alloc(SymNdObj((NB,), lambda ix: E("eigh", smt_int(ix[0])), "float")),
                    vm.alloc(SymNdObj((NB, NB), lambda ix: V("eigh", smt_int(ix[0]), smt_int(ix[1])), "complex")))

        def eigsh(vm, a, k):
            is_h(a[0])
            kk = k.get("k", a[1] if len(a) > 1 else 6)
            if set(k) - {"k", "which", "tol"} or len(a) > 2:
                raise Unsupported("eigsh options")
            src = "eigsh" if k.get("which") == "SA" else "eigsh!" + str(k.get("which"))
            S["src"].add(src)
            return (vm.alloc(SymNdObj((kk,), lambda ix: E(src, smt_int(ix[0])), "float")),
                    vm.alloc(SymNdObj((NB, kk), lambda ix: V(src, smt_int(ix[0]), smt_int(ix[1])), "complex")))

        def argsort(vm, a, k):
            o = nd.seq_nd(vm, a[0])
            if o is None or len(o.shape) != 1 or k or len(a) > 1:
                raise Unsupported("argsort")
            q = smt.fresh_int("q")
            if not any(sc.is_zero(Scalar.of(o.get((q,))) - E(src, q)) is True for src in S["src"]):
                raise Unsupported("argsort of something else")
            L = o.shape[0]
            vm.assume(PLEN == smt_int(L))
            return vm.alloc(SymNdObj((L,), lambda ix: PERM(smt_int(ix[0])), "int"))

        vm.lib["numpy.linalg.eigh"] = eigh
        vm.lib["scipy.sparse.linalg.eigsh"] = eigsh
        vm.lib["numpy.argsort"] = argsort
        def sort(vm, a, k):
            p = argsort(vm, a, k)
            o = nd.seq_nd(vm, a[0])
            return vm.alloc(SymNdObj(o.shape, lambda ix: o.get((PERM(smt_int(ix[0])),)), o.dtype))
        vm.lib["numpy.sort"] = sort
        vm.lib["numpy.nonzero"] = lambda vm, a, k: (SymSeq(smt.fresh_int("nnz"), lambda q: q, "list"),) * 2
        S["src"] = set()
        S.update(n=n, m=m, cut=cut)
        return vm.function(FN, "eigensystem"), [n, op, bs, m], \
            {"groundDiagMode": mode, "eigenValueTol": tol, "slaterWeightMin": cut}

    def post(vm, value):
        src = "eigh" if mode == "full" else "eigsh"
        p = (lambda j: j) if mode == "full" else PERM
        m, cut = S["m"], S["cut"]
        es, psis = value
        k = smt.fresh_int("k")
        vm.assume(z3.And(0 <= k, k < m))
        rows = []
        o = nd.seq_nd(vm, es)
        rows.append(("matrix of the given operator and basis", "refuted" if "bad" in S else "proved", S.get("bad", "")))
        rows.append(("number of energies", *ck.judge(vm, smt_int(o.shape[0]) == m)))
        rows.append(("energy k", *zero(vm, Scalar.of(o.get((k,))) - E(src, p(k)))))
        seq = libs.as_seq(vm, psis)
        rows.append(("number of states", *ck.judge(vm, smt_int(seq.length) == m)))
        B = fresh_state(vm, "B")
        paths = vm.explore(lambda: vm.get(seq.get(k)))
        st = None
        for q in paths:
            snap = vm.save()
            vm.restore(q.snap)
            if q.kind != "ok":
                st = worst(st, ("refuted" if q.kind == "raise" else "undecided", q.kind))
                vm.restore(snap)
                continue
            ob = q.value
            i = POS(B)
            amp = V(src, i, p(k))
            big = z3.Not(sc.cond_lt0(amp * amp.conj() - cut))
            has = z3.And(HAS(B), big)
            r1 = zero(vm, Scalar.of(vm.as_scalar(ob.val(B))) * sc.ind(sc.as_z3(ob.dom(B))) - sc.ind(has) * amp)
            r2 = ck.judge(vm, sc.as_z3(ob.dom(B)) == has)
            st = worst(st, worst(r1, r2))
            vm.restore(snap)
        rows.append(("state k: amplitudes of eigenvector k above the cutoff, on their own product states", *(st or ("undecided", "no path"))))
        return rows
    run1(ck, "C26.eigensystem " + mode, "finite.eigensystem", thunk, post)
