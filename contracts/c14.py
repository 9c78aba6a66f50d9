"""C14: the Green's function is the continued fraction of the Lanczos coefficients of H and the given state.

expand_basis_and_hamiltonian (C10, C11) and get_tridiagonal_krylov_vectors (below) enter getGreen by contract."""
from .base import *
from .basis import *
from .c03 import zero
from . import states
from .spectra_model import Model, Handle, product_states
from pyvc import libs, nd, loops
from pyvc.nd import SymNdObj

FIN, SP = ED + ".finite", ED + ".spectra"
PSI = z3.Function("psi!0", smt.Arr, z3.BoolSort())
K = z3.Int("krylov")


def kappa():
    return z3.If(K < NB, K, NB)


def alpha(j):
    return sc.app("alpha", smt_int(j), real=True)


def beta(j):
    return sc.app("beta", smt_int(j), real=True)


def fraction(w):
    """ghost sequence of the continued fraction, built from its end: CF(1) = 1/(z-alpha[k-1]),
    CF(j+1) = 1/(z - alpha[k-1-j] - beta[k-1-j]^2 CF(j))"""
    def value(k, ix):
        return sc.app("CF", k, smt_int(ix[0]))

    def step(k, ix):
        i = z3.simplify(kappa() - 1 - k)
        z = w(ix[0])
        return [(k == 0, (z - alpha(i)).inverse()),
                (k > 0, (z - alpha(i) - beta(i) * beta(i) * value(k, ix)).inverse())]
    def last(ix):
        return (w(ix[0]) - alpha(z3.simplify(kappa() - 1))).inverse()

    # a loop that does the last coefficient as well, and one that starts from it
    return [loops.Ghost("CF", 1, value, step, free=True),
            loops.Ghost("CF1", 1, lambda k, ix: value(z3.simplify(k + 1), ix), lambda k, ix: step(z3.simplify(k + 1), ix)[1:], base=last)]


def build(ck):
    ck.assume_note("the Krylov size is at least one; no denominator of the continued fraction vanishes (delta > 0)")
    for mode, par in (("sparse", "serial"), ("sparse", "H_build"), ("dense", "serial")):
        green(ck, mode, par)
        green(ck, mode, par, True)
    for par, loc in (("serial", False), ("H_build", False), ("H_build", True)):
        together(ck, par, loc)
    for mode in ("sparse", "dense"):
        lanczos(ck, mode)
        for root in (True, False):
            distributed(ck, mode, root)


def green(ck, mode, par, empty=False):
    S = {}

    def thunk(vm):
        M = S["M"] = Model()
        M.start(vm)
        vm.assume(z3.And(NB >= 1, K >= 1))
        M.hop = Handle("H", ())
        f = vm.function(SP, "getGreen")
        psi = vm.alloc(MapObj(libs.STATE, lambda B: z3.And(PSI(B), HAS(B)), lambda B: sc.ind(PSI(B)) * sc.app("psi0", B),
                              "scalar", (), "psi"))
        if empty:
            psi = vm.alloc(DictObj({}))
        else:
            B0 = fresh_state(vm, "B0")
            vm.assume(z3.And(PSI(B0), HAS(B0)))
        S["psi"], S["obj"] = psi, vm.get(psi)
        store = vm.alloc(DictObj({}))
        om = M.mesh(vm, "w")
        e = sc.par("e", real=True)
        S["w"] = lambda m: sc.app("mesh!w", smt_int(m), real=True) + M.delta * sc.I + e
        hmat = Handle("matrix", ())

        def expand(vm, bound):
            M.same(vm, bound["n_spin_orbitals"], M.n, "number of spin-orbitals")
            M.same(vm, bound["restrictions"], M.restr, "restrictions")
            M.same(vm, bound["hOp"], M.hop, "operator")
            if bound["h_dict"] != store:
                raise Unsupported("another store of actions")
            if bound["parallelization_mode"] != par:
                raise Unsupported("parallel mode")
            local(vm, bound["return_h_local"], par)
            product_states(vm, bound["basis0"], lambda B: z3.And(PSI(B), HAS(B)))
            index = MapObj(libs.STATE, lambda B: HAS(B), lambda B: Scalar.of(POS(B)), "scalar", (), "basis_index")
            index.size = NB
            index.readonly = True
            return (hmat, vm.alloc(index))

        def tri(vm, bound):
            if bound["h"] is not hmat:
                raise Unsupported("another matrix")
            if bound["mode"] != mode:
                raise Unsupported("mode")
            local(vm, bound["h_local"], par)
            o = nd.seq_nd(vm, bound["psi0"])
            j = smt.fresh_int("j")
            states.need(vm, z3.And(len(o.shape) == 1, smt_int(o.shape[0]) == NB), "get_tridiagonal_krylov_vectors")
            want = sc.ind(PSI(BAS(j))) * sc.app("psi0", BAS(j))
            S.setdefault("vector", []).append(zero_under(vm, Scalar.of(o.get((j,))) - want, [0 <= j, j < NB]))
            S.setdefault("size", []).append(ck.judge(vm, smt_int(bound["krylovSize"]) == kappa()))
            a = SymNdObj((kappa(),), lambda ix: alpha(ix[0]), "float")
            b = SymNdObj((z3.simplify(kappa() - 1),), lambda ix: beta(ix[0]), "float")
            return (vm.alloc(a), vm.alloc(b))
        for mod in (FIN, SP):
            vm.contracts[mod, "expand_basis_and_hamiltonian"] = expand
            vm.contracts[mod, "get_tridiagonal_krylov_vectors"] = tri
        vm.ghosts += fraction(S["w"])
        return f, [M.n, e, psi, M.hop, om, M.delta, K, M.cut, M.restr, store], {"mode": mode, "parallelization_mode": par}

    def post(vm, value):
        M = S["M"]
        o = nd.seq_nd(vm, value)
        m = smt.fresh_int("m")
        nw = M.nmesh["w"]
        vm.assume(z3.And(0 <= m, m < nw))
        rows = [("one value per mesh point", *ck.judge(vm, z3.And(len(o.shape) == 1, smt_int(o.shape[0]) == nw)))]
        g = Scalar.of(vm.as_scalar(o.get((m,))))
        if not empty:
            rows.append(("continued fraction", *zero(vm, g - sc.app("CF", z3.simplify(kappa()), m))))
            for k in ("vector", "size"):
                for r in S[k]:
                    rows.append(({"vector": "starting vector", "size": "Krylov size"}[k], *r))
        else:
            rows.append(("zero for an empty state", *zero(vm, g)))
        rows.append(("state unchanged", "proved" if same_map(vm.get(S["psi"]), S["obj"]) else "undecided", ""))
        return rows
    run1(ck, "C14.getGreen %s %s%s" % (mode, par, " empty state" if empty else ""), "spectra.getGreen", thunk, post)


# ---------------------------------------------------------------- the recurrence

class Lanczos:
    """v(0) = psi0, w(0) = H v(0) - a(0) v(0), b(j) = |w(j)|, v(j+1) = w(j)/b(j),
    w(j+1) = H v(j+1) - a(j+1) v(j+1) - b(j) v(j), a(j) = Re <H v(j)|v(j)>"""

    def __init__(self, h):
        self.h = h

    def V(self, j, x):
        return sc.app("V", smt_int(j), smt_int(x))

    def W(self, j, x):
        return sc.app("W", smt_int(j), smt_int(x))

    def total(self, f):
        x = smt.fresh_int("x")
        return sc.Sum(x, sc.ind(z3.And(0 <= x, x < NB)) * f(x))

    def B(self, j):
        return sc.sqrt(self.total(lambda x: self.W(j, x).conj() * self.W(j, x)))

    def next(self, j):
        """v(j+1)"""
        return lambda x: self.W(j, x) * self.B(j).inverse()

    def H(self, v):
        return lambda x: self.total(lambda y: self.h(x, y) * v(y))

    def A(self, v):
        hv = self.H(v)
        return self.total(lambda x: hv(x).conj() * v(x)).real

    def at(self, j):
        return lambda x: self.V(j, x)

    def ghosts(self):
        def w0(ix):
            v = self.at(z3.IntVal(0))
            return self.H(v)(ix[0]) - self.A(v) * v(ix[0])

        def w1(k, ix):
            v = self.next(k)
            return [(z3.BoolVal(True), self.H(v)(ix[0]) - self.A(v) * v(ix[0]) - self.B(k) * self.V(k, ix[0]))]

        def rows(k, ix):
            return sc.ind(ix[0] == 0) * self.V(k, ix[1]) + sc.ind(z3.And(ix[0] == 1, k > 0)) * self.V(k, ix[1])
        return [loops.Ghost("W", 1, lambda k, ix: self.W(k, ix[0]), w1, base=w0),
                loops.Ghost("V", 1, lambda k, ix: self.V(k, ix[0]), lambda k, ix: [(z3.BoolVal(True), self.next(k)(ix[0]))]),
                loops.Ghost("VV", 2, rows, lambda k, ix: [(z3.BoolVal(True), self.next(k)(ix[1]))])]


def coefficients(ck, vm, L, value):
    a, b = [nd.seq_nd(vm, x) for x in value]
    rows = [("lengths", *ck.judge(vm, z3.And(len(a.shape) == 1, len(b.shape) == 1, smt_int(a.shape[0]) == kappa(),
                                              smt_int(b.shape[0]) == kappa() - 1)))]
    j = smt.fresh_int("j")
    rows.append(("first diagonal element", *zero_under(vm, Scalar.of(a.get((z3.IntVal(0),))) - L.A(L.at(z3.IntVal(0))), [])))
    rows.append(("diagonal elements", *zero_under(vm, Scalar.of(a.get((j,))) - L.A(L.next(j - 1)), [1 <= j, j < kappa()])))
    rows.append(("off-diagonal elements", *zero_under(vm, Scalar.of(b.get((j,))) - L.B(j), [0 <= j, j < kappa() - 1])))
    return rows


def lanczos(ck, mode):
    S = {}

    def thunk(vm):
        vm.assume(z3.And(NB >= 1, K >= 1))
        f = vm.function(FIN, "get_tridiagonal_krylov_vectors")
        h = lambda x, y: sc.app("h", smt_int(x), smt_int(y))
        L = S["L"] = Lanczos(h)
        m = vm.alloc(CsrObj((NB, NB), lambda ix: h(*ix), "complex"))
        psi0 = vm.alloc(SymNdObj((NB,), lambda ix: L.V(z3.IntVal(0), ix[0]), "complex"))
        vm.ghosts += L.ghosts()
        return f, [m, psi0, K], {"h_local": False, "mode": mode}

    def post(vm, value):
        return coefficients(ck, vm, S["L"], value)
    run1(ck, "C14.get_tridiagonal_krylov_vectors %s" % mode, "finite.get_tridiagonal_krylov_vectors", thunk, post,
         lambda vm, e: exhausted(vm, S["L"], e))


def distributed(ck, mode, root, pid="C14"):
    """the same recurrence with the matrix distributed over the ranks, H = sum of hr(r) (C13): what the root computes, and
    what every other rank contributes.  Reduce adds up the contributions hr(r) v of the ranks, so the root receives H v;
    Bcast hands every rank the root's next vector."""
    S = {}

    def contribution(vm, send):
        """v with send = hr(rank) v, from the vectors of the recurrence"""
        L, o = S["L"], nd.seq_nd(vm, send)
        if len(o.shape) != 1 or vm.known(smt_int(o.shape[0]) == NB) is not True:
            raise Unsupported("message of another length")
        x = smt.fresh_int("x")
        got = Scalar.of(o.get((x,)))
        cands = [L.at(z3.IntVal(0))] + [L.next(xs[0]) for xs in vm.iterations[::-1] if len(xs) == 1]
        for v in cands:
            want = L.total(lambda y: sc.app("hr", S["rank"], smt_int(x), smt_int(y)) * v(y))
            if sc.is_zero(got - want, vm.asms() + [0 <= x, x < NB]) is True:
                return v
        # accepted while the state of the loop is still being found, not in the last run of the body (checked in post)
        S["loose"] = vm.run_count
        return lambda y: sc.app("unknown", smt_int(y))

    def reduce(vm, a, k):
        if len(a) < 2 or vm.known(smt_int(k.get("root", a[2] if len(a) > 2 and vm.is_intlike(a[2]) else 0)) == 0) is not True \
                or set(k) - {"root"} or len(a) > 3:
            raise Unsupported("Reduce")
        v = contribution(vm, a[0])
        if root:
            nd.nd_setitem(vm, a[1], SliceVal(None, None, None), vm.alloc(SymNdObj((NB,), lambda ix: S["L"].H(v)(ix[0]))))

    def bcast(vm, a, k):
        if len(a) < 1 or vm.known(smt_int(k.get("root", a[1] if len(a) > 1 else 0)) == 0) is not True or not vm.iterations:
            raise Unsupported("Bcast")
        L, o = S["L"], nd.seq_nd(vm, a[0])
        if len(o.shape) != 1 or vm.known(smt_int(o.shape[0]) == NB) is not True:
            raise Unsupported("message of another length")
        v = L.next(vm.iterations[-1][0])
        if root:
            x = smt.fresh_int("x")
            if sc.is_zero(Scalar.of(o.get((x,))) - v(x), vm.asms() + [0 <= x, x < NB]) is not True:
                S["loose"] = vm.run_count
            return
        new = vm.alloc(SymNdObj((NB,), lambda ix: v(ix[0])))
        if o.view is None:
            nd.nd_setitem(vm, a[0], SliceVal(None, None, None), new)
        elif o.origin is not None:
            nd.nd_setitem(vm, o.origin[0], o.origin[1], new)
        else:
            raise Unsupported("Bcast into a view")

    def thunk(vm):
        from pyvc.physlib import _rank
        vm.assume(z3.And(NB >= 1, K >= 1))
        f = vm.function(FIN, "get_tridiagonal_krylov_vectors")
        S["rank"] = _rank(vm)
        vm.assume(vm.rank == 0 if root else vm.rank != 0)
        L = S["L"] = Lanczos(lambda x, y: sc.app("h", smt_int(x), smt_int(y)))
        m = vm.alloc(CsrObj((NB, NB), lambda ix: sc.app("hr", S["rank"], smt_int(ix[0]), smt_int(ix[1])), "complex"))
        psi0 = vm.alloc(SymNdObj((NB,), lambda ix: L.V(z3.IntVal(0), ix[0]), "complex"))
        vm.ghosts += L.ghosts()
        vm.ghosts.append(loops.Ghost("VO", 2, lambda k, ix: sc.ind(ix[0] == 0) * L.V(z3.IntVal(0), ix[1])
                                     + sc.ind(z3.And(ix[0] == 1, k > 0)) * L.V(k, ix[1]),
                                     lambda k, ix: [(ix[0] == 0, L.V(z3.IntVal(0), ix[1])), (ix[0] == 1, L.next(k)(ix[1]))]))
        vm.lib = dict(vm.lib)
        vm.lib["mpi4py.MPI.COMM_WORLD.Reduce"] = reduce
        vm.lib["mpi4py.MPI.COMM_WORLD.Bcast"] = bcast
        return f, [m, psi0, K], {"h_local": True, "mode": mode}

    def post(vm, value):
        if S.get("loose") == vm.run_count:
            raise Unsupported("another message than the vector of the recurrence, or the rank's part of the product")
        if root:
            return coefficients(ck, vm, S["L"], value)
        return [("contributes its part of every product", "proved", "")]
    run1(ck, pid + ".get_tridiagonal_krylov_vectors %s distributed, %s" % (mode, "root" if root else "another rank"),
         "finite.get_tridiagonal_krylov_vectors", thunk, post, lambda vm, e: exhausted(vm, S["L"], e))


def exhausted(vm, L, e):
    """the only refusal: some b(j) with j < size-1 vanishes (the Krylov space is exhausted earlier)"""
    label = "refused only when the Krylov space is exhausted"
    cs = {}
    for x, _ in vm.pc:
        for c in sc.free_consts(x):
            if c.sort() == z3.IntSort():
                cs[str(c)] = c
    for c in cs.values():
        if vm.entails(z3.And(0 <= c, c < kappa() - 1)) is True and \
                vm.entails(z3.Not(sc.as_z3(sc.cond_nz(L.B(c))))) is True:
            return [(label, "proved", "")]
    return [(label, raise_status(vm), "raises %s" % e.typ)]


def together(ck, par, loc):
    """expand_basis_and_hamiltonian: the matrix of the expanded basis, from the same store of actions"""
    S = {}

    def thunk(vm):
        M = S["M"] = Model()
        M.start(vm)
        M.hop = Handle("H", ())
        vm.assume(NB >= 1)
        f = vm.function(FIN, "expand_basis_and_hamiltonian")
        start, store = Handle("starting basis", ()), vm.alloc(MapObj(libs.STATE, lambda B: PSI(B), lambda B: None, "other", (), "h_dict"))
        S["index"] = vm.alloc(MapObj(libs.STATE, lambda B: HAS(B), lambda B: Scalar.of(POS(B)), "scalar", (), "basis_index"))
        vm.get(S["index"]).size = NB
        S["h"] = vm.alloc(CsrObj((NB, NB), lambda ix: sc.app("h", *[smt_int(i) for i in ix]), "complex"))
        grown = Handle("expanded basis", ())

        def expand(vm, bound):
            M.same(vm, bound["n_spin_orbitals"], M.n, "number of spin-orbitals")
            M.same(vm, bound["restrictions"], M.restr, "restrictions")
            M.same(vm, bound["hOp"], M.hop, "operator")
            if bound["h_dict"] != store or bound["basis0"] is not start or bound["parallelization_mode"] != par:
                raise Unsupported("expand_basis with other arguments")
            return grown

        def matrix(vm, bound):
            if bound["h_dict"] != store or bound["basis"] is not grown or bound["parallelization_mode"] != par \
                    or bound["return_h_local"] is not loc or bound["mode"] != "sparse":
                raise Unsupported("get_hamiltonian_matrix_from_h_dict with other arguments")
            return (S["h"], S["index"])
        vm.contracts[FIN, "expand_basis"] = expand
        vm.contracts[FIN, "get_hamiltonian_matrix_from_h_dict"] = matrix
        vm.lib = dict(vm.lib)
        vm.lib["mpi4py.MPI.COMM_WORLD.reduce"] = lambda vm, a, k: Opaque("sum of a message over the ranks")
        return f, [M.n, store, M.hop, start, M.restr], {"parallelization_mode": par, "return_h_local": loc}

    def post(vm, value):
        ok = isinstance(value, tuple) and len(value) == 2 and value[0] == S["h"] and value[1] == S["index"]
        return [("matrix and index of the expanded basis", "proved" if ok else "undecided", "")]
    run1(ck, "C14.expand_basis_and_hamiltonian %s%s" % (par, " local" if loc else ""), "finite.expand_basis_and_hamiltonian", thunk, post)


def zero_under(vm, s, asms):
    r = sc.is_zero(s, vm.asms() + list(asms))
    return ("proved" if r is True else "refuted" if r is False else "undecided"), "" if r is True else short(s)


def same_map(a, b):
    if isinstance(a, DictObj):
        return isinstance(b, DictObj) and not a.d and not b.d
    return isinstance(b, MapObj) and a.dom is b.dom and a.val is b.val


def local(vm, v, par):
    if not isinstance(v, bool) and vm.known(v) is not (par == "H_build") or isinstance(v, bool) and v != (par == "H_build"):
        raise Unsupported("local matrix")
