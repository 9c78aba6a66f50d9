"""C16: RIXS values use each state's own energy and each operator's own action (getRIXSmap).

applyOp (C04-C06), norm2 (C03), get_job_tasks (C12), expand_basis_and_hamiltonian (C10, C11), getGreen (C14) and
scipy's bicgstab enter by contract."""
from .base import *
from .c03 import zero
from . import ranks, states
from .spectra_model import *
from pyvc import libs, nd, loops

I = z3.IntSort()
# the core-hole space of incoming operator t and eigenstate i
XBAS = z3.Function("x!bas", I, I, I, smt.Arr)          # (t, i, position)
XPOS = z3.Function("x!pos", I, I, smt.Arr, I)
XHAS = z3.Function("x!has", I, I, smt.Arr, z3.BoolSort())
XINFO = z3.Function("x!info", I, I, I, I)
XN = z3.Function("x!n", I, I, I)
# product states reached by outgoing operator o from the intermediate state of (t, i, incoming energy j)
R_IN = z3.Function("ract!in", I, I, I, I, smt.Arr, z3.BoolSort())

sc.INVERSES["x!bas"] = (lambda w, t, i: XPOS(t, i, w), lambda w, t, i: XHAS(t, i, w))
sc.COND_INVERSES["x!pos"] = (lambda w, t, i: XBAS(t, i, w), lambda w, t, i: z3.And(0 <= w, w < XN(t, i)),
                             lambda x, t, i: XHAS(t, i, x))
CURRENT = []          # number of spin-orbitals of the call being verified


def _facts(terms):
    out = []
    for x in terms:
        if x.name == "x!bas":
            t, i, k = x.kids
            out.append(z3.Implies(z3.And(0 <= k, k < XN(t, i)), z3.And(XHAS(t, i, x.t), XPOS(t, i, x.t) == k, *([smt.canonical(x.t, CURRENT[0])] if CURRENT else []))))
        elif x.name in ("x!pos", "x!has"):
            t, i, w = x.kids
            if z3.is_app(w) and w.decl().name() == "x!bas":
                continue
            out.append(z3.Implies(XHAS(t, i, w), z3.And(0 <= XPOS(t, i, w), XPOS(t, i, w) < XN(t, i), XBAS(t, i, XPOS(t, i, w)) == w)))
        elif x.name == "x!n":
            out.append(x.t >= 0)
    return out


smt.INSTANTIATORS.append(_facts)


def ract(o, t, i, j, B):
    return sc.ind(R_IN(o, t, i, j, B)) * sc.app("ract", o, t, i, j, B)


def weight(o, t, i, j):
    return states.total(lambda X: ract(o, t, i, j, X).conj() * ract(o, t, i, j, X))


def find(s, name, accept=lambda a: True):
    """the applications of a function in a quantity"""
    out = []
    for k in s.atoms() if not hasattr(s, "all_atoms") else s.all_atoms():
        a = sc.ATOMS[k]
        a = a.data if a.kind == "conj" else a
        if a.kind == "app" and a.data[0] == name and accept(a):
            out.append(a)
    return out


class Rixs(Model):
    def start(self, vm, mode):
        Model.start(self, vm)
        self.mode = mode
        CURRENT[:] = [self.n]
        self.d1, self.d2 = sc.par("delta1", real=True), sc.par("delta2", real=True)
        # the parallel mode of the actions remembered for the two Hamiltonian stores
        self.modes = {"serial": ("serial",), "H_build": ("serial", "H_build"), "wIn": ("serial",), "H_build_wIn": ("serial", "H_build")}[mode]

    def tact(self, t, i, B):
        return sc.ind(z3.And(T_IN(t, i, B), XHAS(t, i, B))) * sc.app("tact", t, i, B)

    def applyOp(self, vm, bound):
        op, psi = bound["op"], bound["psi"]
        self.same(vm, bound["n_spin_orbitals"], self.n, "number of spin-orbitals")
        self.same(vm, bound["slaterWeightMin"], self.cut, "cutoff")
        self.same(vm, bound["restrictions"], self.restr, "restrictions")
        if not isinstance(op, Handle):
            raise Unsupported("another operator: %r" % (op,))
        self.store(vm, bound["opResult"], op)
        k, = op.idx
        if op.family == "In":
            o = vm.get(psi) if isinstance(psi, Ref) else None
            i = getattr(o, "eigenstate", None)
            if i is None or o.writes:
                raise Unsupported("applyOp on another state")
            # every product state of the result is in the core-hole space (it is what the space is expanded from, C11)
            r = states.state(lambda B: z3.And(T_IN(k, i, B), XHAS(k, i, B)), lambda B: self.tact(k, i, B))
            r.made = ("psi1", k, i)
            return vm.alloc(r)
        if op.family != "Out":
            raise Unsupported("another operator: %r" % (op,))
        t, i, j = self.intermediate(vm, psi)
        return vm.alloc(states.state(lambda B: R_IN(k, t, i, j, B), lambda B: ract(k, t, i, j, B)))

    def intermediate(self, vm, psi):
        """(t, i, j) when the state is the solution of the linear equations for operator t, state i and incoming energy j"""
        D, V = states.parts(vm, psi)
        B = fresh_state(vm, "B")
        for a in find(V(B), "xres"):
            t, i, j, r = a.data[1]
            want = sc.ind(XHAS(t, i, B)) * sc.app("xres", t, i, j, XPOS(t, i, B))
            if sc.is_zero(V(B) - want, vm.asms()) is True and \
                    vm.entails(D(B) == z3.And(XHAS(t, i, B), sc.as_z3(sc.cond_nz(sc.app("xres", t, i, j, XPOS(t, i, B)))))) is True:
                return t, i, j
        raise Unsupported("outgoing operator applied to another state")

    def expand(self, vm, bound):
        self.same(vm, bound["n_spin_orbitals"], self.n, "number of spin-orbitals")
        self.same(vm, bound["restrictions"], self.restr, "restrictions")
        self.same(vm, bound["hOp"], self.hop, "operator")
        if bound["return_h_local"] is not False:
            raise Unsupported("local part of the matrix")
        par = bound["parallelization_mode"]
        if par not in self.modes:
            raise Unsupported("parallel mode")
        self.store(vm, bound["h_dict"], Handle("H " + par, ()))
        t, i = self.start_space(vm, bound["basis0"])
        index = MapObj(libs.STATE, lambda B: XHAS(t, i, B), lambda B: Scalar.of(XPOS(t, i, B)), "scalar", (), "basis_index")
        index.size = XN(t, i)
        index.readonly = True
        h = CsrObj((XN(t, i), XN(t, i)), lambda ix: sc.app("hx", t, i, smt_int(ix[0]), smt_int(ix[1])), "complex")
        return (vm.alloc(h), vm.alloc(index))

    def start_space(self, vm, v):
        c = loops.collection(vm, v)
        B = fresh_state(vm, "B")
        g = sc.as_z3(c.guard([B])) if len(c.sorts) == 1 and c.sorts[0] == smt.Arr else z3.BoolVal(True)
        todo = [g]
        while todo:
            e = todo.pop()
            if z3.is_app(e) and e.decl().name() == "tact!in":
                t, i, _ = e.children()
                product_states(vm, v, lambda B: z3.And(T_IN(t, i, B), XHAS(t, i, B)))
                return t, i
            todo += e.children()
        raise Unsupported("core-hole space of other product states")

    def bicgstab(self, vm, a, k):
        if k or len(a) != 2:
            raise Unsupported("options of bicgstab")
        A, y = vm.get(a[0]), nd.seq_nd(vm, a[1])
        if not isinstance(A, CsrObj) or y is None or len(y.shape) != 1:
            raise Unsupported("bicgstab")
        r, c = smt.fresh_int("r"), smt.fresh_int("c")
        got = Scalar.of(vm.as_scalar(A.get((r, c))))
        hx, en, mesh = find(got, "hx"), find(got, "energy"), find(got, "mesh!wIn")
        if not hx or not en or not mesh:
            raise Unsupported("another matrix")
        t, i = hx[0].data[1][:2]
        j = mesh[0].data[1][0]
        n = XN(t, i)
        rng = [0 <= r, r < n, 0 <= c, c < n]
        z = sc.app("mesh!wIn", j, real=True) + self.d1 * sc.I + energy(i)
        if any(vm.known(smt_int(x) == n) is not True for x in (*A.shape, y.shape[0])):
            raise Unsupported("size of the linear equations")
        if sc.is_zero(got - sc.ind(r == c) * z + sc.app("hx", t, i, r, c), vm.asms() + rng) is not True:
            raise Unsupported("another matrix: %s" % short(got))
        if sc.is_zero(Scalar.of(vm.as_scalar(y.get((r,)))) - self.tact(t, i, XBAS(t, i, r)), vm.asms() + rng[:2]) is not True:
            raise Unsupported("another right-hand side: %s" % short(y.get((r,))))
        x = vm.alloc(SymNdObj((n,), lambda ix: sc.app("xres", t, i, j, smt_int(ix[0])), "complex"))
        return (x, XINFO(t, i, j))

    def green(self, vm, bound):
        self.same(vm, bound["n_spin_orbitals"], self.n, "number of spin-orbitals")
        self.same(vm, bound["slaterWeightMin"], self.cut, "cutoff")
        self.same(vm, bound["restrictions"], self.restr, "restrictions")
        self.same(vm, bound["krylovSize"], self.kry, "Krylov size")
        self.same(vm, bound["delta"], self.d2, "broadening")
        self.same(vm, bound["omega"], self.meshes["wLoss"], "mesh")
        self.same(vm, bound["hOp"], self.hop, "operator")
        if bound["mode"] not in ("sparse", "dense"):
            raise Unsupported("mode of getGreen")
        # the ranks take different incoming energies in the wIn modes
        par = bound["parallelization_mode"]
        if par not in (self.modes if self.mode in ("serial", "H_build") else ("serial",)):
            raise Unsupported("parallel mode of getGreen")
        self.store(vm, bound["h_dict"], Handle("H " + par, ()))
        o, t, i, j = self.final_state(vm, bound["psi"])
        if sc.is_zero(Scalar.of(vm.as_scalar(bound["e"])) - energy(i), vm.asms()) is not True:
            raise Unsupported("energy of Green's function")
        return vm.alloc(SymNdObj((self.nmesh["wLoss"],), lambda ix: sc.app("gloss", o, t, i, j, smt_int(ix[0])), "complex"))

    def final_state(self, vm, psi):
        """(o, t, i, j) of the normalised state, without product states of weight below the cutoff"""
        D, V = states.parts(vm, psi)
        B = fresh_state(vm, "B")
        for a in find(V(B), "ract"):
            o, t, i, j, X = a.data[1]
            for f in (ract(o, t, i, j, B), sc.app("ract", o, t, i, j, B)):
                amp = f * sc.sqrt(weight(o, t, i, j)).inverse()
                keep = z3.And(R_IN(o, t, i, j, B), z3.Not(sc.as_z3(sc.cond_lt0(sc.absval(amp) ** 2 - self.cut))))
                if vm.entails(D(B) == keep) is True and sc.is_zero(V(B) - sc.ind(keep) * amp, vm.asms()) is True:
                    return o, t, i, j
        raise Unsupported("Green's function of another state")


def build(ck):
    ck.assume_note("every rank runs the same code on the same arguments; bcast hands every rank the root's object")
    ck.assume_note("a many-body state with stored amplitudes has nonzero norm (applyOp stores no zero amplitudes, C04)")
    ck.assume_note("bicgstab depends on its two arguments only; its convergence is not part of this property")
    ck.assume_note("getGreen depends on its state, energy, mesh, broadening, operator, restrictions and Krylov size only, "
                   "whatever actions of this operator are remembered in a store used with one parallel mode (C06, C13, C14)")
    for mode in ("serial", "H_build", "wIn", "H_build_wIn"):
        one(ck, mode)


def one(ck, mode):
    M = Rixs()

    def thunk(vm):
        M.start(vm, mode)
        M.nIn, M.nOut, M.nE = smt.fresh_int("nIn"), smt.fresh_int("nOut"), smt.fresh_int("nE")
        vm.assume(z3.And(M.nIn >= 0, M.nOut >= 0, M.nE >= 0))
        M.hop = Handle("H", ())
        es = vm.alloc(SymNdObj((M.nE,), lambda ix: energy(ix[0]), "float"))
        f = vm.function(SP, "getRIXSmap")
        ranks.RULES.clear()
        for mod in (FIN, SP):
            vm.contracts[mod, "applyOp"] = M.applyOp
            vm.contracts[mod, "norm2"] = states.norm2
            vm.contracts[mod, "getGreen"] = M.green
            vm.contracts[mod, "expand_basis_and_hamiltonian"] = M.expand
            vm.contracts[mod, "get_job_tasks"] = ranks.job_contract
        vm.lib = dict(vm.lib)
        vm.lib["scipy.sparse.linalg.bicgstab"] = M.bicgstab
        vm.ghost_stores = True
        return f, [M.n, M.hop, operators("In", M.nIn), operators("Out", M.nOut), eigenstates(vm, M.nE), es,
                   M.mesh(vm, "wIn"), M.mesh(vm, "wLoss"), M.d1, M.d2, M.restr, M.kry, M.cut], {"parallelization_mode": mode}

    def post(vm, value):
        g = nd.seq_nd(vm, value)
        i, t, o, j, m = (smt.fresh_int(x) for x in "itojm")
        sizes = (M.nE, M.nIn, M.nOut, M.nmesh["wIn"], M.nmesh["wLoss"])
        for x, n in zip((i, t, o, j, m), sizes):
            vm.assume(z3.And(0 <= x, x < n))
        rows = [("shape", *ck.judge(vm, z3.And(len(g.shape) == 5, *[smt_int(a) == b for a, b in zip(g.shape, sizes)])))]
        want = weight(o, t, i, j) * sc.app("gloss", o, t, i, j, m)
        rows.append(("entry (state, in, out, incoming energy, loss)", *zero(vm, Scalar.of(vm.as_scalar(g.get((i, t, o, j, m)))) - want)))
        return rows
    run1(ck, "C16.getRIXSmap " + mode, "spectra.getRIXSmap", thunk, post)
