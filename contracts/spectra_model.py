"""Arguments and callee contracts shared by the contracts of the spectra functions (C15, C16)."""
from .base import *
from . import states
from pyvc import libs, nd
from pyvc.nd import SymNdObj

FIN = ED + ".finite"
SP = ED + ".spectra"
PSI_IN = z3.Function("psi!in", z3.IntSort(), smt.Arr, z3.BoolSort())
T_IN = z3.Function("tact!in", z3.IntSort(), z3.IntSort(), smt.Arr, z3.BoolSort())


class Handle:
    """an operator that is only passed on: family and index"""

    def __init__(self, family, idx):
        self.family, self.idx = family, idx

    def subst_model(self, vm, pairs):
        return Handle(self.family, tuple(z3.substitute(x, *pairs) for x in self.idx))

    def __repr__(self):
        return "<operator %s %s>" % (self.family, self.idx)


def operators(family, n):
    return SymSeq(n, lambda k: Handle(family, (smt_int(k),)), "list", (family,))


def energy(i):
    return sc.app("energy", smt_int(i), real=True)


def eigenstates(vm, n):
    def get(i):
        i = smt_int(i)
        o = MapObj(libs.STATE, lambda B: PSI_IN(i, B), lambda B: sc.ind(PSI_IN(i, B)) * sc.app("psi", i, B), "scalar", (), "psi")
        o.readonly = True
        o.eigenstate = i
        return vm.alloc(o)
    return SymSeq(n, get, "list", ("psis",))


def tact(t, i, B):
    """amplitude of B in transition operator t applied to eigenstate i"""
    return sc.ind(T_IN(t, i, B)) * sc.app("tact", t, i, B)


def norm_sq(family, t, i):
    return states.total(lambda X: tact(t, i, X).conj() * tact(t, i, X))


class Model:
    def start(self, vm):
        self.n = smt.fresh_int("n")
        vm.state_n = self.n
        vm.assume(self.n >= 1)
        self.delta = sc.par("delta", real=True)
        self.cut = sc.par("cut", real=True)
        self.kry = smt.fresh_int("krylov")
        self.restr = Handle("restrictions", ())
        self.nmesh, self.meshes = {}, {}

    def mesh(self, vm, name):
        n = smt.fresh_int("n" + name)
        vm.assume(n >= 0)
        r = vm.alloc(SymNdObj((n,), lambda ix: sc.app("mesh!" + name, smt_int(ix[0]), real=True), "float"))
        self.nmesh[name], self.meshes[name] = n, r
        return r

    def same(self, vm, a, b, what):
        if a is b or isinstance(a, Ref) and a == b:
            return
        if isinstance(a, Handle) and isinstance(b, Handle) and a.family == b.family and len(a.idx) == len(b.idx) \
                and all(x.eq(y) for x, y in zip(a.idx, b.idx)):
            return
        try:
            d = Scalar.of(vm.as_scalar(a)) - Scalar.of(vm.as_scalar(b))
        except Exception:
            raise Unsupported("another %s: %r" % (what, a))
        if sc.is_zero(d, vm.asms()) is not True:
            raise Unsupported("another %s: %r" % (what, a))

    def install(self, vm, serial):
        self.serial = serial
        vm.ghost_stores = True
        for mod in (FIN, SP):
            vm.contracts[mod, "applyOp"] = self.applyOp
            vm.contracts[mod, "norm2"] = states.norm2
            vm.contracts[mod, "getGreen"] = self.getGreen

    # the store holds actions of one operator only
    def store(self, vm, ref, owner):
        if ref is None:
            return
        o = vm.get(ref) if isinstance(ref, Ref) else None
        if not isinstance(o, DictObj) or o.d:
            raise Unsupported("store of actions: %r" % (o,))
        tok = o.__dict__.get("token")
        if tok is None or not getattr(vm, "ghost_stores", False):
            raise Unsupported("store of unknown origin")
        if not tok.claim(owner.family, owner.idx):
            raise Unsupported("store shared between operators")

    def applyOp(self, vm, bound):
        op, psi = bound["op"], bound["psi"]
        self.same(vm, bound["n_spin_orbitals"], self.n, "number of spin-orbitals")
        self.same(vm, bound["slaterWeightMin"], self.cut, "cutoff")
        self.same(vm, bound["restrictions"], self.restr, "restrictions")
        if not isinstance(op, Handle) or op.family != "T":
            raise Unsupported("another operator: %r" % (op,))
        o = vm.get(psi) if isinstance(psi, Ref) else None
        i = getattr(o, "eigenstate", None)
        if i is None or o.writes:
            raise Unsupported("applyOp on another state")
        self.store(vm, bound["opResult"], op)
        t, = op.idx
        return vm.alloc(states.state(lambda B: T_IN(t, i, B), lambda B: tact(t, i, B)))

    def which(self, vm, psi):
        """(t, i) when the state is the normalised transition operator t applied to eigenstate i"""
        D, V = states.parts(vm, psi)
        B = smt.fresh_arr("B")
        v = V(B)
        for j in v.all_atoms() if hasattr(v, "all_atoms") else v.atoms():
            a = sc.ATOMS[j]
            if a.kind == "app" and a.data[0] == "tact" and a.data[1][2].eq(B):
                t, i = a.data[1][:2]
                norm = sc.sqrt(norm_sq("T", t, i))
                if sc.is_zero(v * norm - tact(t, i, B), vm.asms()) is True and vm.entails(D(B) == T_IN(t, i, B)) is True:
                    return t, i
        raise Unsupported("Green's function of another state")

    def getGreen(self, vm, bound):
        self.same(vm, bound["n_spin_orbitals"], self.n, "number of spin-orbitals")
        self.same(vm, bound["slaterWeightMin"], self.cut, "cutoff")
        self.same(vm, bound["restrictions"], self.restr, "restrictions")
        self.same(vm, bound["krylovSize"], self.kry, "Krylov size")
        self.same(vm, bound["delta"], self.delta, "broadening")
        self.same(vm, bound["omega"], self.meshes["w"], "mesh")
        self.same(vm, bound["hOp"], self.hop, "operator")
        if bound["mode"] != "sparse" and bound["mode"] != "dense":
            raise Unsupported("mode of getGreen")
        if bound["parallelization_mode"] not in (("serial",) if self.serial else ("serial", "H_build")):
            raise Unsupported("parallel mode of getGreen")
        self.store(vm, bound["h_dict"], self.hop)
        t, i = self.which(vm, bound["psi"])
        e = Scalar.of(vm.as_scalar(bound["e"]))
        (k, c), = e.t.items() if len(e.t) == 1 else [((None, ()), None)]
        a = sc.ATOMS[k[1][0][0]] if k[1] else None
        if a is None or a.kind != "app" or a.data[0] != "energy" or e != energy(a.data[1][0]):
            raise Unsupported("energy of Green's function")
        j = a.data[1][0]
        n = self.nmesh["w"]
        return vm.alloc(SymNdObj((n,), lambda ix: sc.app("green", t, i, j, smt_int(ix[0])), "complex"))


def product_states(vm, v, dom, asms=()):
    """v holds exactly the product states B with dom(B) (a view, list, tuple or set of the keys of a state)"""
    from pyvc import loops
    c = loops.collection(vm, v)
    B = fresh_state(vm, "B")
    if len(c.sorts) != 1 or c.sorts[0] != smt.Arr:
        raise Unsupported("product states %r" % (v,))
    e = c.elem([B])
    o = libs.STATE.unwrap(vm, e)
    if not (smt.is_z3(o) and o.eq(B)):
        raise Unsupported("product states %r" % (v,))
    if vm.entails(sc.as_z3(c.guard([B])) == dom(B)) is not True:
        raise Unsupported("other product states")

