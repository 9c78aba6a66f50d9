"""C27: what a run computes, stores and writes (simulate_spectra), for all inputs and meshes of any length.

The operators, Green's functions, RIXS maps and thermal averages enter by contract: a call returns an uninterpreted
array that is named after the call, and the arguments of the call are recorded."""
from .base import *
from .c03 import zero
from .spectra_model import Handle
from pyvc import nd
from pyvc.nd import SymNdObj, H5File

SP = ED + ".spectra"
NQ, NPOL, NIN, NOUT = 2, 3, 2, 4


class Call:
    def __init__(self, name, args, out):
        self.name, self.args, self.out = name, args, out


class Model:
    def start(self, vm):
        self.calls = []
        self.E = smt.fresh_int("E")
        vm.assume(self.E >= 1)
        self.nB = [smt.fresh_int("nb") for _ in range(2)]
        for b in self.nB:
            vm.assume(b >= 0)
        self.a = {}
        for k in ("psis", "hOp", "restrictions", "epsilons", "qsNIXS", "RiNIXS", "RjNIXS", "radialMesh", "epsilonsRIXSin", "epsilonsRIXSout"):
            self.a[k] = Handle(k, ())
        self.es = SymSeq(self.E, lambda k: sc.app("energy", smt_int(k), real=True), "tuple", ("es",))
        self.a["es"] = self.es
        for k in ("T", "delta", "deltaNIXS", "deltaRIXS"):
            self.a[k] = sc.par(k, real=True)
        self.a["liNIXS"], self.a["ljNIXS"] = smt.fresh_int("li"), smt.fresh_int("lj")
        self.len = {}
        for k in ("w", "wLoss", "wIn"):
            n = smt.fresh_int("n" + k)
            vm.assume(n >= 1)
            self.len[k] = n
            self.a[k] = vm.alloc(SymNdObj((n,), (lambda k: lambda ix: self.mesh(k, ix[0]))(k), "float"))
        self.a["nBaths"] = vm.alloc(DictObj({1: (True, 1, self.nB[0]), 2: (True, 2, self.nB[1])}))

    def mesh(self, k, i):
        return sc.app("mesh!" + k, smt_int(i), real=True)

    def install(self, vm):
        for name in ("getInversePhotoEmissionOperators", "getPhotoEmissionOperators", "getNIXSOperators", "getDipoleOperators",
                     "getDaggeredDipoleOperators", "getSpectra", "getRIXSmap", "thermal_average"):
            c = (lambda name: lambda vm, bound: self.call(vm, name, dict(bound)))(name)
            vm.contracts[SP, name] = c
            if name == "thermal_average":
                vm.contracts[ED + ".average", name] = c

    def call(self, vm, name, b):
        k = len(self.calls)
        for x, v in list(b.items()):
            if isinstance(v, Ref) and isinstance(vm.get(v), (NdObj, SymNdObj)):
                o = nd.seq_nd(vm, v)
                b[x] = SymNdObj(o.shape, o.get, o.dtype)
        if name == "getSpectra" or name == "getRIXSmap":
            lens = [self.E] + [self.count(vm, b[x]) for x in (("tOpsIn", "tOpsOut") if name == "getRIXSmap" else ("tOps",))] + \
                [self.length(b[x]) for x in (("wIns", "wLoss") if name == "getRIXSmap" else ("w",))]
            out = vm.alloc(SymNdObj(tuple(lens), lambda ix: sc.app("G#%d" % k, *[smt_int(i) for i in ix]), "complex"))
        elif name == "thermal_average":
            o = b["observable"]
            if not isinstance(o, SymNdObj):
                raise Unsupported("observable of the thermal average")
            out = vm.alloc(SymNdObj(tuple(o.shape[1:]), lambda ix: sc.app("avg#%d" % k, *[smt_int(i) for i in ix], real=True), "float"))
        else:
            n = {"getNIXSOperators": NQ, "getDipoleOperators": NPOL if b.get("ns") is self.a["epsilons"] else NIN, "getDaggeredDipoleOperators": NOUT}.get(name)
            if n is None:
                if not isinstance(b["l"], int):
                    raise Unsupported("angular momentum of the operators")
                n = 2 * (2 * b["l"] + 1)
            out = vm.alloc(ListObj([Handle(("T", k), (z3.IntVal(i),)) for i in range(n)]))
        self.calls.append(Call(name, b, out))
        return out

    def count(self, vm, ops):
        items = vm.concrete_items(ops)
        if items is None:
            raise Unsupported("list of operators")
        return len(items)

    def length(self, m):
        if not isinstance(m, SymNdObj) or len(m.shape) != 1:
            raise Unsupported("mesh")
        return m.shape[0]

    # -- comparison of arguments
    def same(self, vm, got, want):
        """True, False or None"""
        if isinstance(want, Call):
            return self.same_ops(vm, got, want)
        if isinstance(want, Handle):
            return isinstance(got, Handle) and got.family == want.family
        if want is self.es:
            if isinstance(got, Ref) or isinstance(got, SymSeq):
                from pyvc.libs import as_seq
                s = got if isinstance(got, SymSeq) else as_seq(vm, got)
                k = smt.fresh_int("k")
                if vm.known(vm._eqi(s.length, self.E)) is not True:
                    return None
                return sc.is_zero(Scalar.of(s.get(k)) - sc.app("energy", k, real=True), list(vm.asms()) + [0 <= k, k < self.E])
            if isinstance(got, SymNdObj):
                k = smt.fresh_int("k")
                return sc.is_zero(Scalar.of(got.get([k])) - sc.app("energy", k, real=True), vm.asms())
            return None
        if isinstance(want, tuple) and want[0] == "mesh":
            _, name, sign = want
            if not isinstance(got, SymNdObj):
                return None
            k = smt.fresh_int("k")
            if vm.known(vm._eqi(got.shape[0], self.len[name])) is not True:
                return False
            return sc.is_zero(Scalar.of(got.get([k])) - self.mesh(name, k) * sign, vm.asms())
        if isinstance(want, Ref):
            return True if isinstance(got, Ref) and got == want else None
        if want is None or isinstance(want, str):
            return got == want
        if isinstance(got, (Handle, Ref, SymNdObj)):
            return False
        return sc.is_zero(Scalar.of(vm.as_scalar(got)) - Scalar.of(vm.as_scalar(want)), vm.asms())

    def same_ops(self, vm, got, call):
        want = vm.get(call.out).items
        items = vm.concrete_items(got)
        if items is None:
            return None
        items = [x for _, x in items]
        return len(items) == len(want) and all(isinstance(x, Handle) and x.family == y.family and x.idx[0].eq(y.idx[0])
                                               for x, y in zip(items, want))

    def find(self, vm, name, **want):
        """the calls of that function with those arguments"""
        out, unsure = [], False
        for k, c in enumerate(self.calls):
            if c.name != name:
                continue
            rs = [self.same(vm, c.args[x], v) if x in c.args else None for x, v in want.items()]
            if all(r is True for r in rs):
                out.append(k)
            elif not any(r is False for r in rs):
                unsure = True
        return out, unsure


def build(ck):
    ck.assume_note("the operators (C22, C23), Green's functions (C15), RIXS maps (C16) and thermal averages (C17) depend on their arguments only")
    ck.assume_note("h5py, numpy.savetxt and ndarray.tofile write the array they are given; single precision of RIXS.bin is not modelled")
    for root in (True, False):
        simulate(ck, root)


ORDER = ["es", "psis", "hOp", "T", "w", "delta", "epsilons", "wLoss", "deltaNIXS", "qsNIXS", "liNIXS", "ljNIXS", "RiNIXS", "RjNIXS",
         "radialMesh", "wIn", "deltaRIXS", "epsilonsRIXSin", "epsilonsRIXSout", "restrictions", "h5f", "nBaths"]


def simulate(ck, root):
    M = Model()

    def thunk(vm):
        M.start(vm)
        M.install(vm)
        from pyvc.physlib import _rank
        r = _rank(vm)
        vm.assume(r == 0 if root else r != 0)
        vm.output_log = vm.alloc(ListObj([]))
        M.log = vm.output_log
        M.a["h5f"] = H5File() if root else None
        return vm.function(SP, "simulate_spectra"), [], dict((k, M.a[k]) for k in ORDER)

    def post(vm, _):
        out = {}
        rows = []
        for x in vm.get(M.log).items:
            if (x.kind, x.name) in out:
                rows.append(("written once", "refuted", "%s written twice" % x.name))
            out[x.kind, x.name] = x.data
        if not root:
            rows.append(("nothing written by other ranks", "proved" if not out else "refuted", str(list(out))))
        a = M.a
        n = sum(([2 * (2 * l + 1), b] for l, b in zip((1, 2), M.nB)), [])
        n = sum(n[1:], n[0])
        common = dict(n_spin_orbitals=n, hOp=a["hOp"], psis=a["psis"], es=M.es, restrictions=a["restrictions"])

        def ops(name, **kw):
            ks, unsure = M.find(vm, name, nBaths=a["nBaths"], **kw)
            return [M.calls[k] for k in ks], unsure

        def green(ops_, name="getSpectra", **kw):
            """names of the Green's functions asked for with these arguments"""
            cs, unsure = ops_
            out = []
            for c in cs:
                key = {"tOps": c} if name == "getSpectra" else {"tOpsIn": c}
                ks, u = M.find(vm, name, **common, **key, **kw)
                out += ks
                unsure |= u
            return out, unsure
        ips = green(ops("getInversePhotoEmissionOperators", l=2), w=("mesh", "w", 1), delta=a["delta"])
        neg = dict(w=("mesh", "w", -1), delta=-a["delta"])
        ps = green(ops("getPhotoEmissionOperators", l=2), **neg)
        xps = green(ops("getPhotoEmissionOperators", l=1), **neg)
        nixs = green(ops("getNIXSOperators", qs=a["qsNIXS"], li=a["liNIXS"], lj=a["ljNIXS"], Ri=a["RiNIXS"], Rj=a["RjNIXS"], r=a["radialMesh"], kmin=1),
                     w=("mesh", "wLoss", 1), delta=a["deltaNIXS"])
        xas = green(ops("getDipoleOperators", ns=a["epsilons"]), w=("mesh", "w", 1), delta=a["delta"])
        outs, u = ops("getDaggeredDipoleOperators", ns=a["epsilonsRIXSout"])
        rixs = ([], u)
        for c in outs:
            g = green(ops("getDipoleOperators", ns=a["epsilonsRIXSin"]), "getRIXSmap", tOpsOut=c, wIns=("mesh", "wIn", 1), wLoss=("mesh", "wLoss", 1),
                      delta1=a["delta"], delta2=a["deltaRIXS"])
            rixs = (rixs[0] + g[0], rixs[1] or g[1])
        spectra = [("PS", [(ips, 1), (ps, -1)], (10,), ("w",)), ("XPS", [(xps, -1)], (6,), ("w",)), ("NIXS", [(nixs, 1)], (NQ,), ("wLoss",)),
                   ("XAS", [(xas, 1)], (NPOL,), ("w",)), ("RIXS", [(rixs, 1)], (NIN, NOUT), ("wIn", "wLoss"))]
        for name, parts, nt, meshes in spectra:
            missing = [g for g, _ in parts if not g[0]]
            if missing:
                st = "undecided" if any(u for _, u in missing) else "refuted"
                rows.append((name + ": computed with the run's inputs", st, "no call with the arguments specified"))
                continue
            rows.append((name + ": computed with the run's inputs", "proved", ""))
            shape = (M.E,) + nt + tuple(M.len[m] for m in meshes)
            if root:
                rows += stored(vm, name, parts, shape, out)
        return rows

    def stored(vm, name, parts, shape, out):
        ix = [smt.fresh_int("i") for _ in shape]
        for i, d in zip(ix, shape):
            vm.assume(z3.And(0 <= i, i < smt_int(d)))
        rows = []
        if ("h5", name) not in out or ("h5", name + "thermal") not in out:
            return [(name + ": stored", "refuted", "data set missing")]
        data, th = out["h5", name], out["h5", name + "thermal"]
        rows.append((name + ": shape of the data set", *same_shape(vm, data, shape)))
        want = sc.SZERO
        for (ks, _), sign in parts:
            want = want - sc.app("G#%d" % ks[0], *ix).imag * sign
        rows.append((name + ": minus the imaginary part", *zero(vm, Scalar.of(data.get(ix)) - want)))
        # thermal average of what is stored
        rows.append((name + ": shape of the average", *same_shape(vm, th, shape[1:])))
        k = [j for j, c in enumerate(M.calls) if c.name == "thermal_average"
             and sc.is_zero(Scalar.of(th.get(ix[1:])) - sc.app("avg#%d" % j, *ix[1:], real=True), vm.asms()) is True]
        if not k:
            return rows + [(name + ": thermal average", "undecided", "another quantity")]
        c = M.calls[k[0]]
        rows.append((name + ": average of the stored spectrum", *zero(vm, Scalar.of(c.args["observable"].get(ix)) - want)))
        for lab, got, w in (("energies", c.args["energies"], M.es), ("temperature", c.args["T"], M.a["T"])):
            r = M.same(vm, got, w)
            rows.append((name + ": average over the right " + lab, "proved" if r is True else "refuted" if r is False else "undecided", repr(got)[:100]))
        avg = lambda *t: sc.app("avg#%d" % k[0], *[smt_int(i) for i in t], real=True)
        if name == "RIXS":
            f = out.get(("tofile", "RIXS.bin"))
            if f is None:
                return rows + [("RIXS.bin", "refuted", "not written")]
            nl, ni = M.len["wLoss"], M.len["wIn"]
            rows.append(("RIXS.bin: shape", *same_shape(vm, f, (nl + 1, ni + 1))))
            if rows[-1][1] != "proved":
                return rows
            il, ii = ix[4], ix[3]
            tot = sc.SZERO
            for p in range(NIN):
                for q in range(NOUT):
                    tot = tot + avg(p, q, ii, il)
            z = z3.IntVal(0)
            for lab, jx, w in (("corner", [z, z], sc.from_int(ni)), ("first row", [z, ii + 1], M.mesh("wIn", ii)),
                               ("first column", [il + 1, z], M.mesh("wLoss", il)), ("body", [il + 1, ii + 1], tot)):
                rows.append(("RIXS.bin: " + lab, *zero(vm, Scalar.of(f.get(jx)) - w)))
            return rows
        f = out.get(("savetxt", name + ".dat"))
        if f is None:
            return rows + [(name + ".dat", "refuted", "not written")]
        nt, m = shape[1], ix[2]
        mesh = "wLoss" if name == "NIXS" else "w"
        rows.append((name + ".dat: shape", *same_shape(vm, f, (shape[2], nt + 2))))
        if rows[-1][1] != "proved":
            return rows
        tot = sc.SZERO
        for t in range(nt):
            tot = tot + avg(t, m)
        rows.append((name + ".dat: mesh", *zero(vm, Scalar.of(f.get([m, 0])) - M.mesh(mesh, m))))
        rows.append((name + ".dat: sum", *zero(vm, Scalar.of(f.get([m, 1])) - tot)))
        for t in range(nt):
            rows.append((name + ".dat: components", *zero(vm, Scalar.of(f.get([m, t + 2])) - avg(t, m))))
        return rows

    def same_shape(vm, o, shape):
        if len(o.shape) != len(shape):
            return "refuted", "%d axes" % len(o.shape)
        return ck.judge(vm, z3.And(*[smt_int(x) == smt_int(y) for x, y in zip(o.shape, shape)]))
    run1(ck, "C27.simulate_spectra, %s" % ("root" if root else "other ranks"), "spectra.simulate_spectra", thunk, post)
