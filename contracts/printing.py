"""What printExpValues and printThermalExpValues report.  The expectation values of a state (C20, C21) and the thermal
average (C17) enter by contract; the text that is printed is taken apart into literal pieces and formatted values."""
from .base import *
from .c03 import zero
from .spectra_model import Handle
from pyvc import libs, nd
from pyvc.nd import SymNdObj
from pyvc.loops import collection

FIN = ED + ".finite"
# function of finite.py -> names of the numbers it returns
VALUES = {"getTraceDensityMatrix": "N", "getLz3d": "Lz", "getSz3d": "Sz", "getLsqr3d": "L2", "getSsqr3d": "S2"}
OCC = ("egDn", "egUp", "t2gDn", "t2gUp")
DEFAULTS = {"l": 2}


def energy(i):
    return sc.app("energy", smt_int(i), real=True)


def value(name, i):
    return sc.app("value!" + name, smt_int(i), real=True)


class States:
    """N states: energies, a list of states that are only passed on"""

    def __init__(self, vm, lowest_first=True):
        self.N = smt.fresh_int("N")
        vm.assume(self.N >= 1)
        self.nb = Handle("bath numbers", ())
        self.es = vm.alloc(SymNdObj((self.N,), lambda ix: energy(ix[0]), "float"))
        self.psis = vm.alloc(ListObj([], SymSeq(self.N, lambda k: Handle("state", (smt_int(k),)), "list")))
        for f, name in VALUES.items():
            vm.contracts[FIN, f] = lambda vm, b, name=name: self.expect(vm, b, [name])
        vm.contracts[FIN, "getEgT2gOccupation"] = lambda vm, b: self.expect(vm, b, OCC)
        vm.lib["numpy.array"] = array
        vm.lib["numpy.asarray"] = array

    def expect(self, vm, b, names):
        psi = b["psi"]
        if not isinstance(psi, Handle) or psi.family != "state":
            raise Unsupported("expectation value of another state")
        if b["nBaths"] is not self.nb:
            raise Unsupported("other numbers of bath states")
        if b.get("l", 2) != 2:
            raise Unsupported("another shell")
        out = [value(n, psi.idx[0]) for n in names]
        return out[0] if len(out) == 1 else tuple(out)


class ObjArray(Obj):
    """one-dimensional array of objects"""

    def __init__(self, seq):
        self.seq = seq

    def clone(self):
        return ObjArray(self.seq)

    def subst_obj(self, vm, pairs):
        from pyvc.loops import subst_val
        return ObjArray(subst_val(vm, self.seq, pairs))

    def len_obj(self, vm):
        return self.seq.length

    def collection_obj(self, vm, ref):
        return collection(vm, self.seq)

    def getitem_obj(self, vm, ref, idx):
        if isinstance(idx, Ref) and type(vm.get(idx)) is SymNdObj and vm.get(idx).dtype == "bool":
            return nd.masked(vm, vm.get(idx), self.seq.length, self.seq.get)
        return libs.getitem(vm, self.seq, idx)


def array(vm, a, k):
    v = a[0]
    o = vm.get(v) if isinstance(v, Ref) else None
    if isinstance(o, MaskedObj):
        return v
    if isinstance(o, ListObj) and isinstance(o.base, SymComp) and not o.items:
        return vm.alloc(MaskedObj(o.base))
    if isinstance(o, ListObj) and isinstance(o.base, SymSeq) and not o.items and isinstance(o.base.get(smt.fresh_int("k")), Handle):
        return vm.alloc(ObjArray(o.base))
    return nd._array(vm, a, k)


def selection(vm, v):
    """(binder, condition, element) of a masked array or list built from one"""
    o = vm.get(v) if isinstance(v, Ref) else None
    c = o.comp if isinstance(o, MaskedObj) else o.base if isinstance(o, ListObj) and not o.items else v
    if isinstance(c, SymComp) and len(c.binders) == 1:
        return c.binders[0], sc.as_z3(c.cond), c.elem
    if isinstance(c, SymSeq):
        i = smt.fresh_int("i")
        return i, z3.And(0 <= i, i < smt_int(c.length)), c.get(i)
    raise Unsupported("average over %r" % (o or v,))


def average_contract(vm, b):
    """C17: sum_i exp(-e_i/kT) o_i / sum_i exp(-e_i/kT) over the same states"""
    from .c17 import kB
    from pyvc.loops import subst_val
    T = Scalar.of(vm.as_scalar(b["T"]))
    i, c, e = selection(vm, b["energies"])
    j, d, o = selection(vm, b["observable"])
    d = z3.substitute(d, (j, i))
    if smt.entails(vm.asms(), c == d) is not True:
        raise Unsupported("energies and observables of different states")
    o = subst_val(vm, o, [(j, i)])
    w = sc.ind(c) * sc.exp(-Scalar.of(vm.as_scalar(e)) * (kB(vm) * T).inverse())
    den = sc.Sum(i, w).inverse()
    if isinstance(o, Ref) and isinstance(vm.get(o), NdObj):
        o = tuple(vm.get(o).a)
    if isinstance(o, tuple):
        import numpy as np
        a = np.empty(len(o), dtype=object)
        for n, x in enumerate(o):
            a[n] = sc.Sum(i, w * Scalar.of(vm.as_scalar(x))) * den
        return vm.alloc(NdObj(a, "float"))
    return sc.Sum(i, w * Scalar.of(vm.as_scalar(o))) * den


def pieces(vals):
    """the printed line as [str | (value, format)]; None when it is not known"""
    out = []
    for v in vals:
        if out:
            out.append(" ")
        if isinstance(v, str):
            out.append(v)
        elif isinstance(v, Opaque) and v.parts is not None:
            out += v.parts
        elif isinstance(v, Opaque):
            return None
        else:
            out.append((v, ""))
    return out


THERMAL = [("E-E0", None), ("N(3d)", "N"), ("N(egDn)", "egDn"), ("N(egUp)", "egUp"), ("N(t2gDn)", "t2gDn"), ("N(t2gUp)", "t2gUp"),
           ("Lz(3d)", "Lz"), ("Sz(3d)", "Sz"), ("L^2(3d)", "L2"), ("S^2(3d)", "S2")]


def labelled(lines):
    """{label: value} of the pieces "<label> = " followed by a value"""
    import re
    out = {}
    for ps in lines:
        last = ""
        for p in ps:
            if isinstance(p, str):
                last += p
                continue
            m = re.search(r"<([^<>]*)>\s*=\s*$", last)
            if m:
                out.setdefault(m.group(1), []).append(p[0])
            last = ""
    return out


def thermal(ck, pid):
    """every printed thermal value is the Boltzmann average at the requested temperature over the states below the cutoff"""
    from .c17 import kB
    for temp in ("given", "default"):
        S = {}

        def thunk(vm):
            from pyvc.physlib import _rank
            vm.assume(_rank(vm) == 0)
            M = States(vm)
            T, cut = sc.par("T", real=True), sc.par("cutOff", real=True)
            vm.assume(sc.as_z3(sc.cond_lt0(-T)))
            vm.assume(sc.as_z3(sc.cond_lt0(-cut)))
            S.update(M=M, T=T if temp == "given" else Scalar.of(300), cut=cut if temp == "given" else Scalar.of(10), lines=[], bad=[])

            def printed(vm, vals):
                ps = pieces(vals)
                (S["bad"] if ps is None else S["lines"]).append(ps)
            vm.printed = printed
            vm.contracts[FIN, "thermal_average"] = average_contract
            vm.contracts[ED + ".average", "thermal_average"] = average_contract
            kw = {"T": T, "cutOff": cut} if temp == "given" else {}
            return vm.function(FIN, "printThermalExpValues"), [M.nb, M.es, M.psis], kw

        def post(vm, v):
            if S["bad"]:
                raise Unsupported("printed text of unknown origin")
            got = labelled(S["lines"])
            kT = kB(vm) * S["T"]
            i = smt.fresh_int("i")
            e = energy(i) - energy(0)
            w = sc.ind(z3.And(0 <= i, i < S["M"].N)) * sc.ind(sc.as_z3(sc.cond_lt0(e - S["cut"] * kT))) * sc.exp(-e * kT.inverse())
            den = sc.Sum(i, w)
            rows = []
            for lab, name in THERMAL:
                want = sc.Sum(i, w * (e if name is None else value(name, i)))
                if lab not in got or len(got[lab]) != 1:
                    rows.append((lab, "undecided", "printed %d times" % len(got.get(lab, []))))
                    continue
                x = Scalar.of(vm.as_scalar(got[lab][0]))
                rows.append((lab, *zero(vm, x * den - want)))
            return rows

        run1(ck, "%s.printThermalExpValues, temperature %s" % (pid, temp), "finite.printThermalExpValues", thunk, post)


COLUMNS = ["i", "E-E0", "N", "egDn", "egUp", "t2gDn", "t2gUp", "Lz", "Sz", "L2", "S2"]
HEADINGS = ["i", "E-E0", "N(3d)", "N(egDn)", "N(egUp)", "N(t2gDn)", "N(t2gUp)", "Lz(3d)", "Sz(3d)", "L^2(3d)", "S^2(3d)"]


def table(ck, pid):
    """line i of the table holds the number, the energy above the first and the expectation values of state i, in the order of the headings"""
    for given in (False, True):
        S = {}

        def thunk(vm):
            from pyvc.physlib import _rank
            vm.assume(_rank(vm) == 0)
            M = States(vm)
            S.update(M=M, lines={}, heads=[], bad=[], conds={})
            n = None
            if given:
                n = smt.fresh_int("n")
                vm.assume(z3.And(1 <= n, n <= M.N))
            S["n"] = M.N if n is None else n

            def printed(vm, vals):
                ps = pieces(vals)
                at = tuple(x for it in vm.iterations for x in it)
                if ps is None:
                    S["bad"].append(vals)
                elif not at:
                    S["heads"].append(ps)
                else:
                    # the body is run several times; the last run stands
                    S["lines"] = {"at": at, "ps": ps, "asms": list(vm.asms()), "vals": [p[0] for p in ps if not isinstance(p, str)]}
                    S["lines"]["scalars"] = [Scalar.of(vm.as_scalar(x)) for x in S["lines"]["vals"]]
            vm.printed = printed
            return vm.function(FIN, "printExpValues"), [M.nb, M.es, M.psis] + ([n] if given else []), {}

        def post(vm, v):
            if S["bad"]:
                raise Unsupported("printed text of unknown origin")
            L = S["lines"]
            rows = []
            if not L or len(L["at"]) != 1:
                return [("table", "undecided", "no line per state")]
            heads = [" ".join(p for p in ps if isinstance(p, str)).split() for ps in S["heads"]]
            rows.append(("headings", "proved" if HEADINGS in heads else "undecided", ""))
            first = [p[0] for ps in S["heads"] for p in ps if not isinstance(p, str)]
            if len(first) == 1:
                rows.append(("E0", *zero(vm, Scalar.of(vm.as_scalar(first[0])) - energy(0))))
            else:
                rows.append(("E0", "undecided", ""))
            x = L["at"][0]
            if len(L["scalars"]) != len(COLUMNS):
                return rows + [("columns", "undecided", "%d columns" % len(L["scalars"]))]
            for a in L["asms"]:
                vm.assume(a)
            q = smt.fresh_int("q")
            # the lines are those of the states 0 .. n-1
            g = z3.And(*[a for a in L["asms"] if sc.occurs(x, a)])
            inside = smt.entails(vm.asms(), z3.And(0 <= x, x < S["n"]))
            rows.append(("only the requested states", "proved" if inside is True else "undecided", ""))
            every = smt.entails([a for a in L["asms"] if not sc.occurs(x, a)] + [0 <= q, q < S["n"]], z3.substitute(g, (x, q)))
            rows.append(("every requested state", "proved" if every is True else "undecided", short(g)))
            for name, y in zip(COLUMNS, L["scalars"]):
                want = Scalar.of(x) if name == "i" else energy(x) - energy(0) if name == "E-E0" else value(name, x)
                rows.append(("column " + name, *zero(vm, y - want)))
            return rows
        run1(ck, "%s.printExpValues, number of states %s" % (pid, "given" if given else "default"), "finite.printExpValues", thunk, post)
