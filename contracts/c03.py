"""C03: the single-electron operators and the elementary operations on many-body states."""
from .base import *
from pyvc import libs

MOD = ED + ".finite"


def psi_map(vm, name, real=False):
    """arbitrary many-body state: any set of product states (of vm.state_n spin-orbitals), any amplitudes"""
    D = z3.Function(name + "!in", smt.Arr, z3.BoolSort())
    return vm.alloc(MapObj(libs.STATE, lambda k: D(k),
                           lambda k: sc.ind(D(k)) * sc.app(name, k, real=real), "scalar", (), name)), D


def value_at(vm, ref, k):
    """amplitude of product state k in a dictionary state; zero when absent"""
    o = vm.get(ref)
    if isinstance(o, DictObj):
        if not o.d:
            return sc.SZERO, z3.BoolVal(False)
        raise Unsupported("concrete dictionary")
    for f in o.facts:
        vm.assume(f(k))
    return Scalar.of(o.val(k)), sc.as_z3(o.dom(k))


def zero(vm, s, cond=None):
    asms = list(vm.asms()) + ([cond] if cond is not None else [])
    r = sc.is_zero(s, asms)
    return ("proved", "") if r is True else ("refuted" if r is False else "undecided",
                                             "difference %s" % short(s))


def sgn(B, i):
    """(-1)^(number of electrons before orbital i)"""
    return sc.ite(smt.PC(B, i) % 2 == 0, Scalar.of(1), Scalar.of(-1))


def build(ck):
    setting = {}

    def start(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        setting["n"] = n
        return n

    # annihilation and creation
    for fname, created in (("a", False), ("c", True)):
        def thunk(vm, fname=fname):
            n = start(vm)
            i = smt.fresh_int("i")
            vm.assume(z3.And(0 <= i, i < n))
            psi, D = psi_map(vm, "psi")
            setting.update(i=i, psi=psi, D=D)
            return vm.function(MOD, fname), [n, i, psi], {}

        def post(vm, value, created=created):
            n, i, D = setting["n"], setting["i"], setting["D"]
            B = fresh_state(vm, "B")
            v, d = value_at(vm, value, B)
            src = z3.Store(B, i, z3.BoolVal(not created))
            has = z3.Select(B, i) if created else z3.Not(z3.Select(B, i))
            want = sc.ind(z3.And(has, D(src))) * sc.app("psi", src) * sgn(B, i)
            rows = [("amplitude of every product state", *zero(vm, v - want))]
            # the argument is unchanged
            w, dw = value_at(vm, setting["psi"], B)
            rows.append(("argument unchanged", *zero(vm, w - sc.ind(D(B)) * sc.app("psi", B))))
            rows.append(("keys", *ck.judge(vm, d == z3.And(has, D(src)))))
            return rows
        run1(ck, "C03.%s" % fname, "finite." + fname, thunk, post)

    # add / addToFirst
    for fname in ("add", "addToFirst"):
        for withmul in (True, False):
            def thunk(vm, fname=fname, withmul=withmul):
                start(vm)
                p1, D1 = psi_map(vm, "p")
                p2, D2 = psi_map(vm, "r")
                setting.update(p1=p1, p2=p2, D1=D1, D2=D2)
                return vm.function(MOD, fname), [p1, p2] + ([sc.par("m", real=False)] if withmul else []), {}

            def post(vm, value, fname=fname, withmul=withmul):
                D1, D2 = setting["D1"], setting["D2"]
                res = value if fname == "add" else setting["p1"]
                B = fresh_state(vm, "B")
                v, d = value_at(vm, res, B)
                m = sc.par("m", real=False) if withmul else Scalar.of(1)
                a, b = sc.ind(D1(B)) * sc.app("p", B), sc.ind(D2(B)) * sc.app("r", B)
                rows = [("sum of amplitudes", *zero(vm, v - a - m * b)),
                        ("keys", *ck.judge(vm, d == z3.Or(D1(B), D2(B))))]
                v2, _ = value_at(vm, setting["p2"], B)
                rows.append(("second state unchanged", *zero(vm, v2 - b)))
                if fname == "add":
                    v1, _ = value_at(vm, setting["p1"], B)
                    rows.append(("first state unchanged", *zero(vm, v1 - a)))
                return rows
            run1(ck, "C03.%s%s" % (fname, "" if withmul else " without factor"), "finite." + fname, thunk, post)

    # inner product and norm
    def total(f):
        """sum over all product states"""
        X = smt.fresh_arr("X")
        return sc.Sum(X, f(X))

    def thunk(vm):
        start(vm)
        p1, D1 = psi_map(vm, "p")
        p2, D2 = psi_map(vm, "r")
        setting.update(D1=D1, D2=D2)
        return vm.function(MOD, "inner"), [p1, p2], {}

    def post(vm, value):
        D1, D2 = setting["D1"], setting["D2"]
        n = setting["n"]
        want = total(lambda X: sc.ind(z3.And(D1(X), D2(X)))
                     * sc.app("p", X).conj() * sc.app("r", X))
        return [("sum of conj(a) b", *zero(vm, Scalar.of(value) - want))]
    run1(ck, "C03.inner", "finite.inner", thunk, post)

    def thunk(vm):
        start(vm)
        p1, D1 = psi_map(vm, "p")
        setting.update(D1=D1)
        return vm.function(MOD, "norm2"), [p1], {}

    def post(vm, value):
        D1 = setting["D1"]
        n = setting["n"]
        want = total(lambda X: sc.ind(D1(X))
                     * sc.app("p", X).conj() * sc.app("p", X))
        return [("sum of |a|^2", *zero(vm, Scalar.of(value) - want))]
    run1(ck, "C03.norm2", "finite.norm2", thunk, post)

    # the fermionic algebra, on arbitrary states: the real functions composed
    for f1, f2 in (("a", "c"), ("a", "a"), ("c", "c")):
        for same in (False, True):
            def go(f1=f1, f2=f2, same=same):
                vm = Vm()
                n = start(vm)
                i = smt.fresh_int("i")
                j = i if same else smt.fresh_int("j")
                vm.assume(z3.And(0 <= i, i < n, 0 <= j, j < n))
                if not same:
                    vm.assume(i != j)
                psi, D = psi_map(vm, "psi")
                fa, fc = vm.function(MOD, f1), vm.function(MOD, f2)
                A = vm.call(fa, [n, i, vm.call(fc, [n, j, psi], {})], {})
                C = vm.call(fc, [n, j, vm.call(fa, [n, i, psi], {})], {})
                ck.absorb(vm)
                B = fresh_state(vm, "B")
                v = value_at(vm, A, B)[0] + value_at(vm, C, B)[0]
                if {f1, f2} == {"a", "c"} and same:
                    v = v - sc.ind(D(B)) * sc.app("psi", B)
                return [("", *zero(vm, v))]
            ck.run("C03.algebra %s %s %s" % (f1, f2, "same orbital" if same else "different orbitals"),
                   "finite.a, finite.c", go)

    # adjointness: <phi| a_i psi> = <c_i phi| psi>; the sums are compared term by term under the
    # one-to-one map X -> X with orbital i filled (finite sums are invariant under reindexing)
    def go():
        vm = Vm()
        n = start(vm)
        i = smt.fresh_int("i")
        vm.assume(z3.And(0 <= i, i < n))
        psi, _ = psi_map(vm, "psi")
        phi, _ = psi_map(vm, "phi")
        inner = vm.function(MOD, "inner")
        L = Scalar.of(vm.call(inner, [phi, vm.call(vm.function(MOD, "a"), [n, i, psi], {})], {}))
        R = Scalar.of(vm.call(inner, [vm.call(vm.function(MOD, "c"), [n, i, phi], {}), psi], {}))
        ck.absorb(vm)
        X = fresh_state(vm, "X")
        l, r = summand(L), summand(R)
        bit = z3.Select(X, i)
        return [("terms agree", *zero(vm, l(X) - r(z3.Store(X, i, z3.BoolVal(True))), z3.Not(bit))),
                ("no other term on the left", *zero(vm, l(X), bit)),
                ("no other term on the right", *zero(vm, r(X), z3.Not(bit)))]
    ck.run("C03.adjoint", "finite.inner, finite.a, finite.c", go)


def summand(s):
    """s == sum over all product states X of f(X): f"""
    body = sc.SZERO
    X = smt.fresh_arr("S")
    for (g, m), v in s.t.items():
        sums = [x for x, e in m if sc.ATOMS[x].kind == "sum"]
        if len(sums) != 1 or dict(m)[sums[0]] != 1:
            raise Unsupported("not a sum over product states")
        at = sc.ATOMS[sums[0]]
        if at.data[0] != str(smt.Arr):
            raise Unsupported("not a sum over product states")
        rest = Scalar({(g, tuple(x for x in m if x[0] != sums[0])): v})
        body = body + rest * sc.subst(at.data[2], [(at.data[1], X)])
    return lambda Y: sc.subst(body, [(X, Y)])
