"""C02: create / remove in the five encodings."""
from .base import *


def parity_sign(arr, i):
    return z3.If(smt.PC(arr, i) % 2 == 0, z3.IntVal(1), z3.IntVal(-1))


def build(ck):
    for mod, occupied_needed in (("remove", True), ("create", False)):
        for fname, kind in (("utuple", "tuple"), ("ustr", "str"), ("uint", "int"),
                            ("ubitarray", "bitarray"), ("ubytes", "bytes")):
            vm = Vm()
            n, i = smt.fresh_int("n"), smt.fresh_int("i")
            vm.state_n = n
            vm.assume(z3.And(n >= 1, 0 <= i, i < n))
            A = fresh_state(vm)
            st = make(vm, kind, A, n)
            f = None
            try:
                f = vm.function(ED + "." + mod, fname)
            except SourceError as e:
                ck.add("C02.%s.%s" % (mod, fname), mod + "." + fname, "undecided", str(e))
                continue
            args = [i, st] if fname in ("utuple", "ustr", "ubitarray") else [n, i, st]
            occ = z3.Select(A, i)
            ok = occ if occupied_needed else z3.Not(occ)
            B = z3.Store(A, i, z3.BoolVal(not occupied_needed))

            def post(p, kind=kind, st=st, A=A, B=B, ok=ok, i=i, n=n, vm=vm):
                if p.kind != "ok":
                    yield "no exception", False
                    return
                if kind == "bitarray":
                    new, amp = st, p.value
                else:
                    new, amp = vm.unpack(p.value, 2)
                amp = smt_int(vm.as_int(amp))
                yield "amplitude", amp == z3.If(ok, parity_sign(A, i), z3.IntVal(0))
                k = vm.known(ok)
                if k is True:
                    yield "new state", IS[kind](vm, new, B, n)
                elif k is None:
                    if kind == "bitarray":
                        yield "new state", z3.Implies(ok, IS[kind](vm, new, B, n))
                    else:
                        yield "new state", z3.Implies(ok, IS[kind](vm, new, B, n))
                if kind == "bitarray" and k is not True:
                    yield "frame", z3.Implies(z3.Not(ok), IS[kind](vm, new, A, n))

            ck.contract("C02.%s.%s" % (mod, fname), "%s.%s" % (mod, fname), vm,
                        lambda f=f, args=args, vm=vm: vm.call(f, args), post)
