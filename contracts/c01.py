"""C01: every conversion between the product-state encodings keeps the occupied set."""
from .base import *

MOD = ED + ".product_state_representation"
KINDS = ("tuple", "str", "int", "bitarray", "bytes")
# (function, needs n)
FUNCS = [("tuple2int", True), ("tuple2str", True), ("tuple2bitarray", True), ("tuple2bytes", True),
         ("str2tuple", False), ("str2int", False), ("str2bitarray", False), ("str2bytes", False),
         ("int2tuple", True), ("int2str", True), ("int2bitarray", True), ("int2bytes", True),
         ("bitarray2tuple", False), ("bitarray2str", False), ("bitarray2int", False), ("bitarray2bytes", False),
         ("bytes2tuple", True), ("bytes2str", True), ("bytes2int", True), ("bytes2bitarray", True)]


def build(ck):
    for name, with_n in FUNCS:
        src, dst = name.split("2")
        vm = Vm()
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        A = fresh_state(vm)
        try:
            f = vm.function(MOD, name)
        except SourceError as e:
            ck.add("C01." + name, name, "undecided", str(e))
            continue
        st = make(vm, src, A, n)
        args = [st, n] if with_n else [st]

        def post(p, vm=vm, dst=dst, A=A, n=n, src=src, st=st):
            if p.kind != "ok":
                yield "no exception", False
                return
            yield "same occupied set", IS[dst](vm, p.value, A, n)
            if src == "bitarray":
                yield "argument unchanged", IS["bitarray"](vm, st, A, n)

        ck.contract("C01." + name, "product_state_representation." + name, vm,
                    lambda f=f, args=args, vm=vm: vm.call(f, args), post)
