"""C08: labels <-> indices, symbolic numbers of bath states."""
from .base import *

MOD = ED + ".finite"
CONFIGS = [(2,), (1, 2), (2, 1), (0, 1, 2, 3), ((1, 2),), (2, (0, 1)), ((1, 0), 3), (1, (2, 0), 3), ((1, 2), (0, 3)), (4,), (5, 0)]


def shells(keys):
    out = []
    for k in keys:
        out += [k] if isinstance(k, int) else list(k)
    return out


def impurity(keys):
    return [(l, s, m) for l in shells(keys) for s in range(2) for m in range(-l, l + 1)]


def setup(vm, keys):
    n = {}
    for i, k in enumerate(keys):
        n[k] = smt.fresh_int("n%d" % i)
        vm.assume(n[k] >= 0)
    off, o = {}, len(impurity(keys))
    o = z3.IntVal(o)
    for k in keys:
        off[k] = o
        o = o + n[k]
    return n, off, z3.simplify(o), ordered_dict(vm, [(k, n[k]) for k in keys])


def build(ck):
    ck.assume_note("dictionaries keep insertion order")
    for keys in CONFIGS:
        imp = impurity(keys)
        tag = str(keys)

        # impurity labels
        def fwd(vm, keys=keys):
            n, off, N, d = setup(vm, keys)
            return d
        def go(keys=keys, imp=imp):
            vm = Vm()
            n, off, N, d = setup(vm, keys)
            f = vm.function(MOD, "c2i")
            for i, lab in enumerate(imp):
                for p in vm.explore(lambda: vm.call(f, [d, lab])):
                    if p.kind != "ok":
                        return [("", "refuted" if p.kind == "raise" else "undecided", "c2i%s: %s" % (lab, p.kind))]
                    v = p.value
                    if not isinstance(v, int):
                        return [("", "undecided", "not a number")]
                    if v != i:
                        return [("", "refuted", "c2i(%s) = %s, expected %s" % (lab, v, i))]
            ck.absorb(vm)
            return [("", "proved", "")]
        ck.run("C08.c2i.impurity.%s" % tag, "finite.c2i", go)

        # bath labels
        for k in keys:
            def call(vm, keys=keys, k=k):
                n, off, N, d = setup(vm, keys)
                b = smt.fresh_int("b")
                vm.assume(z3.And(0 <= b, b < n[k]))
                vm.want = off[k] + b
                return vm.function(MOD, "c2i"), [d, (k, b)], {}

            def post(vm, v):
                return [("index", *ck.judge(vm, smt_int(vm.as_int(v)) == vm.want))]
            run1(ck, "C08.c2i.bath %s.%s" % (k, tag), "finite.c2i", call, post)

            def bad(vm, keys=keys, k=k):
                n, off, N, d = setup(vm, keys)
                b = smt.fresh_int("b")
                vm.assume(z3.Or(b < 0, b >= n[k]))
                return vm.function(MOD, "c2i"), [d, (k, b)], {}
            rejects(ck, "C08.c2i.rejects bath number out of range %s.%s" % (k, tag), "finite.c2i", bad)
        for lab in [(7, 0, 0), (7, 0), (keys[0], 0, 9), ((7, 8), 0)]:
            rejects(ck, "C08.c2i.rejects %s.%s" % (lab, tag), "finite.c2i",
                    lambda vm, keys=keys, lab=lab: (vm.function(MOD, "c2i"), [setup(vm, keys)[3], lab], {}))

        # indices
        def calli(vm, keys=keys):
            n, off, N, d = setup(vm, keys)
            vm.i = smt.fresh_int("i")
            vm.n, vm.off = n, off
            vm.assume(z3.And(0 <= vm.i, vm.i < N))
            return vm.function(MOD, "i2c"), [d, vm.i], {}

        def posti(vm, v, keys=keys, imp=imp):
            if not isinstance(v, tuple):
                return [("label", "undecided", "not a tuple")]
            if len(v) == 3:
                lab = tuple(x if isinstance(x, int) else None for x in v)
                if None in lab:
                    cs = [z3.And(*[smt_int(vm.as_int(x)) == y for x, y in zip(v, l)], vm.i == j) for j, l in enumerate(imp)]
                    return [("label", *ck.judge(vm, z3.Or(*cs)))]
                if lab not in imp:
                    return [("label", "refuted", "label %s" % (lab,))]
                return [("label", *ck.judge(vm, vm.i == imp.index(lab)))]
            k = v[0]
            if k not in keys:
                return [("label", "refuted", "label %s" % (v,))]
            b = smt_int(vm.as_int(v[1]))
            return [("label", *ck.judge(vm, z3.And(0 <= b, b < vm.n[k], vm.i == vm.off[k] + b)))]
        run1(ck, "C08.i2c.%s" % tag, "finite.i2c", calli, posti)

        def badi(vm, keys=keys):
            n, off, N, d = setup(vm, keys)
            i = smt.fresh_int("i")
            vm.assume(z3.Or(i < 0, i >= N))
            return vm.function(MOD, "i2c"), [d, i], {}
        rejects(ck, "C08.i2c.rejects out of range.%s" % tag, "finite.i2c", badi)
