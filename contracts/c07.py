"""C07: Hermitian conjugation and the Hermiticity check."""
from .base import *
from .c03 import zero
from . import proc
from .proc import *

MOD = ED + ".finite"


def build(ck):
    S = {}

    def setup(vm):
        n = smt.fresh_int("n")
        vm.state_n = n
        vm.assume(n >= 1)
        vm.key_hooks.append(dag_key)
        op, DO = op_map(vm, "op")
        S.update(op=op, DO=DO, before=vm.get(op))
        return op

    def thunk(vm):
        return vm.function(MOD, "daggerOp"), [setup(vm)], {}

    def is_map(vm, value, dom, val):
        o = vm.get(value)
        q = smt.fresh(PROC, "q")
        if isinstance(o, DictObj) and not o.d:
            r = sc.is_zero(sc.ind(dom(q)), vm.asms())
            return [("processes", "proved" if r is True else "undecided", "empty")]
        d = smt.entails(vm.asms(), sc.as_z3(o.dom(q)) == dom(q))
        st, det = zero(vm, Scalar.of(o.val(q)) * sc.ind(dom(q)) - val(q))
        return [("processes: exactly the conjugates", "proved" if d is True else "refuted" if d is False else "undecided", short(o.dom(q))),
                ("strengths conjugated", st, det)]

    def post(vm, value):
        DO = S["DO"]
        rows = is_map(vm, value, lambda q: DO(dag(q)), lambda q: sc.ind(DO(dag(q))) * sc.app("op", dag(q), real=False).conj())
        rows.append(("argument unchanged", "proved" if vm.get(S["op"]) is S["before"] else "undecided", ""))
        return rows
    run1(ck, "C07.daggerOp", "finite.daggerOp", thunk, post)

    def twice(vm):
        op = setup(vm)
        f = vm.function(MOD, "daggerOp")
        return Builtin("dagger twice", lambda vm, a, k: vm.call(f, [vm.call(f, [op], {})], {})), [], {}
    run1(ck, "C07.daggerOp twice", "finite.daggerOp", twice,
         lambda vm, v: is_map(vm, v, lambda q: S["DO"](q), lambda q: sc.ind(S["DO"](q)) * sc.app("op", q, real=False)))

    # the check passes exactly for operators that equal their conjugate
    def herm(q):
        DO = S["DO"]
        d = sc.ind(DO(q)) * (sc.app("op", q, real=False) - sc.app("op", dag(q), real=False).conj())
        return z3.And(DO(q) == DO(dag(q)), z3.Implies(DO(q), z3.Not(sc.as_z3(sc.cond_nz(sc.assume_simplify(d, [DO(q)]))))))

    def passes():
        vm = Vm()
        op = setup(vm)
        f = vm.function(MOD, "assert_hermitian")
        paths = vm.explore(lambda: vm.call(f, [op], {}))
        ck.absorb(vm)
        rows = []
        for p in paths:
            vm.restore(p.snap)
            if p.kind == "raise":
                continue
            if p.kind != "ok":
                rows.append(("passes only for Hermitian operators", "undecided", p.kind))
                continue
            q = smt.fresh(PROC, "q")
            r = smt.entails(list(vm.asms()) + [p.cond()], herm(q))
            rows.append(("passes only for Hermitian operators", "proved" if r is True else "undecided", short(p.cond())))
        return rows
    ck.run("C07.assert_hermitian", "finite.assert_hermitian", passes)

    def assumed(vm):
        op = setup(vm)
        q = smt.fresh(PROC, "q")
        vm.assume(sc.as_z3(preds.forall(q, herm(q))))
        return vm.function(MOD, "assert_hermitian"), [op], {}
    run1(ck, "C07.assert_hermitian, Hermitian operator", "finite.assert_hermitian", assumed, lambda vm, v: [
        ("accepted", "proved", ""), ("argument unchanged", "proved" if vm.get(S["op"]) is S["before"] else "undecided", "")])

    # adjoint: <B| p A> = conj <p^+ B| A>, by induction over the steps of the conjugate process on B = p A
    p = smt.fresh(PROC, "p")
    A = smt.fresh_arr("A")
    n, j, s = smt.fresh_int("n"), smt.fresh_int("j"), plen(p)
    d = dag(p)

    def defs(p, A, k):
        """definition of step k (from the right) of p on A"""
        i, c, forb = step(p, A, k)
        return [z3.Implies(z3.And(0 <= k, k < plen(p)), z3.And(
            ST(p, A, z3.simplify(k + 1)) == z3.Store(ST(p, A, k), i, c),
            ODD(p, A, z3.simplify(k + 1)) == z3.Xor(ODD(p, A, k), smt.PC(ST(p, A, k), i) % 2 == 1),
            0 <= i, i < n))], forb
    B = FIN(p, A)
    zero_ = z3.IntVal(0)
    start = [s >= 0, ST(p, A, zero_) == A, z3.Not(ODD(p, A, zero_)), ST(d, B, zero_) == B, z3.Not(ODD(d, B, zero_))]

    def inv(j):
        back = z3.simplify(s - j)
        return z3.And(ST(d, B, j) == ST(p, A, back), z3.Xor(ODD(d, B, j), ODD(p, A, back)) == ODD(p, A, s))

    def lemma():
        rows = []
        rows.append(("base", smt.entails(start, inv(zero_))))
        k = z3.simplify(s - 1 - j)
        dp, forb_p = defs(p, A, k)
        dd, forb_d = defs(d, B, j)
        hyp = start + [0 <= j, j < s, z3.Not(forb_p), inv(j)] + dp + dd
        rows.append(("the conjugate step is allowed", smt.entails(hyp, z3.Not(forb_d))))
        # state and step of the conjugate process in terms of p's
        i, c, _ = step(p, A, k)
        di, dc, _ = step(d, B, j)
        S1 = z3.Store(ST(p, A, k), i, c)
        same = z3.And(ST(d, B, j) == S1, di == i, dc == z3.Not(c))
        rows.append(("the conjugate process is in the state after the step", smt.entails(hyp, same)))
        hyp2 = hyp + [same, smt.PC(ST(d, B, j), di) == smt.PC(S1, i)]        # second: congruence
        rows.append(("the conjugate step undoes the step", smt.entails(hyp2, ST(d, B, z3.simplify(j + 1)) == ST(p, A, k))))
        rows.append(("with the same sign", smt.entails(hyp2, inv(z3.simplify(j + 1)))))
        rows.append(("the conjugate process returns to the start with the same sign",
                     smt.entails(start + [inv(s)], z3.And(FIN(d, B) == A, ODD(d, B, s) == ODD(p, A, s)))))
        rows.append(("the induction starts from a state that p reaches", smt.check_sat(start + [s >= 2])[0] == "sat"))
        return [(a, "proved" if r is True else "undecided", "") for a, r in rows]
    ck.run("C07.lemma adjoint of a process", "ghost lemma", lemma)
    ck.assume_note("adjoint: <x|O y> and <O^+ x|y> are the same double sum re-indexed by p -> p^+, term by term equal by the lemma "
                   "(with C04's contract of applyOp); the re-indexing of the finite sum is the paper step")
