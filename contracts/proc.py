"""Ghost theory of operators given as dictionaries  process -> strength.

A process is an abstract value p with plen(p) steps; step k acts on orbital pidx(p,k) and creates iff pcre(p,k).
Applying p to the product state A, rightmost step first, is defined by recursion over the number of steps done:
    ST(p,A,0) = A            ST(p,A,k+1) = ST(p,A,k) with bit i set to c        (i, c: the k-th step from the right)
    ODD(p,A,0) = false       ODD(p,A,k+1) = ODD(p,A,k) xor (number of electrons of ST(p,A,k) before i is odd)
    FORB(p,A,k)  iff  bit i of ST(p,A,k) is c already
    OK(p,A)      iff  no k in [0, plen p) is forbidden
Each step is the elementary creation / annihilation of property C02 (obligations there)."""
from .base import *
from pyvc import libs, preds

PROC = z3.DeclareSort("Proc")
plen = z3.Function("plen", PROC, z3.IntSort())
pidx = z3.Function("pidx", PROC, z3.IntSort(), z3.IntSort())
pcre = z3.Function("pcre", PROC, z3.IntSort(), z3.BoolSort())
ST = z3.Function("ST", PROC, smt.Arr, z3.IntSort(), smt.Arr)
ODD = z3.Function("ODD", PROC, smt.Arr, z3.IntSort(), z3.BoolSort())
OK = z3.Function("OK", PROC, smt.Arr, z3.BoolSort())


def FIN(p, A):
    return ST(p, A, plen(p))


def SGN(p, A):
    return sc.ite(ODD(p, A, plen(p)), Scalar.of(-1), Scalar.of(1))


def step(p, A, k):
    """(orbital, creates, forbidden) of the k-th step from the right"""
    e = z3.simplify(plen(p) - 1 - k)
    i, c = pidx(p, e), pcre(p, e)
    return i, c, z3.Select(ST(p, A, k), i) == c


def _wrap(vm, p):
    def get(k):
        k = smt_int(k)
        return (pidx(p, k), "c" if vm.decide(pcre(p, k)) else "a")
    return SymSeq(plen(p), get, "tuple", ("proc", p),
                  lambda k: [0 <= pidx(p, smt_int(k)), pidx(p, smt_int(k)) < smt_int(vm.state_n)])


def _unwrap(vm, v):
    if isinstance(v, SymSeq) and isinstance(v.tag, tuple) and v.tag and v.tag[0] == "proc":
        return v.tag[1]
    return None


PROCKEY = KeyKind("process", PROC, _wrap, _unwrap, lambda vm, p: [plen(p) >= 0])


def op_map(vm, name):
    """arbitrary operator: any set of processes with any strengths"""
    D = z3.Function(name + "!has", PROC, z3.BoolSort())
    return vm.alloc(MapObj(PROCKEY, lambda p: D(p), lambda p: sc.ind(D(p)) * sc.app(name, p, real=False),
                           "scalar", (), name)), D


class _Ghost:
    loc, kind = None, "ghost"

    def __init__(self, f):
        self.f = f

    def __call__(self, xs):
        return self.f(xs)


def _find_proc(terms):
    found = []
    seen = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        if not smt.is_z3(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in ("pidx", "pcre") and not any(t.arg(0).eq(x) for x in found):
                found.append(t.arg(0))
            todo += t.children()
        elif z3.is_quantifier(t):
            todo.append(t.body())
    return found


def rule(lp):
    """invariant of a loop over the steps of a process, rightmost first: after k steps the bit state is ST(p,A,k)
    and the sign variable is (-1)^ODD(p,A,k) times its initial value"""
    from pyvc.loops import path_cond, path_value
    vm = lp.vm
    if lp.coll.ordered is None or any(kind not in ("bits", "int", "temp", "missing", "scalar") for kind in lp.hav.values()):
        return False
    bits = [loc for loc, kind in lp.hav.items() if kind == "bits"]
    if len(bits) != 1:
        return False
    pre = lp.pre(bits[0])
    try:
        vm.restore(lp.snap0)
        A = vm.bits_term(pre.bits)
    except Unsupported:
        return False
    xs = lp.coll.fresh()
    paths = lp.run_generic(xs)
    procs = []
    for p in paths:
        for t in _find_proc([e for e, _ in p.snap[1]]):
            if not any(t.eq(u) for u in procs):
                procs.append(t)
    if len(procs) != 1:
        return False
    p = procs[0]
    n = pre.bits.length
    lp.exact[bits[0]] = lambda ys: BitArrObj(Bits([(ST(p, A, ys[0]), 0, n)]))
    sign0 = {}
    for loc, kind in lp.hav.items():
        if kind in ("int", "scalar") and loc not in lp.exact:
            v0 = lp.pre(loc)
            if isinstance(v0, int) and not isinstance(v0, bool) and v0 in (1, -1):
                sign0[loc] = v0
                lp.exact[loc] = lambda ys, v0=v0: z3.If(ODD(p, A, ys[0]), z3.IntVal(-v0), z3.IntVal(v0))

    def facts(ys):
        k = ys[0]
        return z3.And(smt.canonical(ST(p, A, k), smt_int(vm.state_n)),
                      ST(p, A, z3.IntVal(0)) == A, z3.Not(ODD(p, A, z3.IntVal(0))))
    ghost = _Ghost(facts)
    lp.invs = list(lp.invs) + [ghost]

    def give_up():
        lp.exact.pop(bits[0], None)
        for loc in sign0:
            lp.exact.pop(loc, None)
        lp.invs = [i for i in lp.invs if i is not ghost]
        return False
    # the ghost state keeps within the n orbitals: induction base and step
    vm.restore(lp.snap0)
    if not vm.canonical(A, vm.state_n):
        return give_up()
    xs = lp.coll.fresh()
    try:
        paths = lp.run_generic(xs)
    except Unsupported:
        return give_up()
    k = xs[0]
    i, c, forb = step(p, A, k)
    S = ST(p, A, k)
    defs = [ST(p, A, z3.simplify(k + 1)) == z3.Store(S, i, c),
            ODD(p, A, z3.simplify(k + 1)) == z3.Xor(ODD(p, A, k), smt.PC(S, i) % 2 == 1),
            0 <= i, i < smt_int(vm.state_n)]
    if smt.entails([], smt_int(lp.coll.length) == plen(p)) is not True:
        return give_up()
    bad = None
    for q in paths:
        asms = [e for e, _ in q.snap[1]] + defs
        if q.kind in ("ok", "continue"):
            o = path_value(q, bits[0])
            snap = vm.save()
            vm.restore(q.snap)
            t = vm.bits_term(o.bits)
            vm.restore(snap)
            ok = smt.entails(asms, z3.Not(forb)) is True
            ok = ok and smt.entails(asms, t == z3.Store(S, i, c)) is True
            for loc, v0 in sign0.items():
                v = path_value(q, loc)
                w = z3.If(ODD(p, A, z3.simplify(k + 1)), z3.IntVal(-v0), z3.IntVal(v0))
                ok = ok and vm.is_intlike(v) and smt.entails(asms, smt_int(vm.as_int(v)) == w) is True
        elif q.kind == "raise":
            ok = False
        else:
            ok = smt.entails(asms, forb) is True
        if not ok:
            bad = q
            lp.why = (q.kind, z3.simplify(forb), [e for e, _ in q.pc])
    if bad is not None:
        return give_up()
    lp.done_name = OK(p, A)
    lp.final_facts = [smt.canonical(FIN(p, A), smt_int(vm.state_n))]
    lp.exit_facts = lambda ys: [smt.canonical(ST(p, A, ys[0]), smt_int(vm.state_n))]
    vm.ghost_used = True
    return True


# ---------------------------------------------------------------- occupation restrictions

RESTR = z3.DeclareSort("Restr")
rin = z3.Function("rin", RESTR, z3.IntSort(), z3.BoolSort())
rlo = z3.Function("rlo", RESTR, z3.IntSort())
rhi = z3.Function("rhi", RESTR, z3.IntSort())
rhas = z3.Function("rhas", RESTR, z3.BoolSort())

RKEY = KeyKind("restriction", RESTR,
               lambda vm, r: vm.alloc(SymSetObj(libs.INTKEY, lambda q: rin(r, smt_int(q)))),
               lambda vm, v: None, lambda vm, r: [])


def restr_map(vm):
    """arbitrary restrictions: any sets of spin-orbitals with lower and upper electron counts"""
    return vm.alloc(MapObj(RKEY, lambda r: rhas(r), lambda r: (rlo(r), rhi(r)), "other", (), "restrictions"))


def allowed(B, n):
    """every restriction holds for the product state B"""
    r = smt.fresh(RESTR, "r")
    m = libs.cardinality(lambda q: z3.And(rin(r, q), 0 <= q, q < smt_int(n), z3.Select(B, q)), n)
    return sc.as_z3(preds.forall(r, z3.Implies(rhas(r), z3.And(rlo(r) <= m, m <= rhi(r)))))


# ---------------------------------------------------------------- conjugate process

_DAG = z3.Function("DAG", PROC, PROC)


def dag(p):
    """the process with the steps of p in reverse order, creation and annihilation swapped"""
    if z3.is_app(p) and p.decl().eq(_DAG):
        return p.arg(0)
    return _DAG(p)


def _dag_facts(terms):
    out = []
    ds = [x.t for x in terms if x.name == "DAG"]
    for t in ds:
        p = t.arg(0)
        out.append(plen(t) == plen(p))
        if not (z3.is_app(p) and p.decl().eq(_DAG)):
            out.append(_DAG(t) == p)
    if ds:
        for x in terms:
            t = x.t
            if x.name in ("pidx", "pcre") and t.arg(0).decl().eq(_DAG):
                p, k = t.arg(0).arg(0), t.arg(1)
                e = z3.simplify(plen(p) - 1 - k)
                inside = z3.And(0 <= k, k < plen(p))
                out.append(z3.Implies(inside, t == (pidx(p, e) if t.decl().eq(pidx) else z3.Not(pcre(p, e)))))
    return out


smt.INSTANTIATORS.append(_dag_facts)
sc.INVOLUTIONS["DAG"] = dag


def dag_key(vm, v):
    """recognises a tuple of steps that is, element by element, the conjugate of a process (or that process)"""
    if isinstance(v.tag, tuple) and v.tag and v.tag[0] == "proc":
        return PROCKEY, v.tag[1]
    if v.kind != "tuple" or not smt.is_z3(v.length):
        return None
    ps = [t.arg(0) for t in smt.subterms([v.length]) if z3.is_app(t) and t.decl().eq(plen)]
    for p in ps:
        if smt.entails(vm.asms(), smt_int(v.length) == plen(p)) is not True:
            continue
        k = smt.fresh_int("k")
        snap = vm.save()
        try:
            vm.assume(z3.And(0 <= k, k < plen(p)))
            paths = vm.explore(lambda: v.get(k))
            for cand, e, flip in ((_DAG(p), z3.simplify(plen(p) - 1 - k), True), (p, k, False)):
                ok = True
                for q in paths:
                    x = q.value
                    if q.kind != "ok" or not isinstance(x, tuple) or len(x) != 2 or x[1] not in ("a", "c"):
                        ok = False
                        break
                    c = pcre(p, e) if (x[1] == "c") != flip else z3.Not(pcre(p, e))
                    if smt.entails([a for a, _ in q.snap[1]], z3.And(smt_int(x[0]) == pidx(p, e), c)) is not True:
                        ok = False
                        break
                if ok:
                    return PROCKEY, cand
        finally:
            vm.restore(snap)
    return None
