"""C11: the expanded space is closed under the operator's action and minimal (serial expansion).

The loop of expand_basis is verified with an invariant over a symbolic number of rounds: the list has distinct members,
starts with the starting set, holds only reachable product states, and everything one step from a processed member is in
it.  REACH is any predicate that holds on the starting set and is closed under the action, so membership in every such
predicate is minimality.  Termination is not shown (the space is finite, and each round adds members)."""
import ast
from .base import *
from .basis import *
from .c10 import ACT, act
from . import ranks
from pyvc import libs
from pyvc.interp import BreakSig, ContinueSig, Infeasible
from pyvc.loops import MISSING

FN = ED + ".finite"
REACH = z3.Function("reach", smt.Arr, z3.BoolSort())
HINT = z3.Function("hint!place", z3.IntSort(), z3.IntSort())   # 0 everywhere: names a term for instantiation
HINTA = z3.Function("hint!state", smt.Arr, z3.IntSort())
HELD = z3.Function("held!in", smt.Arr, z3.BoolSort())        # stored before the call


class EnumSeq(SymSeq):
    """distinct product states in an order: term(k), member(w), where(w)"""

    def __init__(self, name, length, kind, member=None, first=None):
        self.el = z3.Function(name, z3.IntSort(), smt.Arr)
        self.where = z3.Function(name + "!pos", smt.Arr, z3.IntSort())
        self.has = z3.Function(name + "!has", smt.Arr, z3.BoolSort())
        self.n, self.meaning = length, member
        el, n = self.el, length
        SymSeq.__init__(self, n, lambda k: CUR[0].state_value(el(smt_int(k)), CUR[0].state_n), kind, (name,),
                        lambda k: [smt.canonical(el(smt_int(k)), smt_int(CUR[0].state_n))])
        SEQS[name] = self
        sc.COND_INVERSES[name + "!pos"] = (lambda w: el(w), lambda w: z3.And(0 <= w, w < n), lambda x: self.has(x))
        sc.INVERSES[name] = (lambda w: self.where(w), lambda w: self.has(w))


SEQS = {}
CUR = [None]


def _facts(terms):
    out = []
    for x in terms:
        nm = x.name
        if nm in SEQS:
            s, i = SEQS[nm], x.kids[0]
            out.append(z3.Implies(z3.And(0 <= i, i < s.n), z3.And(s.has(x.t), s.where(x.t) == i)))
            if s.meaning is not None:
                out.append(s.has(x.t) == s.meaning(x.t))
        elif nm.endswith("!pos") and nm[:-4] in SEQS or nm.endswith("!has") and nm[:-4] in SEQS:
            s, w = SEQS[nm[:-4]], x.kids[0]
            if z3.is_app(w) and w.decl().name() == nm[:-4]:
                continue
            out.append(z3.Implies(s.has(w), z3.And(0 <= s.where(w), s.where(w) < s.n, s.el(s.where(w)) == w)))
            if s.meaning is not None:
                out.append(s.has(w) == s.meaning(w))
    return out


smt.INSTANTIATORS.append(_facts)


def enum(vm, s):
    """(length, term, member, where) of a sequence of distinct product states"""
    if isinstance(s, EnumSeq):
        return smt_int(s.n), lambda k: s.el(k), lambda w: s.has(w), lambda w: s.where(w)
    if isinstance(s, SymSeq) and s.tag and s.tag[0] in SEQS:
        return enum(vm, SEQS[s.tag[0]])
    if isinstance(s, SymSeq) and s.tag == ("basis",):
        return NB, lambda k: BAS(k), lambda w: HAS(w), lambda w: POS(w)
    if isinstance(s, SymSeq) and s.tag and s.tag[0] == "concat":
        n1, t1, m1, p1 = enum(vm, s.tag[1])
        n2, t2, m2, p2 = enum(vm, s.tag[2])
        return z3.simplify(n1 + n2), lambda k: z3.If(k < n1, t1(k), t2(z3.simplify(k - n1))), lambda w: z3.Or(m1(w), m2(w)), \
            lambda w: z3.If(m1(w), p1(w), n1 + p2(w))
    raise Unsupported("order of the product states: %r" % ((type(s).__name__, getattr(s, "tag", None)),))


def parts(vm, s):
    """[(lo, hi, term)]: the list is made of these pieces"""
    if isinstance(s, SymSeq) and s.tag and s.tag[0] == "concat":
        n1 = enum(vm, s.tag[1])[0]
        shift = lambda t: lambda k: t(z3.simplify(k - n1))
        return parts(vm, s.tag[1]) + [(z3.simplify(n1 + a), z3.simplify(n1 + b), shift(t)) for a, b, t in parts(vm, s.tag[2])]
    n, t, _, _ = enum(vm, s)
    return [(smt_int(0), n, t)]


def every(vm, s, i, cond):
    """cond(the i-th member), by pieces"""
    return z3.And(*[z3.Implies(z3.And(a <= i, i < b), cond(t(i))) for a, b, t in parts(vm, s)])


def seq_of(vm, v):
    if isinstance(v, Ref):
        o = vm.get(v)
        if not isinstance(o, ListObj) or o.items or o.base is None:
            raise Unsupported("list of product states %r" % (o.__dict__,))
        v = o.base
    return v


def members(vm, r, kind, ordered):
    """the members of a set of product states, each once; ordered: in an order that depends on the set only"""
    o = vm.get(r)
    if o.keys is not libs.STATE:
        raise Unsupported("sorted")
    n = smt.fresh_int("m")
    vm.assume(n >= 0)
    d = o.dom
    s = EnumSeq(smt.fresh_name("srt"), n, kind, lambda w: sc.as_z3(d(w)))
    s.ordered = ordered
    return s


def sorted_set(vm, r):
    return vm.alloc(ListObj([], members(vm, r, "list", True)))


def same_everywhere(vm, s):
    """the list is the same on every rank and in every run: pieces in the order of sorted(), of sets that do not depend on the rank"""
    if isinstance(s, SymSeq) and s.tag and s.tag[0] == "concat":
        return same_everywhere(vm, s.tag[1]) and same_everywhere(vm, s.tag[2])
    if isinstance(s, SymSeq) and s.tag and s.tag[0] in SEQS:
        s = SEQS[s.tag[0]]
    if isinstance(s, EnumSeq) and s.meaning is not None:
        w = smt.fresh_arr("w")
        mine = getattr(vm, "rank", None)
        return s.ordered and (mine is None or str(mine) not in {str(c) for c in sc.free_consts(z3.simplify(s.meaning(w)))})
    return True


def build(ck):
    ck.assume_note("the starting set holds no product state twice; it is a finite collection")
    ck.assume_note("termination of the expansion is not shown; what is shown holds whenever it returns")
    ck.assume_note("sorted() lists the members of a set once each, in an order that depends on the set only")
    ck.assume_note("actions stored earlier are those of the same operator and restrictions (C06)")
    expand(ck)
    ck.assume_note("parallel expansion: an earlier action is stored on one rank at most; messages are received by the call they are sent "
                   "to; the task lists of the ranks hold each task once (C12)")
    parallel(ck)


def store(vm, dom):
    def val(A):
        m = MapObj(libs.STATE, lambda B: ACT(A, B), lambda B: act(A, B), "scalar", (), "action")
        m.readonly = True
        return vm.alloc(m)
    return MapObj(libs.STATE, dom, val, "other", (), "h_dict")


def judge(ck, vm, c):
    """with instances of instances"""
    smt.ROUNDS[0] = 5
    try:
        return ck.judge(vm, c)
    finally:
        smt.ROUNDS[0] = 2


def start(vm, S, mode):
    SEQS.clear()
    CUR[0] = vm
    n = smt.fresh_int("n")
    vm.state_n = n
    vm.assume(n >= 1)
    S.update(vm=vm, n=n, op=vm.alloc(PyObj("operator", {})), restr=vm.alloc(PyObj("restrictions", {})), rows=[], loops=0, loop=None,
             inside=False, mode=mode, last=None)
    bs = basis(vm)
    vm.contracts[FN, "applyOp"] = lambda vm, b: apply(vm, b, S)
    vm.sorted_set = sorted_set
    vm.any_order = lambda vm, r, kind: members(vm, r, kind, False)
    k, w = smt.fresh_int("k"), smt.fresh_arr("w")
    # REACH holds on the starting set and is closed under the action
    vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NB), REACH(BAS(k))), patterns=[BAS(k)]))
    v = smt.fresh_arr("v")
    vm.assume(z3.ForAll([v, w], z3.Implies(z3.And(REACH(v), ACT(v, w)), REACH(w)), patterns=[ACT(v, w)]))
    return bs


def expand(ck):
    S = {}

    def thunk(vm):
        bs = start(vm, S, "serial")
        S["store"] = vm.alloc(store(vm, lambda A: HELD(A)))
        vm.while_hooks.append(lambda vm, st, fr: rule(ck, vm, st, fr, S))
        return vm.function(FN, "expand_basis"), [S["n"], S["store"], S["op"], bs, S["restr"], "serial"], {}

    def post(vm, value):
        rows, s = result_rows(ck, vm, value, S)
        if s is None:
            return rows
        L, el, has, where = enum(vm, s)
        i, w = smt.fresh_int("i"), smt.fresh_arr("w")
        o = vm.get(S["store"])
        rows.append(("every member's action is stored", *judge(ck, vm, z3.Implies(z3.And(0 <= i, i < L), sc.as_z3(o.dom(el(i)))))))
        rows.append(("earlier actions are kept", *judge(ck, vm, z3.Implies(HELD(w), sc.as_z3(o.dom(w))))))
        return rows + contents(ck, vm, o, w)
    run1(ck, "C11.expand_basis serial", "finite.expand_basis", thunk, post)


def result_rows(ck, vm, value, S):
    rows = list(S["rows"])
    if not S["loops"]:
        return rows + [("expansion loop", "undecided", "no loop found")], None
    s = seq_of(vm, value)
    L, el, has, where = enum(vm, s)
    rows.append(("a tuple", "proved" if isinstance(value, SymSeq) and value.kind == "tuple" else "undecided", ""))
    i, j, w = smt.fresh_int("i"), smt.fresh_int("j"), smt.fresh_arr("w")
    J = lambda c: judge(ck, vm, c)
    rows.append(("starts with the starting set", *J(z3.And(L >= NB, z3.Implies(z3.And(0 <= i, i < NB), el(i) == BAS(i))))))
    rows.append(("no repetitions", *J(z3.Implies(z3.And(0 <= i, i < j, j < L), el(i) != el(j)))))
    rows.append(("closed", *J(z3.Implies(z3.And(0 <= i, i < L, ACT(el(i), w)),
                                        z3.And(0 <= where(w), where(w) < L, el(where(w)) == w)))))
    rows.append(("minimal", *J(z3.Implies(z3.And(0 <= i, i < L), REACH(el(i))))))
    return rows, s


# ---------------------------------------------------------------- parallel expansion: what the ranks hold and say
HELDR = z3.Function("held!by", smt.Arr, z3.IntSort(), z3.BoolSort())       # stored before the call, on a rank
HOME = z3.Function("held!home", smt.Arr, z3.IntSort())                     # the only rank that may hold it
SPB = z3.Function("found!by", smt.Arr, z3.IntSort(), z3.BoolSort())        # found by a rank in this round
SPA = z3.Function("found!from", smt.Arr, z3.IntSort(), smt.Arr)
P = {}


def within(w):
    """an unprocessed member of the list at the start of the round"""
    cl = P["cl"]
    return z3.And(cl.has(w), P["done"] <= cl.where(w), cl.where(w) < P["L"])


def unheld(w):
    return z3.Not(HELDR(w, HOME(w)))


def here(A, r):
    """the rank that applies the operator to A in this round, or looks its action up, is r"""
    tb = P["tb"]
    return z3.Or(HELDR(A, r), z3.And(tb.has(A), ranks.OWNER(tb.where(A)) == r))


def _par_facts(terms):
    out = []
    if not P:
        return out
    R = P["ranks"]
    acts = [x for x in terms if x.name == "act!in"]
    for x in terms:
        if x.name == "held!by":
            w, r = x.kids
            out.append(z3.And(0 <= HOME(w), HOME(w) < R, z3.Implies(x.t, HOME(w) == r)))
        elif x.name == "held!home":
            out.append(z3.And(0 <= x.t, x.t < R))
        elif x.name == "found!by" and "tb" in P:
            w, r = x.kids
            A = SPA(w, r)
            out.append(z3.Implies(x.t, z3.And(z3.Not(P["cl"].has(w)), within(A), ACT(A, w), here(A, r), 0 <= r, r < R)))
            for y in acts:
                if y.kids[1].eq(w):
                    B = y.kids[0]
                    out.append(z3.Implies(z3.And(z3.Not(P["cl"].has(w)), within(B), y.t, here(B, r)), x.t))
    return out


smt.INSTANTIATORS.append(_par_facts)


def parallel(ck):
    S = {}

    def thunk(vm):
        from pyvc.physlib import _rank
        bs = start(vm, S, "H_build")
        P.clear()
        rank = _rank(vm)
        P["ranks"] = vm.ranks
        S["rank"] = rank
        S["sent"], S["got"] = set(), set()
        ranks.RULES.clear()
        vm.contracts[FN, "get_job_tasks"] = ranks.job_contract
        S["store"] = vm.alloc(store(vm, lambda A: HELDR(A, rank)))
        S["log"] = []
        vm.lib["mpi4py.MPI.COMM_WORLD.bcast"] = lambda vm, a, k: p_bcast(ck, vm, a, k, S)
        vm.lib["mpi4py.MPI.COMM_WORLD.send"] = lambda vm, a, k: p_send(ck, vm, a, k, S)
        vm.lib["mpi4py.MPI.COMM_WORLD.recv"] = lambda vm, a, k: p_recv(ck, vm, a, k, S)
        vm.while_hooks.append(lambda vm, st, fr: rule(ck, vm, st, fr, S))
        S.update(calls=set(), shown=[], w=smt.fresh_arr("w"))
        return vm.function(FN, "expand_basis"), [S["n"], S["store"], S["op"], bs, S["restr"], "H_build"], {}

    def post(vm, value):
        rows, s = result_rows(ck, vm, value, S)
        if s is None:
            return rows
        L, el, has, where = enum(vm, s)
        i, w = smt.fresh_int("i"), smt.fresh_arr("w")
        o = vm.get(S["store"])
        own = z3.If(HELDR(el(i), HOME(el(i))), HOME(el(i)), P["own"](el(i)))
        inr = z3.And(0 <= i, i < L)
        rows.append(("a member's action is stored on one rank and only there", *judge(ck, vm, z3.Implies(inr, z3.And(
            0 <= own, own < vm.ranks, sc.as_z3(o.dom(el(i))) == (own == S["rank"]))))))
        rows.append(("earlier actions are kept", *judge(ck, vm, z3.Implies(HELDR(w, S["rank"]), sc.as_z3(o.dom(w))))))
        rows.append(("the ranks make the same collective calls", "proved" if len(S["calls"]) == 1 else "undecided", str(S["calls"])[:300]))
        rows.append(("messages are received under the tag they are sent with", "proved" if S["sent"] == S["got"] else "refuted", ""))
        return rows + contents(ck, vm, o, w)
    run1(ck, "C11.expand_basis H_build", "finite.expand_basis", thunk, post)


def tell(vm, S, what):
    if what not in S["log"]:
        S["log"].append(what)


def arg(a, k, i, name, d):
    return k.get(name, a[i] if len(a) > i else d)


def p_bcast(ck, vm, a, k, S):
    x = a[0] if a else k["obj"]
    root = smt_int(vm.as_int(arg(a, k, 1, "root", 0)))
    if not S["inside"]:
        raise Unsupported("broadcast outside the expansion loop")
    w = smt.fresh_arr("w")
    if isinstance(x, Ref) and isinstance(vm.get(x), SetObj) and not vm.get(x).d:
        dom = lambda w: z3.BoolVal(False)
    elif isinstance(x, Ref) and isinstance(vm.get(x), SymSetObj):
        dom = vm.get(x).dom
    else:
        dom = None
    if dom is not None:
        # what every rank found
        tell(vm, S, "found")
        found(ck, vm, sc.as_z3(dom(S["w"])), S, root)
        if vm.entails(z3.And(0 <= root, root < vm.ranks)) is not True:
            S["rows"].append(("broadcast from a rank", "undecided", str(root)))
        return vm.alloc(SymSetObj(libs.STATE, lambda w: SPB(w, root)))
    if not z3.simplify(root).eq(z3.IntVal(0)):
        raise Unsupported("broadcast from another rank")
    tell(vm, S, "unknown")
    if vm.entails(S["rank"] == 0) is True:
        s = seq_of(vm, x)
        if not isinstance(s, EnumSeq) and isinstance(s, SymSeq) and s.tag and s.tag[0] in SEQS:
            s = SEQS[s.tag[0]]
        if not isinstance(s, EnumSeq) or s.meaning is None:
            raise Unsupported("list of unknown product states")
        vm.assume(HINT(z3.simplify(HOME(w) - 1)) == 0)         # its place in range(1, ranks)
        S["rows"].append(("the states of the round nobody holds", *judge(ck, vm, s.meaning(w) == z3.And(within(w), unheld(w)))))
    elif vm.entails(S["rank"] != 0) is not True:
        raise Unsupported("broadcast of what only the root holds")
    kind = "tuple"
    return SymSeq(P["tb"].n, P["tb"].get, kind, P["tb"].tag, P["tb"].facts)


def found(ck, vm, d, S, root):
    """what this rank has found, shown once (the broadcast is in a loop over the ranks)"""
    own = {str(c) for c in sc.free_consts(root)}
    keep = list(vm.pc)
    vm.pc[:] = [f for f in keep if not own & {str(c) for c in sc.free_consts(f[0])}]
    A = SPA(S["w"], S["rank"])
    ids = {f[0].get_id() for f in vm.pc}
    vm.pc += [(HINTA(A) == 0, "f"), (HINT(P["tb"].where(A)) == 0, "f")]
    try:
        for lab, c in (("is", z3.Implies(d, SPB(S["w"], S["rank"]))), ("is all", z3.Implies(SPB(S["w"], S["rank"]), d))):
            key = z3.simplify(c).get_id()
            if not any(k == key and b <= ids for k, b, _ in S["shown"]):
                S["shown"].append((key, ids, c))
                S["rows"].append(("what a rank tells %s what it finds in the round" % lab, *judge(ck, vm, c)))
    finally:
        vm.pc[:] = keep


def p_send(ck, vm, a, k, S):
    x = a[0] if a else k["obj"]
    dest, tag = arg(a, k, 1, "dest", None), arg(a, k, 2, "tag", 0)
    if not isinstance(x, Ref) or not isinstance(vm.get(x), (SymSetObj, SetObj)) or dest != 0 or not isinstance(tag, int) or not S["inside"]:
        raise Unsupported("message")
    o = vm.get(x)
    w = smt.fresh_arr("w")
    d = z3.BoolVal(False) if isinstance(o, SetObj) else sc.as_z3(o.dom(w))
    if isinstance(o, SetObj) and o.d:
        raise Unsupported("message")
    S["sent"].add(tag)
    S["rows"].append(("message to the root: the states of the round a rank holds", *judge(ck, vm, d == z3.And(within(w), HELDR(w, S["rank"])))))
    return None


def p_recv(ck, vm, a, k, S):
    src, tag = arg(a, k, 1, "source", None), arg(a, k, 2, "tag", 0)
    if a or not isinstance(tag, int) or src is None or not S["inside"] or vm.entails(S["rank"] == 0) is not True:
        raise Unsupported("message")
    r = smt_int(vm.as_int(src))
    if vm.entails(z3.And(1 <= r, r < vm.ranks)) is not True:
        raise Unsupported("message from another rank")
    S["got"].add(tag)
    return vm.alloc(SymSetObj(libs.STATE, lambda w: z3.And(within(w), HELDR(w, r))))


def contents(ck, vm, o, w):
    """what is stored for w is the action on w"""
    mark = len(vm.pc)
    vm.assume(sc.as_z3(o.dom(w)))
    B = smt.fresh_arr("B")
    rows = []
    for p in vm.explore(lambda: o.val(w)):
        snap = vm.save()
        vm.restore(p.snap)
        x = vm.get(p.value)
        if isinstance(x, DictObj) and not x.d:
            x = MapObj(libs.STATE, lambda B: False, lambda B: 0, "scalar", (), "empty")
        if not isinstance(x, MapObj):
            rows.append(("stored actions", "undecided", "not a state"))
            vm.restore(snap)
            continue
        rows.append(("stored actions: product states", *judge(ck, vm, sc.as_z3(x.dom(B)) == ACT(w, B))))
        d = sc.is_zero(Scalar.of(x.val(B)) - act(w, B), vm.asms())
        rows.append(("stored actions: amplitudes", "proved" if d is True else "undecided", ""))
        vm.restore(snap)
    del vm.pc[mark:]
    return rows


def apply(vm, b, S):
    psi = b["psi"]
    o = vm.get(psi) if isinstance(psi, Ref) else None
    if not isinstance(o, MapObj) or not o.writes or len(o.writes) != 1 or o.writes[0][0] != "set":
        raise Unsupported("applyOp on another state than a single product state")
    _, A, amp = o.writes[0]
    if sc.is_zero(Scalar.of(vm.as_scalar(amp)) - 1, vm.asms()) is not True:
        raise Unsupported("applyOp on an unnormalised product state")
    if b["op"] != S["op"] or b["n_spin_orbitals"] is not S["n"] or b["restrictions"] != S["restr"] or b["opResult"] is not None or \
            sc.is_zero(Scalar.of(vm.as_scalar(b["slaterWeightMin"])) - vm.as_scalar(1e-12), vm.asms()) is not True:
        raise Unsupported("applyOp with other arguments")
    return vm.alloc(MapObj(libs.STATE, lambda B: ACT(A, B), lambda B: act(A, B), "scalar", (), "result"))


# ---------------------------------------------------------------- the loop

def assigned(st):
    names = set()
    for x in ast.walk(st):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
    return names


def rule(ck, vm, st, fr, S):
    if S.get("loop") not in (None, st) or S.get("inside") or st.orelse:
        raise Unsupported("another loop")
    vars = vm.get(fr).vars
    from pyvc.interp import force
    val = lambda x: force(vars.get(x, MISSING))
    mod = sorted(assigned(st))
    lists = [x for x in sorted(vars) if isinstance(val(x), Ref) and isinstance(vm.get(val(x)), ListObj)]
    if len(lists) != 1:
        raise Unsupported("lists of the expansion loop")
    par = S["mode"] != "serial"
    dicts = [x for x in sorted(vars) if isinstance(val(x), Ref) and isinstance(vm.get(val(x)), DictObj) and not vm.get(val(x)).d]
    if any(isinstance(val(x), Ref) and isinstance(vm.get(val(x)), (DictObj, MapObj)) and val(x) != S["store"] and x not in dicts for x in vars) \
            or len(dicts) > (1 if par else 0):
        raise Unsupported("dictionaries of the expansion loop")
    used = {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
    dicts = [x for x in dicts if x in used]
    L0 = enum(vm, seq_of(vm, val(lists[0])))[0]
    roles, temps = {}, []
    for x in mod:
        v = val(x)
        if v is MISSING:
            temps.append(x)
        elif x == lists[0]:
            continue
        elif vm.is_intlike(v) and vm.known(smt_int(vm.as_int(v)) == 0) is True:
            roles[x] = "done"
        elif vm.is_intlike(v) and vm.known(smt_int(vm.as_int(v)) == L0) is True:
            roles[x] = "all"
        else:
            raise Unsupported("variable %s of the expansion loop" % x)
    if sorted(roles.values()) not in (["all", "done"], ["done"]):
        raise Unsupported("counters of the expansion loop")
    S["loops"] += 1
    S["loop"] = st
    rank = S["rank"] if par else None
    new = val(dicts[0]) if dicts else None

    def check(when, before, own):
        """the invariant holds of the current state"""
        vs = vm.get(fr).vars
        s = seq_of(vm, force(vs[lists[0]]))
        L, el, has, where = enum(vm, s)
        done = [smt_int(vm.as_int(force(vs[x]))) for x, r in roles.items() if r == "done"][0]
        i, j, w, r = smt.fresh_int("i"), smt.fresh_int("j"), smt.fresh_arr("w"), smt.fresh_int("r")
        o = vm.get(S["store"])
        if before is not None:
            vm.assume(HINT(z3.simplify(i - before)) == 0)      # the place in the slice of new members
        rec = lambda lab, st_, det="": S["rows"].append(("invariant %s: %s" % (when, lab), st_, det))
        conds = [("counters", z3.And(0 <= done, done <= L, *[smt_int(vm.as_int(force(vs[x]))) == L for x, q in roles.items() if q == "all"])),
                 ("starts with the starting set", z3.And(L >= NB, z3.Implies(z3.And(0 <= i, i < NB), el(i) == BAS(i)))),
                 ("distinct", z3.Implies(z3.And(0 <= i, i < j, j < L), el(i) != el(j))),
                 ("only reachable", every(vm, s, i, lambda A: REACH(A)))]
        lead = every(vm, s, i, lambda A: z3.Implies(z3.And(i < done, ACT(A, w)), has(w)))
        if not par:
            conds += [("processed members lead into the list", lead),
                      ("processed members are stored", every(vm, s, i, lambda A: z3.Implies(i < done, sc.as_z3(o.dom(A))))),
                      ("earlier actions are kept", z3.Implies(HELD(w), sc.as_z3(o.dom(w))))]
        else:
            spec, own1 = own
            if before is not None:
                # the rank that finds what the i-th member leads to
                A = P["cl"].el(i)
                new_ = z3.And(before <= i, i < P["L"], ACT(A, w))
                for lab, c, f in (("looked up", HELDR(A, HOME(A)), HOME(A)), ("computed", unheld(A), ranks.OWNER(P["tb"].where(A)))):
                    rr = smt.fresh_int("f")
                    vm.assume(z3.And(rr == f, HINT(rr) == 0))
                    conds.append(("what it leads to is found by a rank: " + lab, z3.Implies(z3.And(new_, c, z3.Not(P["cl"].has(w))), z3.And(0 <= rr, rr < vm.ranks, SPB(w, rr)))))
                    conds.append(("what is found by a rank is in the list: " + lab, z3.Implies(z3.And(0 <= rr, rr < vm.ranks, SPB(w, rr)), has(w))))
                lead = z3.Implies(z3.And(0 <= i, i < before, ACT(A, w)), P["cl"].has(w))
                conds.append(("all members of the round are processed", done == P["L"]))
                conds.append(("members stay", z3.Implies(P["cl"].has(w), has(w))))
            conds.append(("processed members lead into the list", lead))
            if new is None:
                mine = sc.as_z3(o.dom(w))
                conds.append(("stored on this rank", mine == z3.Or(HELDR(w, rank), spec(w, rank))))
            else:
                conds.append(("earlier actions are kept as they are", sc.as_z3(o.dom(w)) == HELDR(w, rank)))
                q = vm.get(new)
                if isinstance(q, DictObj) and q.d:
                    raise Unsupported("new actions")
                dq = z3.BoolVal(False) if isinstance(q, DictObj) else sc.as_z3(q.dom(w))
                conds.append(("new on this rank", dq == spec(w, rank)))
            conds += [("new actions are of processed members, on one rank", z3.Implies(spec(w, r), z3.And(
                          has(w), where(w) < done, own1(w) == r, 0 <= r, r < vm.ranks, unheld(w)))),
                      ("processed members are stored", every(vm, s, i, lambda A: z3.Implies(i < done, z3.Or(HELDR(A, HOME(A)), spec(A, own1(A))))))]
        if before is not None:
            conds.append(("progress", done > before))
        for lab, c in conds:
            rec(lab, *judge(ck, vm, c))
        rec("the order of the list does not depend on the order of sets or the rank", "proved" if same_everywhere(vm, s) else "refuted")
        for x in [o] + ([vm.get(new)] if new is not None and isinstance(vm.get(new), MapObj) else []):
            for l, a, b in contents(ck, vm, x, w):
                rec(l, a, b)
    no = lambda w, r: z3.BoolVal(False)
    check("initially", None, (no, lambda w: z3.IntVal(0)))
    # an arbitrary round
    L, done = smt.fresh_int("L"), smt.fresh_int("done")
    cl = EnumSeq(smt.fresh_name("cl"), L, "list")
    vm.assume(z3.And(L >= NB, 0 <= done, done <= L))
    k, w = smt.fresh_int("k"), smt.fresh_arr("w")
    vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < NB), cl.el(k) == BAS(k)), patterns=[cl.el(k)]))
    vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < L), REACH(cl.el(k))), patterns=[cl.el(k)]))
    vm.assume(z3.ForAll([k, w], z3.Implies(z3.And(0 <= k, k < done, ACT(cl.el(k), w)), cl.has(w)), patterns=[ACT(cl.el(k), w)]))
    vs = vm.mut(fr).vars
    vs[lists[0]] = vm.alloc(ListObj([], cl))
    for x, q in roles.items():
        vs[x] = done if q == "done" else L
    for x in temps:
        vs.pop(x, None)
    own = None
    if not par:
        stored = z3.Function(smt.fresh_name("stored"), smt.Arr, z3.BoolSort())
        vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < done), stored(cl.el(k))), patterns=[cl.el(k)]))
        vm.assume(z3.ForAll([w], z3.Implies(HELD(w), stored(w)), patterns=[HELD(w)]))
        vm.put(S["store"], store(vm, lambda A: stored(A)))
    else:
        nm = smt.fresh_name("new")
        NEW = z3.Function(nm, smt.Arr, z3.IntSort(), z3.BoolSort())
        OWN = z3.Function(nm + "!own", smt.Arr, z3.IntSort())
        tb = EnumSeq(smt.fresh_name("tb"), smt.fresh_int("m"), "tuple", lambda w: z3.And(within(w), unheld(w)))
        vm.assume(tb.n >= 0)
        P.update(cl=cl, L=L, done=done, tb=tb, own=OWN)
        r = smt.fresh_int("r")
        vm.assume(z3.ForAll([w, r], z3.Implies(NEW(w, r), z3.And(cl.has(w), cl.where(w) < done, OWN(w) == r, 0 <= r, r < vm.ranks, unheld(w))),
                            patterns=[NEW(w, r)]))
        vm.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < done), z3.Or(HELDR(cl.el(k), HOME(cl.el(k))), NEW(cl.el(k), OWN(cl.el(k))))),
                            patterns=[cl.el(k)]))
        if new is None:
            vm.put(S["store"], store(vm, lambda A: z3.Or(HELDR(A, rank), NEW(A, rank))))
        else:
            vm.put(new, store(vm, lambda A: NEW(A, rank)))
        spec = lambda w, r: z3.Or(NEW(w, r), z3.And(tb.has(w), ranks.OWNER(tb.where(w)) == r))
        own = (spec, lambda w: z3.If(NEW(w, OWN(w)), OWN(w), ranks.OWNER(tb.where(w))))
        S["log"] = []
    c = vm.truth(vm.eval(st.test, fr))
    if vm.decide(c if isinstance(c, bool) else sc.as_z3(c)):
        S["inside"] = True
        try:
            vm.exec_block(st.body, fr)
        except ContinueSig:
            pass
        except BreakSig:
            raise Unsupported("break out of the expansion loop")
        finally:
            S["inside"] = False
        if par:
            S["calls"].add(tuple(S["log"]))
        check("preserved", done, own)
        raise Infeasible()
    for x in temps:
        vm.mut(fr).vars.pop(x, None)
    return True
