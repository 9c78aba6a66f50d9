"""C12: distribution of tasks over ranks, for every number of ranks and tasks."""
from .base import *
from .c03 import zero
from pyvc import libs
from pyvc.loops import MISSING

MOD = ED + ".finite"
COMM = ED + ".mpi_comm"
I = z3.IntSort()
# the dictionary of rank r: KEYS(r, p) is its p-th key (0 <= p < LEN(r)), PLACE its position, HELD whether r has it
LEN = z3.Function("part!len", I, I)
KEYS = z3.Function("part!key", I, I, I)
PLACE = z3.Function("part!place", I, I, I)
HELD = z3.Function("part!held", I, I, z3.BoolSort())
OWNER = z3.Function("part!owner", I, I)          # the rank that holds a key (keys are unique to a rank)
CHUNK = z3.Function("part!chunk", I, I, I)       # the number of the chunk a key is sent in
NCH = z3.Function("part!chunks", I, I)           # the number of chunks of a rank
sc.INVERSES["part!key"] = (lambda w, r: PLACE(r, w), lambda w, r: HELD(r, w))
MAXES = []                                       # [(maximum, length)] of arrays of the LENs of the ranks


def _facts(terms):
    out = []
    for x in terms:
        if x.name == "part!key":
            r, p = x.kids
            out.append(z3.Implies(z3.And(0 <= p, p < LEN(r)), z3.And(HELD(r, x.t), PLACE(r, x.t) == p)))
        elif x.name in ("part!place", "part!held"):
            r, w = x.kids
            if not (z3.is_app(w) and w.decl().eq(KEYS)):
                out.append(z3.Implies(HELD(r, w), z3.And(0 <= PLACE(r, w), PLACE(r, w) < LEN(r), KEYS(r, PLACE(r, w)) == w)))
                # keys are unique to a rank; the chunks of a rank cover its entries (dict_chunks_from_one_MPI_rank)
                out.append(z3.Implies(HELD(r, w), z3.And(OWNER(w) == r, 0 <= CHUNK(r, w), CHUNK(r, w) < NCH(r))))
        elif x.name == "part!len":
            out.append(x.t >= 0)
            for m, n in MAXES:
                out.append(z3.Implies(z3.And(0 <= x.kids[0], x.kids[0] < n), x.t <= m))
    return out


smt.INSTANTIATORS.append(_facts)


def value(r, k):
    return sc.ind(HELD(r, k)) * sc.app("part!value", r, k)


def part(vm, r, owned=True):
    """the dictionary of rank r (owned: said in terms of the one rank that holds a key)"""
    mine = (lambda k: OWNER(k) == r) if owned else (lambda k: z3.BoolVal(True))
    m = MapObj(libs.INTKEY, lambda k: z3.simplify(z3.And(mine(k), HELD(r, k))), lambda k: sc.ind(mine(k)) * value(r, k), "scalar")
    m.size, m.order = LEN(r), (LEN(r), lambda p: KEYS(r, p))
    return vm.alloc(m)


def task_list(vm, N):
    """arbitrary list of N tasks; task i is the (opaque) number T(i)"""
    T = z3.Function("task", z3.IntSort(), z3.IntSort())
    return vm.alloc(ListObj([], SymSeq(N, lambda k: T(smt_int(k)), "list"))), T


def pieces(vm, v):
    """the returned tuple as pieces [(length, element function)]"""
    if isinstance(v, Ref):
        o = vm.get(v)
        if isinstance(o, ListObj):
            out = [] if o.base is None else pieces(vm, o.base)
            return out + [(z3.IntVal(1), lambda k, x=x: smt_int(vm.as_int(x))) for x in o.items]
    if isinstance(v, SymSeq):
        return [(smt_int(v.length), lambda k: smt_int(vm.as_int(v.get(k))))]
    if isinstance(v, tuple):
        return [(z3.IntVal(1), lambda k, x=x: smt_int(vm.as_int(x))) for x in v]
    raise Unsupported("not a sequence: %r" % (v,))


def index_of(T, e):
    e = z3.simplify(e)
    if z3.is_app(e) and e.decl().eq(T):
        return e.arg(0)
    raise Unsupported("not one of the tasks: %s" % e)


def build(ck):
    def go():
        vm = Vm()
        R, N, r = smt.fresh_int("ranks"), smt.fresh_int("N"), smt.fresh_int("rank")
        vm.assume(z3.And(R >= 1, N >= 0, 0 <= r, r < R))
        tasks, T = task_list(vm, N)
        f = vm.function(MOD, "get_job_tasks")
        paths = vm.explore(lambda: vm.call(f, [r, R, tasks], {}))
        ck.absorb(vm)
        asms = list(vm.asms())
        # [(condition on r, pieces)]
        cases, defs = [], []
        for p in paths:
            if p.kind != "ok":
                return [("no exception", "refuted" if p.kind == "raise" else "undecided", "")]
            vm.restore(p.snap)
            if not isinstance(p.value, (tuple, SymSeq)):
                return [("tuple", "undecided", "%r" % (p.value,))]
            ps = []
            for n, g in pieces(vm, p.value):
                k = smt.fresh_int("k")
                vm.assume(z3.And(0 <= k, k < n))
                alts = []
                for e in vm.explore(lambda: index_of(T, g(k))):
                    if e.kind != "ok":
                        return [("elements", "undecided", e.kind)]
                    alts.append((e.cond(), e.value))
                ps.append((n, k, alts))
            defs += [e for e, kind in p.pc if kind != "d" and any(str(x).startswith("quo") for x in sc.free_consts(e))]
            cases.append((z3.And(*[e for e, _ in p.pc]) if p.pc else z3.BoolVal(True), ps))
        rows = {}

        def need(label, hyp, phi):
            st = smt.entails(asms + list(hyp), phi, 20000)
            s = ("proved", "") if st is True else ("undecided", short(phi)) if st is None else ("refuted", short(phi))
            rows[label] = worst(rows.get(label), s)

        def at(e, q):
            return z3.substitute(e, (r, q))

        # (condition, length of piece, offset, index within the piece, task index)
        flat = []
        quos = []
        for c, ps in cases:
            off = z3.IntVal(0)
            for n, k, alts in ps:
                for d, ix in alts:
                    flat.append((z3.And(c, d), n, off, k, ix))
                off = off + n
            quos += [x for x in sc.free_consts(c) if str(x).startswith("quo")]
        total = [(c, sum([n for n, _, _ in ps], z3.IntVal(0))) for c, ps in cases]
        q = smt.fresh_int("rank2")
        hq = [0 <= q, q < R]
        nl = lemma_products(R, N, r, q)
        for u in quos:
            nl += monotone(u, R, N, r, q)
        for c, n in total:
            need("lengths are not negative", [c] + nl, n >= 0)
            for c2, n2 in total:
                need("sizes differ by at most one", hq + [c, at(c2, q)], n - at(n2, q) <= 1)
        for c, n, off, k, ix in flat:
            need("only given tasks", nl + [c, 0 <= k, k < n], z3.And(0 <= ix, ix < N))
            for c2, n2, off2, k2, ix2 in flat:
                k3 = smt.fresh_int("k")
                c3 = z3.substitute(c2, (k2, k3), (r, q))
                jx = z3.substitute(ix2, (k2, k3), (r, q))
                need("no task twice", nl + hq + [c, 0 <= k, k < n, c3, 0 <= k3, k3 < at(n2, q), ix == jx],
                     z3.And(r == q, off + k == at(off2, q) + k3))
        # every task: the rank and place are given as witnesses (blocks or round robin)
        t = smt.fresh_int("t")
        facts = list(defs)
        cands = [(t / R, t % R)]
        for u in [N / R] + quos:
            rest = N - u * R
            cands += [(t % u, t / u), (u, t - u * R), (t % (u + 1), t / (u + 1)),
                      ((t - rest * (u + 1)) % u, rest + (t - rest * (u + 1)) / u)]
            facts += division_facts(N, R, t, u)
        hit = []
        for c, n, off, k, ix in flat:
            for kk, rr in cands:
                s = lambda e: z3.substitute(e, (k, kk), (r, rr))
                hit.append(z3.And(0 <= rr, rr < R, s(c), 0 <= kk, kk < s(n), s(ix) == t))
        cover = smt.entails([R >= 1, N >= 0, 0 <= t, t < N] + facts, z3.Or(*hit), 30000)
        rows["every task"] = ("proved", "") if cover is True else ("undecided", "no witness for some task")
        return [(l, s, d) for l, (s, d) in rows.items()]
    ck.run("C12.get_job_tasks", "finite.get_job_tasks", go)
    gather(ck)


def judge(ck, vm, phi):
    return ck.judge(vm, phi)


def gather(ck):
    ck.assume_note("bcast hands every rank the root's object; a key is held by one rank only (documented)")
    ck.assume_note("a generator is run to its end before its values are used (the dictionary is not changed meanwhile)")
    MAXES.clear()
    for root in (True, False):
        chunks(ck, root)
    gathered(ck)


def chunks(ck, is_root):
    """dict_chunks_from_one_MPI_rank on the root and on another rank"""
    S = {}

    def bcast(vm, a, k):
        x = a[0] if a else k["obj"]
        r = smt_int(vm.as_int(k.get("root", a[1] if len(a) > 1 else 0)))
        if not z3.simplify(r).eq(S["root"]):
            S["rows"].append(("messages come from the root", "undecided", str(r)))
        if is_root:
            S["sent"] = x
            return x
        if S["sent"] is not MISSING:
            raise Unsupported("more than one message")
        S["sent"] = x
        return NCH(S["root"])

    def thunk(vm):
        from pyvc.physlib import _rank
        rank = _rank(vm)
        if is_root:
            root = rank
        else:
            root = smt.fresh_int("root")
            vm.assume(z3.And(0 <= root, root < vm.ranks, root != rank))
        lim = smt.fresh_int("limit")
        vm.assume(lim >= 1)
        vm.assume(NCH(root) >= 0)
        vm.lib["mpi4py.MPI.COMM_WORLD.bcast"] = bcast
        S.update(root=root, rank=rank, lim=lim, rows=[], sent=MISSING, data=part(vm, rank, False))
        return vm.function(COMM, "dict_chunks_from_one_MPI_rank"), [S["data"], lim, root], {}

    def post(vm, v):
        rows = list(S["rows"])
        r, lim = S["root"], S["lim"]
        s = libs.as_seq(vm, v)
        if not is_root:
            rows.append(("as many items as the root announced", *judge(ck, vm, smt_int(s.length) == NCH(r))))
            c = smt.fresh_int("c")
            vm.assume(z3.And(0 <= c, c < NCH(r)))
            rows.append(("nothing but placeholders", "proved" if s.get(c) is None else "undecided", ""))
            return rows
        n = smt_int(vm.as_int(S["sent"]))
        rows.append(("announced number of chunks", *judge(ck, vm, smt_int(s.length) == n)))
        c, w = smt.fresh_int("c"), smt.fresh_int("w")
        o = vm.get(s.get(c))
        p = PLACE(r, w)
        inr = z3.And(0 <= c, c < n)
        here = z3.And(HELD(r, w), c * lim <= p, p < (c + 1) * lim)
        rows.append(("chunk c holds the entries number c*limit to (c+1)*limit - 1", *judge(ck, vm, z3.Implies(inr, sc.as_z3(o.dom(w)) == here))))
        snap = vm.save()
        vm.assume(z3.And(inr, here))
        st, det = zero(vm, Scalar.of(vm.as_scalar(o.val(w))) - value(r, w))
        rows.append(("with their values", st, det))
        vm.restore(snap)
        q = p / lim
        div = [p == q * lim + p % lim, 0 <= p % lim, p % lim < lim, z3.Implies(z3.And(p >= 0), q >= 0),
               z3.Implies(q >= n, q * lim >= n * lim)]
        for d in div:
            vm.assume(d)
        rows.append(("every entry is in a chunk", *judge(ck, vm, z3.Implies(HELD(r, w), z3.And(0 <= q, q < n, q * lim <= p, p < (q + 1) * lim)))))
        return rows
    run1(ck, "C12.dict_chunks %s" % ("root" if is_root else "other rank"), "mpi_comm.dict_chunks_from_one_MPI_rank", thunk, post)


def lemma_products(R, N, r, q):
    """instances of: a <= b and c >= 0 imply a c <= b c; and of the definition of division"""
    nj = N / R
    out = [N == nj * R + N % R, 0 <= N % R, N % R < R, nj >= 0]
    for a, b in ((r, q), (q, r)):
        out.append(z3.Implies(a < b, a * nj + nj <= b * nj))
        out.append(z3.Implies(a < R, a * nj + nj <= R * nj))
        out.append(a * nj >= 0)
    return out


def monotone(u, R, N, r, q):
    """products of the quotient with ordered factors are ordered"""
    out = []
    for a, b in ((r, q), (q, r), (r, R), (q, R)):
        out.append(z3.Implies(z3.And(a < b, u >= 0), a * u + u <= b * u))
        out.append(z3.Implies(z3.And(a >= 0, u >= 0), a * u >= 0))
    out.append(z3.Implies(u < 0, u * R <= -R))
    return out


def division_facts(N, R, t, u):
    """true statements about integer division"""
    q = t / u
    return [N == (N / R) * R + N % R, 0 <= N % R, N % R < R, N / R >= 0,
            z3.Implies(u > 0, z3.And(t == q * u + t % u, 0 <= t % u, t % u < u, q >= 0)),
            z3.Implies(z3.And(u > 0, q >= R), q * u >= R * u),
            z3.Implies(z3.And(u > 0, t < u * R), q < R)]


class Item:
    """item c of the generator for root r: the chunk on the root, None elsewhere; only good for being broadcast"""

    def __init__(self, r, c):
        self.r, self.c = r, c

    def subst_model(self, vm, pairs):
        s = lambda x: z3.simplify(z3.substitute(x, *pairs))
        return Item(s(self.r), s(self.c))


def gathered(ck):
    """allgather_dict, with the chunks by contract"""
    S = {}

    def chunk_contract(vm, bound):
        r, lim = smt_int(vm.as_int(bound["root"])), smt_int(vm.as_int(bound["chunk_maxsize"]))
        if bound["data"] != S["data"]:
            raise Unsupported("chunks of another dictionary")
        S["rows"].append(("chunks within the limit", *judge(ck, vm, lim <= S["lim"])))
        S["rows"].append(("chunk size and root as documented", *judge(ck, vm, z3.And(lim >= 1, 0 <= r, r < vm.ranks))))
        return SymSeq(NCH(r), lambda c: Item(r, smt_int(c)), "iter")

    def bcast(vm, a, k):
        from pyvc.sparse import bcast as plain
        x = a[0] if a else k["obj"]
        r = smt_int(vm.as_int(k.get("root", a[1] if len(a) > 1 else 0)))
        S["rows"].append(("messages come from a rank", *judge(ck, vm, z3.And(0 <= r, r < vm.ranks))))
        if isinstance(x, Item):
            S["rows"].append(("a chunk is sent by the rank that holds it", *judge(ck, vm, r == x.r)))
            plain(vm, [z3.IntVal(0)], {"root": r})
            m = MapObj(libs.INTKEY, 
                       lambda q: z3.And(OWNER(q) == x.r, HELD(x.r, q), CHUNK(x.r, q) == x.c),
                       lambda q: sc.ind(z3.And(OWNER(q) == x.r, CHUNK(x.r, q) == x.c)) * value(x.r, q), "scalar")
            return vm.alloc(m)
        if isinstance(x, Ref) and x == S["data"]:
            plain(vm, [z3.IntVal(0)], {"root": r})
            S["rows"].append(("a dictionary sent in one piece is within the limit", *judge(ck, vm, LEN(r) <= S["lim"])))
            return part(vm, r)
        if isinstance(x, Ref):
            raise Unsupported("message %r" % (vm.get(x),))
        return plain(vm, a, k)

    def biggest(vm, a, k):
        o = vm.get(a[0]) if len(a) == 1 and isinstance(a[0], Ref) else None
        j = smt.fresh_int("j")
        if isinstance(o, SymNdObj) and len(o.shape) == 1:
            n, x = smt_int(o.shape[0]), o.get((j,))
        elif isinstance(o, ListObj) and o.base is not None:
            s = libs.list_seq(vm, o)
            n, x = smt_int(s.length), s.get(j)
        else:
            return libs._max(vm, a, k)
        if sc.is_zero(Scalar.of(x) - Scalar.of(LEN(j)), vm.asms() + [0 <= j, j < n]) is not True:
            raise Unsupported("maximum of another array")
        m, w = smt.fresh_int("max"), smt.fresh_int("at")
        vm.assume(z3.And(0 <= w, w < n, LEN(w) == m))
        MAXES.append((m, n))
        return m

    def thunk(vm):
        from pyvc.physlib import _rank
        rank = _rank(vm)
        lim = smt.fresh_int("limit")
        vm.assume(lim >= 1)
        T = z3.Function("total!has", I, z3.BoolSort())
        total = vm.alloc(MapObj(libs.INTKEY, lambda k: T(k), lambda k: sc.ind(T(k)) * sc.app("total", k), "scalar"))
        vm.lib["mpi4py.MPI.COMM_WORLD.bcast"] = bcast
        vm.lib["builtins.max"] = biggest
        vm.contracts[COMM, "dict_chunks_from_one_MPI_rank"] = chunk_contract
        S.update(rank=rank, lim=lim, rows=[], data=part(vm, rank), total=total, T=T)
        return vm.function(COMM, "allgather_dict"), [S["data"], total, lim], {}

    def post(vm, v):
        rows = list(S["rows"])
        w = smt.fresh_int("w")
        o, T = vm.get(S["total"]), S["T"]
        r = OWNER(w)
        here = z3.And(0 <= r, r < vm.ranks, HELD(r, w))
        rows.append(("keys: the old ones and those of every rank", *judge(ck, vm, sc.as_z3(o.dom(w)) == z3.Or(T(w), here))))
        want = sc.ite(here, value(r, w), sc.ind(T(w)) * sc.app("total", w))
        st, det = zero(vm, Scalar.of(vm.as_scalar(o.val(w))) - want)
        rows.append(("values: those of the rank that holds the key", st, det))
        d = vm.get(S["data"])
        rows.append(("the rank's own dictionary is not changed", *judge(ck, vm, sc.as_z3(d.dom(w)) == HELD(S["rank"], w))))
        return rows
    run1(ck, "C12.allgather_dict", "mpi_comm.allgather_dict", thunk, post)
