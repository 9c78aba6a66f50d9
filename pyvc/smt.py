"""z3 interface: proof queries with lemma instantiation for the population-count symbol."""
import time
import z3

Arr = z3.ArraySort(z3.IntSort(), z3.BoolSort())
# PC(A, h): number of k in [0,h) with A[k]; h <= 0 gives 0
PC = z3.Function("PC", Arr, z3.IntSort(), z3.IntSort())

EMPTY = z3.K(z3.IntSort(), z3.BoolVal(False))

STATS = {"queries": 0, "time": 0.0, "unknown": 0}
TIMEOUT = 10000

_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])


def birth(c):
    """number of fresh names made when the constant c was made (0 for named constants)"""
    t = c.decl().name().rsplit("!", 1)
    return int(t[1]) if len(t) == 2 and t[1].isdigit() else 0


def fresh_int(p="i"):
    return z3.Int(fresh_name(p))


def fresh_bool(p="b"):
    return z3.Bool(fresh_name(p))


def fresh_arr(p="A"):
    return z3.Const(fresh_name(p), Arr)


def fresh(sort, p="x"):
    return z3.Const(fresh_name(p), sort)


def is_z3(x):
    return isinstance(x, z3.ExprRef)


class Info:
    """what the instantiators ask about a subterm, computed once"""
    __slots__ = ("t", "id", "name", "kind", "sort", "kids", "isbool", "const")

    def __init__(self, t):
        d = t.decl()
        self.t = t
        self.id = t.get_id()
        self.name = d.name()
        self.kind = d.kind()
        self.sort = _sort_name(t.sort())
        self.kids = t.children()
        self.isbool = isinstance(t, z3.BoolRef)
        self.const = not self.kids


_sort_names = {}


def _sort_name(s):
    i = s.get_id()
    r = _sort_names.get(i)
    if r is None:
        r = _sort_names[i] = (str(s), s)
    return r[0]


_infos = {}


def info(t):
    i = t.get_id()
    r = _infos.get(i)
    if r is None:
        r = _infos[i] = Info(t)
    return r


def _walk(e, seen, out):
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        x = _infos.get(i)
        if x is None:
            # bound variables: no instantiation inside quantifiers
            if z3.is_quantifier(t) or not z3.is_app(t):
                continue
            x = info(t)
        out.append(x)
        stack.extend(x.kids)


_sub_cache = {}


def subinfos(es):
    seen, out = set(), []
    for e in es:
        i = e.get_id()
        r = _sub_cache.get(i)
        if r is None:
            ts = []
            _walk(e, set(), ts)
            r = _sub_cache[i] = (e, ts)
        for x in r[1]:
            if x.id not in seen:
                seen.add(x.id)
                out.append(x)
    return out


def subterms(es):
    return [x.t for x in subinfos(es)]


# user instantiators: list of functions (infos of all subterms) -> list of facts
INSTANTIATORS = []


def _store_chain(a):
    """A = Store(Store(base,...)): returns base and list of (i,v) outermost first"""
    ch = []
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        ch.append((a.arg(1), a.arg(2)))
        a = a.arg(0)
    return a, ch


def _is_ite(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE


def pc_facts(terms):
    """Lemma instances for PC. Every instance is a theorem about counting (see DESIGN.md, lemma list)."""
    facts = []
    byarr = {}
    pcs = [x.t for x in terms if x.name == "PC"]
    work = list(pcs)
    done = set()
    while work:
        t = work.pop()
        if t.get_id() in done:
            continue
        done.add(t.get_id())
        a, h = t.arg(0), t.arg(1)
        facts.append(z3.And(t >= 0, z3.Implies(h <= 0, t == 0), z3.Implies(h >= 0, t <= h)))
        byarr.setdefault(a.get_id(), (a, []))[1].append((h, t))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            b, i, v = a.arg(0), a.arg(1), a.arg(2)
            u = PC(b, h)
            facts.append(
                t == u + z3.If(z3.And(0 <= i, i < h), z3.If(v, 1, 0) - z3.If(z3.Select(b, i), 1, 0), z3.IntVal(0))
            )
            work.append(u)
        elif _is_ite(a):
            u1, u2 = PC(a.arg(1), h), PC(a.arg(2), h)
            facts.append(t == z3.If(a.arg(0), u1, u2))
            work += [u1, u2]
        elif z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            facts.append(z3.Implies(h >= 0, t == z3.If(a.arg(0), h, z3.IntVal(0))))
    for aid, (a, lst) in byarr.items():
        for x in range(len(lst)):
            for y in range(len(lst)):
                if x == y:
                    continue
                (h1, t1), (h2, t2) = lst[x], lst[y]
                facts.append(
                    z3.Implies(
                        z3.And(0 <= h1, h1 < h2),
                        z3.And(t2 >= t1 + z3.If(z3.Select(a, h1), 1, 0), t2 <= t1 + (h2 - h1)),
                    )
                )
                # last step, when the bounds are adjacent
                facts.append(
                    z3.Implies(z3.And(0 <= h1, h2 == h1 + 1), t2 == t1 + z3.If(z3.Select(a, h1), 1, 0))
                )
                if x < y:
                    facts.append(z3.Implies(h1 == h2, t1 == t2))
    return facts


ROUNDS = [2]


def instantiate(es):
    facts = []
    cur = list(es)
    for _ in range(ROUNDS[0]):
        terms = subinfos(cur + facts)
        new = pc_facts(terms) if any(x.name == "PC" for x in terms) else []
        for f in INSTANTIATORS:
            new += f(terms)
        if not new:
            break
        before = len(facts)
        facts = _dedup(facts + new)
        if len(facts) == before:
            break
    return facts


def _dedup(es):
    seen, out = set(), []
    for e in es:
        if e.get_id() not in seen:
            seen.add(e.get_id())
            out.append(e)
    return out


def check_sat(es, timeout=None, model=True):
    """-> ('sat', model) | ('unsat', None) | ('unknown', reason)

    First without model-based instantiation of quantifiers, which settles almost every unsatisfiable query;
    only a caller that wants a model (a refutation) pays for the full solver.
    """
    t0 = time.time()
    STATS["queries"] += 1
    es = [z3.BoolVal(e) if isinstance(e, bool) else e for e in es]
    fs = instantiate(es)
    s = z3.SimpleSolver()
    s.set("timeout", int(timeout or TIMEOUT))
    s.set("smt.mbqi", False)
    s.add(*es)
    s.add(*fs)
    r = s.check()
    if r == z3.unknown and model:
        s = z3.Solver()
        s.set("timeout", int(timeout or TIMEOUT))
        s.add(*es)
        s.add(*fs)
        r = s.check()
    STATS["time"] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", s.model()
    STATS["unknown"] += 1
    return "unknown", s.reason_unknown()


_ent_cache = {}


def entails(asms, phi, timeout=None, model=False):
    """True: proved; False: countermodel found; None: unknown.  The model is in LAST_MODEL."""
    global LAST_MODEL
    if isinstance(phi, bool):
        if phi:
            return True
        phi = z3.BoolVal(False)
    phi = z3.simplify(phi)
    if z3.is_true(phi):
        return True
    key = (tuple(a.get_id() if is_z3(a) else a for a in asms), phi.get_id())
    if key in _ent_cache and (_ent_cache[key][0] is not None or not model):
        r = _ent_cache[key]
        LAST_MODEL = r[1]
        return r[0]
    r, m = check_sat(list(asms) + [z3.Not(phi)], timeout, model)
    LAST_MODEL = m if r == "sat" else None
    res = {"unsat": True, "sat": False, "unknown": None}[r]
    # keep the expressions alive so that ids stay unique
    _ent_cache[key] = (res, LAST_MODEL, list(asms), phi)
    return res


LAST_MODEL = None


def canonical(A, n):
    """A is False outside [0,n)"""
    k = z3.Int("k!c")
    return z3.ForAll([k], z3.Implies(z3.Or(k < 0, k >= n), z3.Not(z3.Select(A, k))), patterns=[z3.Select(A, k)])


def bigand(xs):
    xs = [x for x in xs if not (x is True)]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(*xs) if len(xs) > 1 else xs[0]


_or_cache = {}


def orient(e):
    """equalities (of non-booleans) with their sides in a fixed order, so that equal conditions are the same term"""
    i = e.get_id()
    if i in _or_cache:
        return _or_cache[i][1]
    if not z3.is_app(e) or not e.children():
        r = e
    else:
        cs = [orient(c) if isinstance(c, z3.BoolRef) else c for c in e.children()]
        if z3.is_eq(e) and not isinstance(cs[0], z3.BoolRef):
            r = cs[1] == cs[0] if cs[0].get_id() > cs[1].get_id() else e
        elif any(not a.eq(b) for a, b in zip(cs, e.children())):
            r = z3.And(*cs) if z3.is_and(e) else z3.Or(*cs) if z3.is_or(e) else e.decl()(*cs)
        else:
            r = e
    _or_cache[i] = (e, r)
    return r
