"""Quantified predicates as applications with lazily instantiated definitions.

all!j(t) stands for  forall x. body(x, t).  Instances added to every query:
   all!j(t) => body(c, t)   for the ground terms c of the sort of x
   not all!j(t) => not body(w!j(t), t)
Both are consequences of the definition (w!j a Skolem function)."""
import z3
from . import smt
from . import scalar as sc

DEFS = {}     # decl name -> (x placeholder, body, params placeholders, decl, skolem)
_bykey = {}


def _max_terms(t, x, out, seen):
    """maximal x-free, closed, non-numeral subterms"""
    if not sc.occurs(x, t) and closed(t):
        if sc.free_consts(t):
            for y in out:
                if y.eq(t):
                    return
            out.append(t)
        return
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        _max_terms(t.body(), x, out, seen)
        return
    for c in t.children():
        _max_terms(c, x, out, seen)


def canon(x, e):
    """e in negation normal form with the operands of commutative operators in an order that does not depend on
    names; the keys see maximal x-free closed subterms as parameters"""
    memo = {}

    def key_of(t, cs):
        if z3.is_quantifier(t):
            return "lam(%s)" % cs[0][1]
        if z3.is_var(t):
            return str(t)
        return "%s%s(%s)" % (t.decl().name(), [str(p) for p in t.params()] if not cs else "", ",".join(c[1] for c in cs))

    def go(t, neg):
        k = (t.get_id(), neg)
        if k in memo:
            return memo[k][1]
        r = go1(t, neg)
        memo[k] = (t, r)
        return r

    def go1(t, neg):
        if neg:
            if z3.is_not(t):
                return go(t.arg(0), False)
            if z3.is_and(t) or z3.is_or(t):
                return nary(t, [go(c, True) for c in t.children()], z3.is_or(t))
            if z3.is_implies(t):
                return nary(t, [go(t.arg(0), False), go(t.arg(1), True)], True)
            if z3.is_true(t) or z3.is_false(t):
                return (z3.BoolVal(z3.is_false(t)), "c")
            r, kk = go(t, False)
            return (z3.Not(r), "not(%s)" % kk)
        if z3.is_not(t):
            return go(t.arg(0), True)
        if z3.is_implies(t):
            return nary(t, [go(t.arg(0), True), go(t.arg(1), False)], False)
        if z3.is_and(t) or z3.is_or(t):
            return nary(t, [go(c, False) for c in t.children()], z3.is_and(t))
        if not sc.occurs(x, t) and closed(t) and sc.free_consts(t):
            return (t, "?%s" % t.sort())
        if z3.is_quantifier(t):
            b, kk = go(t.body(), False)
            if not b.eq(t.body()):
                names = [t.var_name(j) for j in range(t.num_vars())]
                cs = [z3.Const(nm, t.var_sort(j)) for j, nm in enumerate(names)]
                inst = z3.substitute_vars(b, *reversed(cs))
                t = z3.Lambda(cs, inst) if t.is_lambda() else z3.ForAll(cs, inst) if t.is_forall() else z3.Exists(cs, inst)
            return (t, "q(%s)" % kk)
        cs = [go(c, False) for c in t.children()]
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_EQ):
            cs2 = sorted(cs, key=lambda c: c[1])
        else:
            cs2 = cs
        if any(not a[0].eq(b) for a, b in zip(cs2, t.children())):
            k = t.decl().kind()
            t2 = [c[0] for c in cs2]
            t = z3.Sum(*t2) if k == z3.Z3_OP_ADD else z3.Product(*t2) if k == z3.Z3_OP_MUL else t.decl()(*t2)
        return (t, key_of(t, cs2))

    def nary(t, cs, conj):
        flat = []
        for c, kk in cs:
            if (z3.is_and(c) if conj else z3.is_or(c)) and kk.startswith("nary"):
                flat += [go(y, False) for y in c.children()]
            else:
                flat.append((c, kk))
        flat.sort(key=lambda c: c[1])
        ts = [c[0] for c in flat]
        if len(ts) == 1:
            return flat[0]
        return ((z3.And(*ts) if conj else z3.Or(*ts)), "nary%s(%s)" % ("&" if conj else "|", ",".join(c[1] for c in flat)))
    return go(e, False)[0]


_closed = {}


def closed(t):
    """no variable bound outside t occurs in t (quantifiers inside t count as open: they are entered)"""
    i = t.get_id()
    if i not in _closed:
        r = not z3.is_var(t) and not z3.is_quantifier(t) and all(closed(c) for c in t.children())
        _closed[i] = (r, t)
    return _closed[i][0]


def forall(x, body):
    """predicate for  forall x. body ; bool or z3 Bool"""
    if isinstance(body, bool):
        return body
    body = z3.simplify(body)
    if z3.is_true(body) or z3.is_false(body):
        return z3.is_true(body)
    if not sc.occurs(x, body):
        return body
    body = canon(x, body)
    terms = []
    _max_terms(body, x, terms, set())
    ph = [z3.Const("!q%d_%s" % (i, str(t.sort()).replace(" ", "")), t.sort()) for i, t in enumerate(terms)]
    xb = z3.Const("!x_%s" % str(x.sort()).replace(" ", ""), x.sort())
    tb = z3.substitute(body, *(list(zip(terms, ph)) + [(x, xb)]))
    if any(sc.occurs(t, tb) for t in terms if z3.is_const(t)):
        # a parameter also occurs inside a larger one: substitute the constants only
        consts = []
        for t in terms:
            for c in sc.free_consts(t):
                if not any(c.eq(d) for d in consts):
                    consts.append(c)
        terms = consts
        ph = [z3.Const("!q%d_%s" % (i, str(t.sort()).replace(" ", "")), t.sort()) for i, t in enumerate(terms)]
        tb = z3.substitute(body, *(list(zip(terms, ph)) + [(x, xb)]))
    key = tb.get_id()
    if key not in _bykey:
        j = len(_bykey)
        sorts = [p.sort() for p in ph]
        name, wname = "all!%d" % j, "wit!%d" % j
        d = z3.Function(name, *(sorts + [z3.BoolSort()])) if sorts else z3.Bool(name)
        w = z3.Function(wname, *(sorts + [x.sort()])) if sorts else z3.Const(wname, x.sort())
        _bykey[key] = (name, d)
        DEFS[name] = (xb, tb, ph, d, w, bool(sorts))
    name, d = _bykey[key]
    return d(*terms) if terms else d


def exists(x, body):
    if isinstance(body, bool):
        return body
    r = forall(x, z3.Not(body))
    return (not r) if isinstance(r, bool) else z3.simplify(z3.Not(r))


def forall_many(xs, body):
    for x in reversed(xs):
        body = forall(x, body)
    return body


def exists_many(xs, body):
    for x in reversed(xs):
        body = exists(x, body)
    return body


MAXC = 12


_UN, _SEL, _STO = z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE


def _cands(terms):
    """ground candidates for instantiation, per sort name"""
    by, ids = {}, {}

    def put(x):
        l = by.get(x.sort)
        if l is None:
            l = by[x.sort] = []
            ids[x.sort] = set()
        if len(l) < 40 and x.id not in ids[x.sort]:
            ids[x.sort].add(x.id)
            l.append(x.t)
    for x in terms:
        if x.kind == _UN and x.name.startswith("hint!") and not x.const:
            put(smt.info(x.kids[0]))         # a term named for instantiation
    for x in terms:
        if x.kind == _UN:
            if x.const:
                if not x.isbool:
                    put(x)
            else:
                if x.name.startswith("wit!"):
                    put(x)
                for c in x.kids:
                    if not isinstance(c, z3.BoolRef):
                        put(smt.info(c))
        elif x.kind == _SEL or x.kind == _STO:
            put(smt.info(x.kids[1]))
    return by


_wit_facts = {}
_inst_facts = {}


def instantiate(terms):
    facts = []
    apps = [x for x in terms if x.name in DEFS]
    if not apps:
        return facts
    by = _cands(terms)
    for x in apps:
        t = x.t
        xb, tb, ph, d, w, par = DEFS[x.name]
        r = _wit_facts.get(x.id)
        if r is None:
            pairs = list(zip(ph, x.kids))
            wt = w(*x.kids) if par else w
            r = _wit_facts[x.id] = (z3.Or(t, z3.Not(z3.substitute(tb, *(pairs + [(xb, wt)])))), wt, pairs)
        facts.append(r[0])
        for c in [r[1]] + by.get(smt._sort_name(xb.sort()), [])[:MAXC]:
            k = (x.id, c.get_id())
            f = _inst_facts.get(k)
            if f is None:
                f = _inst_facts[k] = (z3.Implies(t, z3.substitute(tb, *(r[2] + [(xb, c)]))), c)
            facts.append(f[0])
    return facts


smt.INSTANTIATORS.append(instantiate)
