import itertools
from collections import OrderedDict

from impurityModel.ed import finite

from . import ref, util

RULE = "random small specifications of one or two groups, all limits; oracle enumerates all product states; non-trivial: more than one basis state"
COUNT = {"quick": 9000, "thorough": 72000}


def gen(rng):
    ls = rng.choice([[0], [1], [0, 1], [1, 0], [0], [2], [0, 2]])
    out = []
    room = 12
    for l in ls:
        nb = rng.randint(0, min(4, room - 4 if l else 4))
        val = rng.randint(0, nb)
        con = nb - val
        legal = rng.random() < 0.8
        dv = rng.randint(0, val if legal else val + 1)
        dc = rng.randint(0, con if legal else con + 1)
        cap = 2 * (2 * l + 1)
        n0 = rng.randint(0, cap)
        out.append([l, nb, val + (1 if rng.random() < 0.04 else 0), dv, dc, rng.choice([0, 1, 1, 2, 3]), n0])
    return {"groups": out}


def expected(case):
    """(list of occupied sets, must_reject)"""
    nb = OrderedDict((g[0], g[1]) for g in case["groups"])
    idx = ref.index(nb)
    parts, reject = [], False
    for l, nbath, val, dv, dc, tol, n0 in case["groups"]:
        if val > nbath:
            return None, True
        imp = [idx[(l, s, m)] for s in range(2) for m in range(-l, l + 1)]
        vb = [idx[(l, b)] for b in range(val)]
        cb = [idx[(l, b)] for b in range(val, nbath)]
        mine = []
        for a in range(dv + 1):
            for b in range(dc + 1):
                if abs(a - b) > tol:
                    continue
                k = n0 + a - b
                if not (0 <= k <= len(imp) and a <= val and b <= len(cb)):
                    reject = True
                    continue
                for x in itertools.combinations(imp, k):
                    for y in itertools.combinations(vb, val - a):
                        for z in itertools.combinations(cb, b):
                            mine.append(x + y + z)
        parts.append(mine)
    return [frozenset(sum(p, ())) for p in itertools.product(*parts)], reject


def nontrivial(case):
    e, r = expected(case)
    return not r and len(e) > 1


def run(case):
    g = case["groups"]
    d = [OrderedDict((x[0], x[i]) for x in g) for i in range(1, 7)]
    n = sum(2 * (2 * l + 1) + k for l, k in d[0].items())
    want, reject = expected(case)
    if want is not None and len(want) > 60000:
        return None
    try:
        got = util.quiet(finite.get_basis, *d)
    except Exception as e:
        return None if reject else f"rejected: {type(e).__name__}: {e}"
    if reject:
        return "specification that cannot be met is accepted"
    got = [ref.dec_bytes(b, n) if type(b) is bytes else b for b in got]
    if len(got) != len(set(got)):
        return "a product state appears twice"
    if set(got) != set(want):
        x = sorted(map(sorted, set(got) ^ set(want)))[0]
        return f"{x} {'missing' if frozenset(x) in want else 'unexpected'} ({len(got)} states, expected {len(want)})"
    if len({len(x) for x in got}) > 1:
        return "states of different electron number"
    return None
