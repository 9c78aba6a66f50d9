import math
from collections import OrderedDict

import numpy as np
from scipy.special import spherical_jn

from impurityModel.ed import spectra

from . import ref, util

RULE = "random and axis-aligned scattering vectors, shells, radial functions, lowest order 0..3; non-trivial: all components of q nonzero"
COUNT = {"quick": 1600, "thorough": 12800}


def gen(rng):
    kind = rng.choice(["any", "any", "axis", "plane"])
    c = lambda: rng.uniform(-6, 6)
    q = [c(), c(), c()]
    if kind == "axis":
        k = rng.randrange(3)
        q = [q[i] if i == k else 0 for i in range(3)]
    elif kind == "plane":
        q[rng.randrange(3)] = 0
    li, lj = rng.choice([[2, 2], [2, 2], [1, 1], [2, 1], [1, 2], [0, 2], [0, 0]])
    return {"q": q, "li": li, "lj": lj, "kmin": rng.choice([0, 1, 1, 2, 3]), "ab": [rng.uniform(0.5, 2), rng.uniform(0.5, 2)], "many": rng.random() < 0.3, "default": rng.random() < 0.2}


def nontrivial(case):
    return all(case["q"])


def Y(l, m, theta, phi):
    """Spherical harmonic with Condon-Shortley phase from its explicit sum."""
    am = abs(m)
    x = math.cos(theta)
    p = 0.0
    for k in range((l - am) // 2 + 1):
        p += (-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l) * math.perm(l - 2 * k, am) * x ** (l - 2 * k - am) if l - 2 * k >= am else 0
    p *= math.sin(theta) ** am / 2**l
    y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am)) * p * complex(math.cos(am * phi), math.sin(am * phi))
    y *= (-1) ** am
    return y if m >= 0 else (-1) ** am * y.conjugate()


def expected(q, li, lj, Ri, Rj, r, kmin, idx):
    Q = math.sqrt(sum(x * x for x in q))
    theta, phi = math.acos(max(-1, min(1, q[2] / Q))), math.atan2(q[1], q[0])
    want = {}
    for k in range(kmin, li + lj + 1):
        f = Ri * Rj * spherical_jn(k, Q * r) * r**2
        I = float(np.sum((f[1:] + f[:-1]) / 2 * np.diff(r)))
        for mi in range(-li, li + 1):
            for mj in range(-lj, lj + 1):
                if abs(mi - mj) > k:
                    continue
                v = 1j**k * math.sqrt(2 * k + 1) * I * Y(k, mi - mj, theta, phi).conjugate() * ref.ck(k, li, mi, lj, mj)
                for s in range(2):
                    p = ((idx[li, s, mi], "c"), (idx[lj, s, mj], "a"))
                    want[p] = want.get(p, 0) + v
    return want


def run(case):
    li, lj = case["li"], case["lj"]
    nb = OrderedDict((l, 2) for l in sorted({li, lj, 1}))
    idx = ref.index(nb)
    q = case["q"]
    r = np.linspace(0.01, 8, 120) ** 1.1
    a, b = case["ab"]
    Ri, Rj = r**li * np.exp(-a * r), r**lj * np.exp(-b * r)
    if li == lj:
        Rj = Ri
    kmin = 1 if case["default"] else case["kmin"]
    kw = {} if case["default"] else {"kmin": kmin}
    want = expected(q, li, lj, Ri, Rj, r, kmin, idx)
    f = spectra.getNIXSOperators if case["many"] else spectra.getNIXSOperator
    q0 = list(q)
    got = util.quiet(f, nb, [[1.0, 2.0, -2.0], q] if case["many"] else q, li, lj, Ri, Rj, r, **kw)
    if case["many"]:
        if len(got) != 2:
            return f"{len(got)} operators for 2 vectors"
        got = got[1]
    if q != q0:
        return "argument modified"
    if any(not np.isfinite(v) for v in got.values()):
        return "strength not finite"
    scale = max([abs(v) for v in want.values()] + [1e-12])
    # one common constant
    ks = [k for k in want if abs(want[k]) > 0.3 * scale and k in got]
    if scale < 1e-10:
        return None
    if not ks:
        return "no strength"
    c = got[ks[0]] / want[ks[0]]
    for k in set(got) | set(want):
        if abs(got.get(k, 0) - c * want.get(k, 0)) > 1e-7 * scale * abs(c):
            return f"q={q}, {k}: {got.get(k, 0)}, expected {c * want.get(k, 0)}"
    # the constant is the same for another vector
    q1 = [1.0, 2.0, -2.0]
    other, exp = util.quiet(spectra.getNIXSOperator, nb, q1, li, lj, Ri, Rj, r, **kw), expected(q1, li, lj, Ri, Rj, r, kmin, idx)
    s1 = max(abs(v) for v in exp.values())
    for k in set(other) | set(exp):
        if abs(other.get(k, 0) - c * exp.get(k, 0)) > 1e-7 * s1 * abs(c):
            return f"q={q1}, {k}: {other.get(k, 0)}, expected {c * exp.get(k, 0)}"
    return None
