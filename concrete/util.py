"""Shared helpers of the concrete oracles: generators of inputs and comparisons."""
import contextlib
import io
import math
import random

import numpy as np

from . import ref


def mx(x):
    """Largest absolute value; infinite if anything is not a number."""
    x = np.abs(np.asarray(x))
    if x.size == 0:
        return 0.0
    return float("inf") if np.any(np.isnan(x)) else float(np.max(x))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def occ_list(rng, n, p=None):
    p = rng.choice([0.2, 0.5, 0.8]) if p is None else p
    return sorted(i for i in range(n) if rng.random() < p)


def size(rng, hi=24):
    return rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 23, 24, 25, rng.randint(1, hi)])


DYADIC = [-2.0, -1.5, -1.0, -0.5, -0.25, 0.25, 0.5, 0.75, 1.0, 1.5, 3.0]


def amp(rng, exact=False, kind=None):
    """JSON-able amplitude: number or [re, im]."""
    kind = kind or rng.choice(["int", "float", "complex", "complex"])
    if kind == "int":
        return rng.choice([-3, -2, -1, 1, 2, 3])
    v = (lambda: rng.choice(DYADIC)) if exact else (lambda: rng.uniform(-2, 2))
    if kind == "float":
        return v()
    return [v(), v()]


def num(x):
    return complex(x[0], x[1]) if isinstance(x, list) else x


def psi_case(rng, n, k=None, exact=False):
    k = rng.choice([0, 1, 1, 2, 3, 5]) if k is None else k
    seen, out = set(), []
    for _ in range(k):
        o = occ_list(rng, n)
        if tuple(o) not in seen:
            seen.add(tuple(o))
            out.append([o, amp(rng, exact)])
    return out


def psi_sets(case):
    return {frozenset(o): num(a) for o, a in case}


def psi_bytes(case, n):
    return {ref.enc_bytes(frozenset(o), n): num(a) for o, a in case}


def decode(psi, n):
    out = {}
    for k, v in psi.items():
        if type(k) is not bytes:
            raise AssertionError(f"product state of type {type(k).__name__} in a state")
        out[ref.dec_bytes(k, n)] = v
    return out


def process_case(rng, n, hot=None):
    """One process as JSON list [[i, 'c'|'a'], ...]; indices drawn from few orbitals so that they repeat."""
    length = rng.choice([0, 1, 1, 2, 2, 2, 3, 4, 4, 6])
    pool = hot or list(range(n))
    return [[rng.choice(pool), rng.choice("ca")] for _ in range(length)]


def op_case(rng, n, k=None, exact=False, conserving=False):
    k = rng.choice([0, 1, 2, 4, 8, 12]) if k is None else k
    pool = rng.sample(range(n), min(n, rng.choice([2, 3, 5, 8])))
    seen, out = set(), []
    for _ in range(k):
        if conserving:
            m = rng.choice([1, 1, 2, 2])
            p = [[rng.choice(pool), "c"] for _ in range(m)] + [[rng.choice(pool), "a"] for _ in range(m)]
        else:
            p = process_case(rng, n, pool)
        t = tuple(map(tuple, p))
        if t in seen:
            continue
        seen.add(t)
        out.append([p, amp(rng, exact)])
    return out


def op_of(case):
    return {tuple((i, a) for i, a in p): num(v) for p, v in case}


def hermitian(case):
    op = op_of(case)
    out = {}
    for p, v in list(op.items()) + list(ref.dagger(op).items()):
        out[p] = out.get(p, 0) + v / 2
    return {p: v for p, v in out.items() if v != 0}


def restrictions_case(rng, n):
    out = []
    seen = set()
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        s = tuple(sorted(rng.sample(range(n), rng.randint(0, n))))
        if s in seen:
            continue
        seen.add(s)
        lo = rng.randint(0, len(s))
        hi = rng.randint(lo, len(s) + 1)
        out.append([list(s), lo, hi])
    return out


def restrictions_of(case):
    return None if case is None else {frozenset(s): (lo, hi) for s, lo, hi in case}


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def diff(got, want, tol=1e-9):
    """None if the two dicts agree as functions (missing = 0)."""
    for k in set(got) | set(want):
        a, b = got.get(k, 0), want.get(k, 0)
        if not close(a, b, tol):
            k = sorted(k) if isinstance(k, frozenset) else k
            return f"{k}: got {a}, expected {b}"
    return None


def diff_cut(got, want, cut, slack=1e-9):
    """As diff, entries below the cutoff left out by the code and only those."""
    for k, b in want.items():
        w = abs(b) ** 2
        if k in got:
            if w < cut * (1 - slack) - 1e-300:
                return f"{sorted(k)}: kept although squared amplitude {w} is below the cutoff {cut}"
            if not close(got[k], b):
                return f"{sorted(k)}: got {got[k]}, expected {b}"
        elif w > cut * (1 + slack) + 1e-18:
            return f"{sorted(k)}: missing, expected {b}"
    for k in got:
        if k not in want:
            return f"{sorted(k)}: unexpected entry {got[k]}"
    return None


def lowest(got, spectrum, tol=1e-6):
    """Compare returned energies with the full ascending spectrum.

    "ok"; "copies" if only further copies of degenerate eigenvalues, of which at least one was
    found, are missing (recorded finding: single-vector Lanczos); else a description.
    """
    k = len(got)
    want = list(spectrum[:k])
    if all(abs(a - b) <= tol for a, b in zip(got, want)):
        return "ok"
    left = list(spectrum)
    pos = []
    for e in got:
        j = min(range(len(left)), key=lambda i: abs(left[i] - e))
        if abs(left[j] - e) > tol:
            return f"energies {list(got)}, expected {want}"
        pos.append(left.pop(j))
    missed = [e for e in left if e < max(got) - tol]
    if all(any(abs(e - x) <= tol for x in got) for e in missed) and list(got) == sorted(got):
        return "copies"
    return f"energies {list(got)}, expected {want}"
