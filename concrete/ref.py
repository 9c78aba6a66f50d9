"""Independent reference semantics (plain Python, no code of the library under test).

States are frozensets of occupied spin-orbitals; amplitudes are Python numbers.
"""
import math
from fractions import Fraction

import numpy as np


# ---------------------------------------------------------------- encodings
def enc_tuple(occ, n):
    return tuple(sorted(occ))


def enc_str(occ, n):
    return "".join("1" if i in occ else "0" for i in range(n))


def enc_int(occ, n):
    return sum(1 << (n - 1 - i) for i in occ)


def enc_bytes(occ, n):
    out = bytearray((n + 7) // 8)
    for i in occ:
        out[i // 8] |= 1 << (7 - i % 8)
    return bytes(out)


def enc_bitarray(occ, n):
    import bitarray

    return bitarray.bitarray(enc_str(occ, n))


def dec_bytes(b, n):
    if len(b) != (n + 7) // 8:
        raise ValueError("wrong length of encoded state")
    occ = frozenset(i for i in range(8 * len(b)) if b[i // 8] >> (7 - i % 8) & 1)
    if any(i >= n for i in occ):
        raise ValueError("padding bits are set")
    return occ


# ------------------------------------------------------------------ fermions
def sign(occ, i):
    return -1 if sum(1 for j in occ if j < i) % 2 else 1


def step(occ, i, action):
    """(new occupied set, sign) or None."""
    if action == "a":
        if i not in occ:
            return None
        return occ - {i}, sign(occ, i)
    if action == "c":
        if i in occ:
            return None
        return occ | {i}, sign(occ, i)
    raise ValueError(action)


def process_action(process, occ):
    s = 1
    for i, action in reversed(process):
        r = step(occ, i, action)
        if r is None:
            return None
        occ, t = r
        s *= t
    return occ, s


def allowed(occ, restrictions):
    if restrictions is None:
        return True
    return all(lo <= len(occ & frozenset(key)) <= hi for key, (lo, hi) in restrictions.items())


def op_action(op, occ, restrictions=None):
    """Exact restricted action on one product state: list of contributions."""
    out = {}
    for process, h in op.items():
        r = process_action(process, occ)
        if r is None or not allowed(r[0], restrictions):
            continue
        out[r[0]] = out.get(r[0], 0) + h * r[1]
    return out


def apply_op(op, psi, restrictions=None):
    out = {}
    for occ, amp in psi.items():
        for o, v in op_action(op, occ, restrictions).items():
            out[o] = out.get(o, 0) + amp * v
    return out


def dagger(op):
    out = {}
    for process, h in op.items():
        p = tuple((i, {"a": "c", "c": "a"}[x]) for i, x in reversed(process))
        out[p] = complex(h).conjugate()
    return out


def inner(a, b):
    return sum(complex(a[k]).conjugate() * v for k, v in b.items() if k in a)


# ----------------------------------------------------------- spin-orbital numbering
def labels(nBaths):
    """All labels in the order of the documented numbering."""
    out = []
    for lp in nBaths:
        for l in lp if isinstance(lp, tuple) else (lp,):
            out += [(l, s, m) for s in range(2) for m in range(-l, l + 1)]
    for lp, n in nBaths.items():
        out += [(lp, b) for b in range(n)]
    return out


def index(nBaths):
    return {lab: i for i, lab in enumerate(labels(nBaths))}


# ------------------------------------------------------------------ angular algebra
def _fact(n):
    return math.factorial(n)


def wigner3j(j1, j2, j3, m1, m2, m3):
    if m1 + m2 + m3 or j3 < abs(j1 - j2) or j3 > j1 + j2:
        return 0.0
    if abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.0
    delta = Fraction(_fact(j1 + j2 - j3) * _fact(j1 - j2 + j3) * _fact(-j1 + j2 + j3), _fact(j1 + j2 + j3 + 1))
    pre = delta * _fact(j1 + m1) * _fact(j1 - m1) * _fact(j2 + m2) * _fact(j2 - m2) * _fact(j3 + m3) * _fact(j3 - m3)
    tot = Fraction(0)
    for t in range(max(0, j2 - j3 - m1, j1 + m2 - j3), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        tot += Fraction(
            (-1) ** t,
            _fact(t)
            * _fact(j3 - j2 + t + m1)
            * _fact(j3 - j1 + t - m2)
            * _fact(j1 + j2 - j3 - t)
            * _fact(j1 - t - m1)
            * _fact(j2 - t + m2),
        )
    sq = pre * tot * tot
    v = math.sqrt(sq.numerator / sq.denominator) if sq else 0.0
    return (-1) ** (j1 - j2 - m3) * (v if tot >= 0 else -v)


def ck(k, l, m, lp, mp):
    """c^k(lm, l'm') = <lm| C^k_{m-m'} |l'm'>."""
    return (
        (-1) ** m
        * math.sqrt((2 * l + 1) * (2 * lp + 1))
        * wigner3j(l, k, lp, 0, 0, 0)
        * wigner3j(l, k, lp, -m, m - mp, mp)
    )


def lz(l):
    return np.diag([float(m) for m in range(-l, l + 1)])


def lplus(l):
    a = np.zeros((2 * l + 1, 2 * l + 1))
    for m in range(-l, l):
        a[m + 1 + l, m + l] = math.sqrt(l * (l + 1) - m * (m + 1))
    return a


SZ = np.diag([-0.5, 0.5])
SP = np.array([[0.0, 0.0], [1.0, 0.0]])  # index 0: down, 1: up


def shell(l):
    """L and S of one shell in the basis (s, m), s = 0 down, 1 up."""
    one_l, one_s = np.eye(2 * l + 1), np.eye(2)
    L = {"z": np.kron(one_s, lz(l)), "+": np.kron(one_s, lplus(l))}
    S = {"z": np.kron(SZ, one_l), "+": np.kron(SP, one_l)}
    for d in (L, S):
        d["-"] = d["+"].conj().T
        d["x"] = (d["+"] + d["-"]) / 2
        d["y"] = (d["+"] - d["-"]) / 2j
    return L, S


def one_body(mat, labs):
    """Operator dict with labels of a matrix."""
    out = {}
    for i, a in enumerate(labs):
        for j, b in enumerate(labs):
            if mat[i, j] != 0:
                out[((a, "c"), (b, "a"))] = complex(mat[i, j])
    return out


def shell_labels(l):
    return [(l, s, m) for s in range(2) for m in range(-l, l + 1)]


def relabel(op, idx):
    return {tuple((idx[x], a) for x, a in p): v for p, v in op.items()}


def normal_form(op):
    """Two-body and one-body operators up to anticommutation: canonical antisymmetrised form.

    Only processes c..c a..a (creations first) with sorted labels; equal for equal operators.
    """
    out = {}
    for p, v in op.items():
        if v == 0:
            continue
        cr = [x for x, a in p if a == "c"]
        an = [x for x, a in p if a == "a"]
        assert [a for _, a in p] == ["c"] * len(cr) + ["a"] * len(an)
        if len(set(cr)) < len(cr) or len(set(an)) < len(an):
            continue
        s = 1
        for part in (cr, an):
            for i in range(len(part)):
                for j in range(i):
                    if part[j] > part[i]:
                        s = -s
        key = (tuple(sorted(cr)), tuple(sorted(an)))
        out[key] = out.get(key, 0) + s * v
    return out


def op_matrix(op, n, states=None):
    """Dense matrix on the given product states (default: the whole Fock space)."""
    if states is None:
        states = [frozenset(i for i in range(n) if x >> i & 1) for x in range(1 << n)]
    idx = {s: i for i, s in enumerate(states)}
    h = np.zeros((len(states), len(states)), dtype=complex)
    for s in states:
        for o, v in op_action(op, s).items():
            if o in idx:
                h[idx[o], idx[s]] += v
    return h
