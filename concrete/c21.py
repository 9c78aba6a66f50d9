import numpy as np

from impurityModel.ed import finite

from . import c20, ref, util

RULE = "random many-body states: density matrix of p and d shells, cubic form, eg/t2g occupations; non-trivial: several product states"
COUNT = {"quick": 1600, "thorough": 12800}

R = np.sqrt(0.5)
# real cubic harmonics as combinations of Y_lm (m = -l..l), each up to a phase
CUBIC = {
    1: [[1j * R, 0, 1j * R], [R, 0, -R], [0, 1, 0]],  # y, x, z
    2: [
        [0, 0, 1, 0, 0],  # z2
        [R, 0, 0, 0, R],  # x2-y2
        [0, 1j * R, 0, 1j * R, 0],  # yz
        [0, R, 0, -R, 0],  # xz
        [1j * R, 0, 0, 0, -1j * R],  # xy
    ],
}


def gen(rng):
    case = c20.gen(rng)
    case["l"] = rng.choice([l for l, _ in case["spec"] if l in (1, 2)])
    return case


def nontrivial(case):
    return len(case["psi"]) > 1


def matrix_ok():
    for l in (1, 2):
        u = finite.get_spherical_2_cubic_matrix(l=l)
        if u.shape != (2 * l + 1,) * 2 or util.mx(u.conj().T @ u - np.eye(2 * l + 1)) > 1e-12:
            return f"l={l}: transformation not unitary"
        for j, v in enumerate(CUBIC[l]):
            if abs(abs(np.vdot(v, u[:, j])) - 1) > 1e-12:
                return f"l={l}: column {j} = {u[:, j]} is not the cubic harmonic {v}"
        s = finite.get_spherical_2_cubic_matrix(spinpol=True, l=l)
        if s.shape != (4 * l + 2,) * 2 or util.mx(s - np.kron(np.eye(2), u)) > 1e-12:
            return f"l={l}: matrix with spin is not block diagonal"
    if util.mx(finite.get_spherical_2_cubic_matrix() - finite.get_spherical_2_cubic_matrix(False, 2)) > 0:
        return "defaults"
    return None


def run(case):
    d = matrix_ok()
    if d:
        return d
    nb = c20.nbaths(case)
    idx = ref.index(nb)
    n = len(idx)
    psi = util.psi_sets(case["psi"])
    k = sum(abs(v) ** 2 for v in psi.values()) ** 0.5
    psi = {o: v / k for o, v in psi.items()}
    sb = {ref.enc_bytes(o, n): v for o, v in psi.items()}
    keep = dict(sb)
    dm = {}
    for l in {case["l"], 2}:
        want = {}
        for x in ref.shell_labels(l):
            for y in ref.shell_labels(l):
                v = ref.inner(psi, ref.apply_op({((idx[y], "c"), (idx[x], "a")): 1}, psi))
                if abs(v) > 1e-14:
                    want[x, y] = v
        got = finite.getDensityMatrix(nb, sb, l)
        d = util.diff(got, want)
        if d:
            return f"density matrix l={l}: {d}"
        tr = finite.getTraceDensityMatrix(nb, sb, l)
        if not util.close(tr, sum(v for (x, y), v in want.items() if x == y)):
            return f"trace {tr}"
        dm[l] = want
    if util.diff(finite.getDensityMatrix(nb, sb), dm[2]):
        return "default shell is not d"
    u = finite.get_spherical_2_cubic_matrix()
    nm = np.zeros((2, 5, 2, 5), dtype=complex)
    for (x, y), v in dm[2].items():
        nm[x[1], x[2] + 2, y[1], y[2] + 2] = v
    cub = np.einsum("mi,smtk,kj->sitj", u.conj(), nm, u)
    got = finite.getDensityMatrixCubic(nb, sb)
    want = {((s, i), (t, j)): cub[s, i, t, j] for s in range(2) for i in range(5) for t in range(2) for j in range(5)}
    if any(k not in want for k in got):
        return "cubic density matrix has unexpected keys"
    d = util.diff(got, want)
    if d:
        return f"cubic density matrix: {d}"
    occ = finite.getEgT2gOccupation(nb, sb)
    want = [sum(cub[s, i, s, i] for i in r) for r in (range(2), range(2, 5)) for s in range(2)]
    if len(occ) != 4 or any(not util.close(a, b) for a, b in zip(occ, want)):
        return f"eg/t2g occupations {occ}, expected {want}"
    if sb != keep:
        return "state modified"
    return None
