import inspect
import json
import os
import pickle
import re
import shutil
import tempfile
from collections import OrderedDict

import h5py
import numpy as np

from impurityModel.ed import finite, get_spectra as gs, get_spectra_using_CF as cf, spectra

from . import c09, c17, c18, c19, c21, c24, c25, ref, util

RULE = "both run scripts on small systems with the spectra calculation recorded; the spectra calculation itself on a bare ion against directly computed Green's functions and files; non-trivial: all"
COUNT = {"quick": 108, "thorough": 864}

RADIAL = "".join(f"{0.1 * (i + 1):.6f} {(0.1 * (i + 1)) ** 3 * np.exp(-0.6 * (i + 1)):.9f}\n" for i in range(40))


def gen(rng):
    kind = rng.choice(["pickle", "pickle", "cf", "sim"])
    con = rng.random() < 0.5
    nd = rng.choice([0, 1, 2, 8, 9, 9]) if con else rng.choice([1, 2, 8, 8, 9])
    return {
        "kind": kind,
        "rev": rng.random() < 0.3,
        "con": con,
        # number of valence baths of the 3d group (pickle run)
        "nval": rng.choice([1, 2, 4, 0]),
        "ncon": rng.choice([0, 1, 2]) if con else 0,
        "nd": nd,
        "tol": rng.choice([0, 1, 2]),
        "dv": rng.choice([0, 1, 2]),
        "dc": rng.choice([0, 1, 2]),
        "npsi": rng.choice([3, 5, 8]),
        "T": rng.choice([20.0, 300, 1200.0]),
        "cut": rng.choice([0.5, 3, 10]),
        "delta": [0.2, 0.05, 0.1][rng.randrange(3)],
        "deltaR": rng.choice([0.05, 0.07]),
        "deltaN": rng.choice([0.1, 0.13]),
        "Fdd": [rng.choice([7.5, 2.0]), 0, rng.choice([9.9, 0.5]), 0, 6.6],
        "xi": [11.6, rng.choice([0.096, 0.02])],
        "c": rng.choice([1.5, 0.3]),
        "h": [0, rng.choice([0, 0.01]), rng.choice([0.0001, 0.02])],
        "cf": c24.gen(rng)["par"],
        "sp": [rng.uniform(-1, 1) for _ in range(6)],
        "seed": rng.randint(0, 10**6),
    }


def nontrivial(case):
    return True


class Recorded(Exception):
    pass


def in_scratch(f):
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="verif_c27_")
    try:
        os.chdir(tmp)
        return f()
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def run(case):
    if case["kind"] == "sim":
        try:
            return in_scratch(lambda: sim(case))
        except ValueError as e:
            if "beta" in str(e):  # documented refusal
                return None
            raise
    return in_scratch(lambda: whole(case))


def whole(case):
    mod = cf if case["kind"] == "cf" else gs
    if case["kind"] == "cf":
        nval, ncon = 10, 10 if case["con"] else 0
        dv, dc = min(case["dv"], 1 if case["con"] else 2), min(case["dc"], 1)
        nd = case["nd"] if not case["con"] else {2: 9, 8: 9}.get(case["nd"], case["nd"])
    else:
        nval, ncon, nd = case["nval"], case["ncon"], case["nd"]
        dv, dc = min(case["dv"], nval), min(case["dc"], ncon)
    order = [0, 1]
    if case["rev"]:
        order.reverse()
    sel = lambda a, b: tuple((a, b)[i] for i in order)
    ls, nb, nv = sel(1, 2), sel(0, nval + ncon), sel(0, nval)
    n0, tol = sel(6, nd), sel(0, case["tol"])
    groups = [list(t) for t in zip(ls, nb, nv, sel(0, dv), sel(0, dc), tol, n0)]
    want_basis, reject = c09.expected({"groups": groups})
    if reject or len(want_basis) > 400 or case["npsi"] > len(want_basis) - 2:
        return None
    D = lambda t: OrderedDict(zip(ls, t))
    nbd = D(nb)
    idx = ref.index(nbd)
    n = len(idx)
    with open("radial.dat", "w") as f:
        f.write(RADIAL)
    # one-particle part
    if case["kind"] == "cf":
        with open("h0", "w") as f:
            json.dump(case["cf"], f)
        h0 = c24.expected(case["cf"], ncon == 10, "spherical")
    else:
        sp = case["sp"]
        h0 = {}
        for s in range(2):
            for m in range(-2, 3):
                x = (2, s, m)
                h0[(x, "c"), (x, "a")] = sp[0] + 0.1 * abs(m)
        for b in range(nval + ncon):
            y = (2, b)
            h0[(y, "c"), (y, "a")] = (-4 + sp[1]) if b < nval else 3 + sp[2]
            x = (2, b % 2, (b // 2) % 5 - 2)
            h0[(x, "c"), (y, "a")] = 0.6 + sp[3]
            h0[(y, "c"), (x, "a")] = 0.6 + sp[3]
        with open("h0", "wb") as f:
            pickle.dump(h0, f)
    Fpp, Fpd, Gpd = [1.0, 0, 0.5], [8.9, 0, 6.8], [0, 5.0, 0, 2.8]
    sc = [case["Fdd"], Fpp, Fpd, Gpd]
    got = {}
    sig = inspect.signature(spectra.simulate_spectra)

    def recorder(*a, **k):
        b = sig.bind(*a, **k)
        got.update(b.arguments)
        h5 = got["h5f"]
        got["h5"] = {k: np.array(h5[k]) for k in h5}
        h5.close()

    real = spectra.simulate_spectra
    own = getattr(mod, "simulate_spectra", None)
    spectra.simulate_spectra = recorder
    if own is not None:
        mod.simulate_spectra = recorder
    import contextlib
    import io

    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            mod.main(
                "h0", "radial.dat", ls, nb, nv, n0, tol, sel(0, dv), sel(0, dc), case["Fdd"], Fpp, Fpd, Gpd,
                case["xi"][0], case["xi"][1], case["c"], tuple(case["h"]), case["npsi"], 2, 0.5, case["T"], case["cut"],
                case["delta"], case["deltaR"], case["deltaN"],
            )
    finally:
        spectra.simulate_spectra = real
        if own is not None:
            mod.simulate_spectra = own
    if not got:
        return "no spectra calculated"
    # Hamiltonian
    dc3, dc2 = c25.dc(nd, case["c"], case["Fdd"], 6, Fpd, Gpd)
    edc = {((x, "c"), (x, "a")): -e for l, e in ((2, dc3), (1, dc2)) for x in ref.shell_labels(l)}
    H = c18.total([c18.pd(*sc), c19.field(*case["h"], 2), c19.soc(case["xi"][0], 1), c19.soc(case["xi"][1], 2), edc, h0])
    d = util.diff(ref.normal_form(got["hOp"]), ref.normal_form(ref.relabel(H, idx)), 1e-8)
    if d:
        return f"Hamiltonian of the run: {d}"
    # windows
    imp = frozenset(idx[2, s, m] for s in range(2) for m in range(-2, 3))
    val = frozenset(idx[2, b] for b in range(nval))
    con = frozenset(idx[2, b] for b in range(nval, nval + ncon))
    want = {imp: (nd - 1, nd + case["tol"] + 1), val: (nval - dv, nval), con: (0, dc)}

    def norm(r):
        return {frozenset(k): (max(0, v[0]), min(len(k), v[1])) for k, v in r.items() if len(k)}

    if norm(got["restrictions"]) != norm(want):
        return f"restrictions {norm(got['restrictions'])}, expected {norm(want)}"
    for k, (lo, hi) in got["restrictions"].items():
        if len(k) == 0 and not lo <= 0 <= hi:
            return f"restriction {lo}..{hi} on the empty set"
    # eigenstates
    basis = [ref.enc_bytes(o, n) for o in want_basis]
    pos = {b: i for i, b in enumerate(basis)}
    mat = np.zeros((len(basis),) * 2, dtype=complex)
    for j, b in enumerate(basis):
        for s, v in util.quiet(finite.applyOp, n, got["hOp"], {b: 1}).items():
            if s in pos:
                mat[pos[s], j] = v
    e_all = np.linalg.eigvalsh(mat)
    E = got["h5"]["E"]
    m = min(case["npsi"], len(basis))
    if len(E) != m:
        return f"{len(E)} stored energies, expected {m}"
    d = util.lowest(E, e_all)
    if d not in ("ok", "copies"):
        return "stored " + d
    cut = case["cut"] * c17.KB * case["T"]
    if min(abs((E - E[0]) / cut - 1)) > 1e-4:
        keep = [e for e in E if e - E[0] < cut]
        es = list(got["es"])
        if len(es) != len(keep) or util.mx(np.array(es) - keep) > 1e-9:
            return f"energies {es} enter the spectra, expected {keep} of {list(E)} (cut {cut})"
        psis = list(got["psis"])
        if len(psis) != len(es):
            return f"{len(es)} energies, {len(psis)} states"
        vecs = []
        for e, p in zip(es, psis):
            v = np.zeros(len(basis), dtype=complex)
            for s, a in p.items():
                if s not in pos:
                    return "eigenstate leaves the basis"
                v[pos[s]] = a
            if abs(np.linalg.norm(v) - 1) > 1e-3 or np.linalg.norm(mat @ v - e * v) > 0.05:
                return f"state paired with energy {e} is no eigenstate of that energy"
            vecs.append(v)
        g = np.array(vecs).conj() @ np.array(vecs).T
        if util.mx(g - np.eye(len(vecs))) > 1e-2:
            return "states are not orthonormal"
    # parameters handed on
    for name, x in (("T", case["T"]), ("delta", case["delta"]), ("deltaRIXS", case["deltaR"]), ("deltaNIXS", case["deltaN"])):
        if got[name] != x:
            return f"{name} = {got[name]}, expected {x}"
    for name in ("w", "wIn", "wLoss", "qsNIXS", "RiNIXS", "RjNIXS"):
        if not np.array_equal(got["h5"][name], np.array(got[name])):
            return f"stored {name} is not the one used"
    rad = np.array([[float(x) for x in line.split()] for line in RADIAL.splitlines()])
    if not (np.allclose(got["radialMesh"], rad[:, 0]) and np.allclose(got["RiNIXS"], rad[:, 1]) and np.allclose(got["RjNIXS"], rad[:, 1])):
        return "radial mesh or orbitals are not those of the file"
    if dict(got["nBaths"]) != dict(nbd):
        return f"nBaths {got['nBaths']}"
    # printed thermal values at the temperature of the run
    if min(abs((E - E[0]) / (10 * c17.KB * case["T"]) - 1)) > 1e-4:
        vals = re.search(r"<E-E0> = *(-?[0-9.]+)", buf.getvalue())
        ee = [e - E[0] for e in E if e - E[0] < 10 * c17.KB * case["T"]]
        w = c17.boltzmann(ee, ee, case["T"])
        if not vals or abs(float(vals.group(1)) - w) > 6e-4:
            return f"printed <E-E0> = {vals and vals.group(1)}, expected {w} at T = {case['T']}"
    return None


def sim(case):
    rng = np.random.default_rng(case["seed"])
    nb = OrderedDict(((2, 0), (1, 0)) if case["rev"] else ((1, 0), (2, 0)))
    idx = ref.index(nb)
    n = 16
    nd = [8, 9, 9, 1][case["seed"] % 4]
    sc = [case["Fdd"], [0.0] * 3, [8.9, 0, 6.8], [0, 5.0, 0, 2.8]]
    op = {}
    if nd == 8:
        op = ref.relabel(c18.total([c18.pd(*sc), c19.soc(11.6, 1)]), idx)
    else:
        op = ref.relabel(c18.total([c19.soc(11.6, 1), c19.soc(0.5, 2), c19.field(0.01, 0.02, 0.3, 2)]), idx)
    op = {p: complex(v) for p, v in op.items()}
    imp = [idx[2, s, m] for s in range(2) for m in range(-2, 3)]
    p = [idx[1, s, m] for s in range(2) for m in range(-1, 2)]
    es, psis = [], []
    for k in range(2):
        psi = {}
        for _ in range(2):
            o = frozenset(p) | frozenset(int(x) for x in rng.choice(imp, nd, replace=False))
            psi[ref.enc_bytes(o, n)] = complex(*rng.normal(size=2))
        norm = np.sqrt(sum(abs(v) ** 2 for v in psi.values()))
        psis.append({s: v / norm for s, v in psi.items()})
        es.append(-1.0 + 0.01 * k)
    es, psis = tuple(es), tuple(psis)
    T = case["T"]
    w, wl, wi = np.linspace(-3, 5, 5), np.linspace(-1, 2, 4), np.array([-2.0, 1.0, 3.0])[: 2 + case["seed"] % 2]
    eps = [[1, 0, 0], [0, 1, 0.5], [0, 0, 1]][: 1 + case["seed"] % 3]
    epsin, epsout = [[0, 0, 1], [1, 0.5, 0]], [[1, 0, 0], [0, 0.5, 1], [0, 1, 0]]
    rad = np.array([[float(x) for x in line.split()] for line in RADIAL.splitlines()]).T
    qs = [np.array([0.3, 0.4, 1.2]), np.array([2.0, 0, 0])]
    dl, dn, dr = case["delta"], case["deltaN"], case["deltaR"]
    restr = {frozenset(imp): (nd - 1, nd + 1)}
    with h5py.File("spectra.h5", "w") as h5:
        kw = dict(
            es=es, psis=psis, hOp=dict(op), T=T, w=w, delta=dl, epsilons=eps, wLoss=wl, deltaNIXS=dn, qsNIXS=qs, liNIXS=2, ljNIXS=2,
            RiNIXS=rad[1], RjNIXS=rad[1], radialMesh=rad[0], wIn=wi, deltaRIXS=dr, epsilonsRIXSin=epsin, epsilonsRIXSout=epsout,
            restrictions=restr, h5f=h5, nBaths=nb,
        )
        util.quiet(spectra.simulate_spectra, **kw)
    spec = lambda t, x, d: util.quiet(spectra.getSpectra, n, dict(op), t, psis, es, x, d, restr)
    want = {}
    up = spec(spectra.getInversePhotoEmissionOperators(nb, l=2), w, dl)
    down = spec(spectra.getPhotoEmissionOperators(nb, l=2), -w, -dl)
    want["PS"] = (-(up - down).imag, w)
    want["XPS"] = (spec(spectra.getPhotoEmissionOperators(nb, l=1), -w, -dl).imag, w)
    want["NIXS"] = (-spec(util.quiet(spectra.getNIXSOperators, nb, qs, 2, 2, rad[1], rad[1], rad[0]), wl, dn).imag, wl)
    want["XAS"] = (-spec(spectra.getDipoleOperators(nb, eps), w, dl).imag, w)
    rixs = util.quiet(
        spectra.getRIXSmap, n, dict(op), spectra.getDipoleOperators(nb, epsin), spectra.getDaggeredDipoleOperators(nb, epsout),
        psis, es, wi, wl, dl, dr, restr,
    )
    want["RIXS"] = (-rixs.imag, None)
    with h5py.File("spectra.h5", "r") as h5:
        for name, (s, mesh) in want.items():
            avg = np.array(c17.boltzmann(list(es), list(s), T))
            for key, x in ((name, s), (name + "thermal", avg)):
                if key not in h5:
                    return f"no dataset {key}"
                y = np.array(h5[key])
                if y.shape != x.shape or util.mx(y - x) > 1e-3 * max(1e-3, util.mx(x)):
                    return f"dataset {key} is not minus the imaginary part of the Green's function"
            if mesh is None:
                total = avg.sum(axis=(0, 1))
                data = np.fromfile("RIXS.bin", dtype=np.float32)
                lay = np.zeros((len(wl) + 1, len(wi) + 1))
                lay[0, 0] = len(wi)
                lay[0, 1:] = wi
                lay[1:, 0] = wl
                lay[1:, 1:] = total.T
                if data.size != lay.size or util.mx(data - lay.ravel()) > 1e-3 * max(1e-3, util.mx(total)) + 1e-5:
                    return f"RIXS.bin is not the documented table: {data}, expected {lay.ravel()}"
                continue
            rows = np.loadtxt(name + ".dat")
            lay = np.column_stack([mesh, avg.sum(axis=0), avg.T])
            if rows.shape != lay.shape or util.mx(rows - lay) > 1e-3 * max(1e-3, util.mx(avg)) + 6e-5:
                return f"{name}.dat is not the documented table"
    return None
