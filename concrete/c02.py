import bitarray

from impurityModel.ed import create, remove

from . import ref, util

RULE = "random product states and spin-orbitals, five encodings, create and remove; non-trivial: the operation is possible"
COUNT = {"quick": 24000, "thorough": 192000}


def gen(rng):
    n = util.size(rng, 70)
    return {
        "n": n,
        "occ": util.occ_list(rng, n, rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])),
        "i": rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)]),
        "do": rng.choice(["create", "remove"]),
    }


def nontrivial(case):
    return (case["i"] in case["occ"]) == (case["do"] == "remove")


def run(case):
    n, occ, i, do = case["n"], frozenset(case["occ"]), case["i"], case["do"]
    mod = create if do == "create" else remove
    r = ref.step(occ, i, "c" if do == "create" else "a")
    for name, enc, withn in (
        ("utuple", ref.enc_tuple, False),
        ("uint", ref.enc_int, True),
        ("ustr", ref.enc_str, False),
        ("ubytes", ref.enc_bytes, True),
    ):
        src = enc(occ, n)
        got = getattr(mod, name)(n, i, src) if withn else getattr(mod, name)(i, src)
        if src != enc(occ, n):
            return f"{do}.{name} changed its argument"
        if r is None:
            if got[1] != 0:
                return f"{do}.{name}(i={i}, {src!r}): amplitude {got[1]}, expected 0"
        elif got[1] != r[1] or got[0] != enc(r[0], n):
            return f"{do}.{name}(i={i}, {src!r}) = {got!r}, expected {(enc(r[0], n), r[1])!r}"
    bits = ref.enc_bitarray(occ, n)
    got = mod.ubitarray(i, bits)
    want = ref.enc_bitarray(occ if r is None else r[0], n)
    if got != (0 if r is None else r[1]):
        return f"{do}.ubitarray(i={i}, {occ}): amplitude {got}"
    if bits != want:
        return f"{do}.ubitarray(i={i}): state {bits}, expected {want}"
    return None
