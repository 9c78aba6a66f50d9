from impurityModel.ed import product_state_representation as psr

from . import ref, util

RULE = "random occupied sets over n spin-orbitals, all 20 conversions; non-trivial: at least one occupied"
COUNT = {"quick": 15000, "thorough": 120000}
FORMATS = {"tuple": ref.enc_tuple, "str": ref.enc_str, "int": ref.enc_int, "bitarray": ref.enc_bitarray, "bytes": ref.enc_bytes}
NEED_N = {"int2str", "tuple2str", "tuple2int", "int2tuple", "bytes2bitarray", "int2bitarray", "tuple2bitarray", "tuple2bytes", "bytes2tuple", "bytes2str", "int2bytes", "bytes2int"}
TYPES = {"tuple": tuple, "str": str, "int": int, "bytes": bytes}


def gen(rng):
    n = util.size(rng, 70)
    return {"n": n, "occ": util.occ_list(rng, n, rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]))}


def nontrivial(case):
    return bool(case["occ"])


def run(case):
    n, occ = case["n"], frozenset(case["occ"])
    for a in FORMATS:
        for b in FORMATS:
            if a == b:
                continue
            name = f"{a}2{b}"
            src, want = FORMATS[a](occ, n), FORMATS[b](occ, n)
            args = (src, n) if name in NEED_N else (src,)
            got = getattr(psr, name)(*args)
            if got != want:
                return f"{name}{args!r} = {got!r}, expected {want!r}"
            if b in TYPES and type(got) is not TYPES[b]:
                return f"{name}{args!r} has type {type(got).__name__}"
            if a == "tuple" and any(type(x) is not int for x in src):
                return f"{name} changed its argument"
            if a == "bitarray" and src != ref.enc_bitarray(occ, n):
                return f"{name} changed its argument"
            if b == "bytes" and hash(got) != hash(want):
                return f"{name}: unequal hash"
    return None
