from impurityModel.ed import finite, mpi_comm

from . import fakempi, util

RULE = "task lists and dictionaries of random sizes over 1..6 ranks, chunk limits around the sizes; non-trivial: more than one rank"
COUNT = {"quick": 5000, "thorough": 40000}


def gen(rng):
    R = rng.choice([1, 2, 3, 4, 6])
    m = rng.choice([1, 2, 3, 5, 10])
    sizes = [rng.choice([0, 0, 1, m - 1, m, m + 1, 2 * m, 2 * m + 1, rng.randint(0, 12)]) for _ in range(R)]
    return {
        "ranks": R,
        "sizes": sizes,
        "chunk": m,
        "old": rng.randint(0, 3),
        "tasks": rng.choice([0, 1, R - 1, R, R + 1, 2 * R, 2 * R + 1, rng.randint(0, 40)]),
        "jobranks": rng.choice([R, rng.randint(1, 12)]),
        "kind": rng.choice(["range", "list", "dup"]),
    }


def nontrivial(case):
    return case["ranks"] > 1


def run(case):
    R = case["jobranks"]
    n = case["tasks"]
    tasks = {"range": range(n), "list": [3 * i + 1 for i in range(n)], "dup": [i // 2 for i in range(n)]}[case["kind"]]
    per = [finite.get_job_tasks(r, R, tasks) for r in range(R)]
    if any(type(p) is not tuple for p in per):
        return "get_job_tasks does not return a tuple"
    if sorted(sum(per, ())) != sorted(tasks):
        return f"{n} tasks over {R} ranks: {per}"
    if max(map(len, per)) - min(map(len, per)) > 1:
        return f"unbalanced: {[len(p) for p in per]}"
    R, m = case["ranks"], case["chunk"]
    datas = [{(r, k): [r, k] for k in range(s)} for r, s in enumerate(case["sizes"])]
    union = {}
    for d in datas:
        union.update(d)

    def chunks(p, r):
        res = []
        for root in range(R):
            res.append(list(p.mpi_comm.dict_chunks_from_one_MPI_rank(datas[r], m, root)))
        return res

    out = fakempi.run(R, chunks)
    for root in range(R):
        mine = out[root][root]
        if any(len(c) > m for c in mine):
            return f"chunk larger than {m}"
        tot = {}
        for c in mine:
            if set(c) & set(tot):
                return "entry in two chunks"
            tot.update(c)
        if tot != datas[root]:
            return f"chunks of rank {root} lose entries: {len(tot)} of {len(datas[root])}"
        for r in range(R):
            if len(out[r][root]) != len(mine):
                return "different number of chunks on different ranks"
            if r != root and any(c is not None for c in out[r][root]):
                return "chunk on a rank that has no data"

    def gather(p, r):
        data = dict(datas[r])
        total = {("old", k): r for k in range(case["old"])}
        res = p.mpi_comm.allgather_dict(data, total, m)
        if data != datas[r]:
            raise AssertionError("data modified")
        return total, res

    sent = []
    for r, (total, res) in enumerate(util.quiet(fakempi.run, R, gather)):
        want = {**union, **{("old", k): r for k in range(case["old"])}}
        if total != want:
            return f"rank {r} gathers {len(total)} entries, expected {len(want)} (sizes {case['sizes']}, limit {m})"
    return None
