"""Modular contract of get_job_tasks (proved in C12): the task lists of the ranks hold each task exactly once.
OWNER(t) is the rank holding task t, PLACE(t) its position in that rank's list, NJOBS(r) the length of the list."""
from .base import *
from pyvc import libs
from pyvc.loops import Coll

OWNER = z3.Function("owner", z3.IntSort(), z3.IntSort())
PLACE = z3.Function("place", z3.IntSort(), z3.IntSort())
NJOBS = z3.Function("njobs", z3.IntSort(), z3.IntSort())


class Jobs:
    """the list of a rank: the tasks t of range(n) with OWNER(t) = rank, in the order of PLACE"""

    def __init__(self, rank, ranks, n, start=None):
        self.rank, self.ranks, self.n, self.start = rank, ranks, n, start

    def len_model(self, vm):
        return NJOBS(self.rank)

    def enumerate_model(self, vm, start):
        return Jobs(self.rank, self.ranks, self.n, start)

    def collection_model(self, vm):
        def guard(xs):
            return z3.And(0 <= xs[0], xs[0] < self.n, OWNER(xs[0]) == self.rank)

        def elem(xs):
            return xs[0] if self.start is None else (z3.simplify(PLACE(xs[0]) + self.start), xs[0])

        def facts(xs):
            return [z3.And(0 <= PLACE(xs[0]), PLACE(xs[0]) < NJOBS(self.rank))]
        return Coll([z3.IntSort()], guard, elem, facts, prior=lambda ys, xs: PLACE(ys[0]) < PLACE(xs[0]),
                    tag=("jobs", str(self.rank)))

    def subst_model(self, vm, pairs):
        s = lambda x: z3.simplify(z3.substitute(smt_int(x), *pairs))
        return Jobs(s(self.rank), s(self.ranks), s(self.n), self.start)


def job_contract(vm, bound):
    tasks = bound["tasks_tot"]
    if isinstance(tasks, (range, tuple)):
        tasks = libs.as_seq(vm, tasks)
    if not isinstance(tasks, SymSeq):
        raise Unsupported("tasks that are not a range")
    k = smt.fresh_int("k")
    if not z3.simplify(smt_int(tasks.get(k)) - k).eq(z3.IntVal(0)):
        raise Unsupported("tasks that are not a range")
    r, R, n = smt_int(bound["rank"]), smt_int(bound["ranks"]), smt_int(tasks.length)
    if vm.entails(z3.And(0 <= r, r < R)) is not True:
        raise Unsupported("rank outside the communicator")
    vm.assume(NJOBS(r) >= 0)
    R0 = R

    def rule(terms):
        return [z3.Implies(z3.And(0 <= x.kids[0], x.kids[0] < n), z3.And(0 <= x.t, x.t < R0))
                for x in terms if x.name == "owner"]
    RULES.append(rule)
    return Jobs(r, R, n)


RULES = []


def _facts(terms):
    if not any(x.name == "owner" for x in terms):
        return []
    return [f for r in RULES[-1:] for f in r(terms)]


smt.INSTANTIATORS.append(_facts)
