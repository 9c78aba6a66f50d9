"""Obligation bookkeeping shared by all contract files."""
import os
import pickle
import sys
import time
import traceback
import z3

from pyvc import smt
from pyvc import scalar as sc
from pyvc.scalar import Scalar
from pyvc.values import *
from pyvc.interp import Vm, PyRaise, smt_int, SourceError, nbytes_bits
from pyvc.values import _z

ED = "impurityModel.ed"


class Obligation:
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.status = None       # proved | refuted | undecided
        self.detail = ""
        self.time = 0.0
        self.method = "z3"
        self.bounded = None

    def row(self):
        return {"name": self.name, "function": self.func, "status": self.status, "detail": self.detail,
                "seconds": round(self.time, 3), "backend": self.method}


class Check:
    """collects the obligations of one property"""

    def __init__(self, pid, verbose=False):
        self.pid = pid
        self.obs = []
        self.assumptions = []
        self.functions = {}
        self.libs = set()
        self.contracts_used = {}
        self.verbose = verbose
        self.covers = []
        self.on_add = None

    # -- recording
    def add(self, name, func, status, detail="", seconds=0.0, method="z3"):
        o = Obligation(name, func)
        o.status, o.detail, o.time, o.method = status, detail, seconds, method
        self.obs.append(o)
        if self.on_add:
            self.on_add()
        if self.verbose:
            print("  [%s] %-9s %s %s (%.2fs)" % (self.pid, status, name, detail[:200], seconds), flush=True)
        return o

    def assume_note(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def absorb(self, vm):
        for k in vm.inlined:
            self.functions[".".join(k)] = True
        self.libs |= vm.used_libs
        for k, n in vm.used_contracts.items():
            self.contracts_used[".".join(k)] = self.contracts_used.get(".".join(k), 0) + n

    jobs = 1            # obligations decided at a time; more than one only where they do not depend on each other
    waiting = ()

    def run(self, name, func, thunk):
        """thunk() -> list of (sub-name, status, detail) or raises Unsupported"""
        if self.jobs == 1:
            return self.run_here(name, func, thunk)
        if len(self.waiting) >= self.jobs:
            self.collect(1)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.obs, self.on_add, self.jobs = [], None, 1
                self.run_here(name, func, thunk)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(([(o.name, o.func, o.status, o.detail, o.time, o.method) for o in self.obs], dict(self.functions),
                                 set(map(str, self.libs)), dict(self.contracts_used), list(self.assumptions)), f)
                    f.flush()
                sys.stdout.flush()
            finally:
                os._exit(0)
        os.close(w)
        self.waiting = list(self.waiting) + [(name, func, pid, r, dict(self.contracts_used))]

    def collect(self, n=None):
        """take in the results of the first n obligations under way (all of them by default), in order"""
        todo = list(self.waiting)[:n]
        self.waiting = list(self.waiting)[len(todo):]
        for name, func, pid, r, used in todo:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                obs, funcs, libs, cs, notes = pickle.loads(data)
            except Exception:
                self.add(name, func, "undecided", "engine: process ended")
                continue
            self.functions.update(funcs)
            self.libs |= libs
            for k, m in cs.items():
                if m > used.get(k, 0):
                    self.contracts_used[k] = self.contracts_used.get(k, 0) + m - used.get(k, 0)
            for t in notes:
                self.assume_note(t)
            for row in obs:
                verbose, self.verbose = self.verbose, False
                self.add(*row)
                self.verbose = verbose

    def run_here(self, name, func, thunk):
        t0 = time.time()
        try:
            rows = thunk()
        except Unsupported as e:
            self.add(name, func, "undecided", "out of reach: %s" % e, time.time() - t0)
            return
        except SourceError as e:
            self.add(name, func, "undecided", str(e), time.time() - t0)
            return
        except PyRaise as e:
            self.add(name, func, "undecided", "model raised %s %s" % (e.typ, e.msg), time.time() - t0)
            return
        except RecursionError:
            self.add(name, func, "undecided", "recursion", time.time() - t0)
            return
        except Exception as e:        # engine failure: undecided, never a violation
            self.add(name, func, "undecided", "engine: %s: %s @ %s" % (
                type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:]), time.time() - t0)
            if self.verbose:
                traceback.print_exc()
            return
        dt = time.time() - t0
        if not rows:
            self.add(name, func, "undecided", "no obligation generated", dt)
            return
        n = len(rows)
        for sub, st, det in rows:
            self.add(name + ("." + sub if sub else ""), func, st, det, dt / n)

    def contract(self, name, func, vm, call, post, cover=True, expect_raise=None):
        """Execute call() on all paths of the real body; post(path) yields (label, z3 formula/bool)."""
        def thunk():
            rows = []
            # vacuity: the precondition must be satisfiable
            r = smt.check_sat(vm.asms(), 5000, False)[0]
            if r == "unsat":
                return [("precondition", "undecided", "precondition unsatisfiable")]
            paths = vm.explore(call)
            self.absorb(vm)
            if not paths:
                return [("paths", "undecided", "no feasible path")]
            merged = {}
            for p in paths:
                snap = vm.save()
                vm.restore(p.snap)
                try:
                    for label, phi in post(p):
                        st, det = self.judge(vm, phi)
                        prev = merged.get(label)
                        merged[label] = worst(prev, (st, det))
                finally:
                    vm.restore(snap)
            for label, (st, det) in merged.items():
                rows.append((label, st, det))
            return rows
        self.run(name, func, thunk)

    def judge(self, vm, phi):
        if isinstance(phi, tuple) and phi and phi[0] == "scalar0":
            r = sc.is_zero(phi[1], vm.asms())
            if r is True:
                return "proved", ""
            return ("refuted" if r is False else "undecided"), "not identically zero: %s" % short(phi[1])
        if phi is True:
            return "proved", ""
        if phi is False:
            phi = z3.BoolVal(False)
        if phi is None:
            return "undecided", "no verdict"
        r = smt.entails(vm.asms(), phi, 20000, True)
        if r is True:
            return "proved", ""
        if r is False:
            return "refuted", "counterexample to %s" % short(phi)
        return "undecided", "solver gave no answer: %s" % short(phi)


def short(x, n=300):
    s = str(x).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


_RANK = {"proved": 0, "undecided": 1, "refuted": 2}


def worst(a, b):
    if a is None:
        return b
    return a if _RANK[a[0]] >= _RANK[b[0]] else b


# ---------------------------------------------------------------- denotations of encodings

def forall_index(vm, f):
    """obligation for an arbitrary index"""
    k = smt.fresh_int("k")
    return f(k)


def same_bits(vm, bits, arr, n):
    """bits has length n and equals arr on [0,n)"""
    k = smt.fresh_int("k")
    return z3.And(smt_int(bits.length) == smt_int(n),
                  z3.Implies(z3.And(0 <= k, k < smt_int(n)), bits.bit(k) == z3.Select(arr, k)))


def tuple_is(vm, v, arr, n):
    """v (python tuple / PosTuple / SymSeq of integers) is the ascending tuple of the set arr within [0,n).
    Element e at index idx is right iff arr[e] and rank(e) = idx; the length must be the cardinality."""
    n = smt_int(n)

    def elem_ok(e, idx):
        e, idx = smt_int(e), smt_int(idx)
        return z3.And(0 <= e, e < n, z3.Select(arr, e), smt.PC(arr, e) == idx)

    if isinstance(v, tuple):
        v = PosTuple([("one", vm.as_int(x)) for x in v])
    if isinstance(v, Ref):
        from pyvc.libs import as_seq
        o = vm.get(v)
        if isinstance(o, ListObj) and isinstance(o.base, PosTuple) and not o.items:
            v = o.base
        else:
            v = as_seq(vm, v)
    cs = []
    if isinstance(v, PosTuple):
        off = z3.IntVal(0)
        for p in v.parts:
            if p[0] == "one":
                cs.append(elem_ok(p[1], off))
                off = off + 1
            else:
                _, a, m, lo, hi = p
                q = smt.fresh_int("p")
                r = smt.PC(a, q)
                cs.append(z3.Implies(z3.And(0 <= q, q < smt_int(m), z3.Select(a, q), lo <= r, r < hi),
                                     elem_ok(q, off + r - lo)))
                off = off + (hi - lo)
                cs.append(hi >= lo)
        cs.append(off == smt.PC(arr, n))
        return z3.And(*cs)
    if isinstance(v, SymSeq):
        k = smt.fresh_int("k")
        m = smt_int(v.length)
        fs = list(v.facts(k)) if v.facts else []
        e = vm.as_int(v.get(k))
        return z3.And(m == smt.PC(arr, n), z3.Implies(z3.And(0 <= k, k < m, *fs), elem_ok(e, k)))
    raise Unsupported("not a tuple of positions: %r" % (v,))


def string_is(vm, v, arr, n):
    if isinstance(v, BStr):
        return same_bits(vm, v.bits, arr, n)
    if isinstance(v, str):
        if any(c not in "01" for c in v):
            return False
        cs = [smt_int(n) == len(v)]
        for i, c in enumerate(v):
            cs.append(z3.Select(arr, i) == z3.BoolVal(c == "1"))
        return z3.And(*cs)
    raise Unsupported("not a 0/1 string: %r" % (v,))


def int_is(vm, v, arr, n):
    n = smt_int(n)
    if isinstance(v, int):
        v = BInt(Bits([])) if v == 0 else v
    if isinstance(v, BInt):
        L = smt_int(v.bits.length)
        j = smt.fresh_int("j")
        a = z3.And(j < L, v.bits.bit(L - 1 - j))
        b = z3.And(j < n, z3.Select(arr, n - 1 - j))
        return z3.Implies(j >= 0, a == b)
    raise Unsupported("not an integer given by bits: %r" % (v,))


def bitarray_is(vm, v, arr, n):
    if isinstance(v, Ref) and isinstance(vm.get(v), BitArrObj):
        return same_bits(vm, vm.get(v).bits, arr, n)
    raise Unsupported("not a bitarray: %r" % (v,))


def bytes_is(vm, v, arr, n):
    """bytes: bits of arr on [0,n), zero padding to a multiple of 8"""
    if isinstance(v, BBytes):
        k = smt.fresh_int("k")
        L = smt_int(nbytes_bits(vm, n))
        return z3.And(smt_int(v.bits.length) == L,
                      z3.Implies(z3.And(0 <= k, k < L),
                                 v.bits.bit(k) == z3.And(k < smt_int(n), z3.Select(arr, k))))
    raise Unsupported("not bytes: %r" % (v,))


IS = {"tuple": tuple_is, "str": string_is, "int": int_is, "bitarray": bitarray_is, "bytes": bytes_is}


def make(vm, kind, arr, n):
    """symbolic value of the encoding of the canonical set arr"""
    if kind == "tuple":
        return PosTuple.full(arr, n)
    b = Bits([(arr, 0, n)])
    if kind == "str":
        return BStr(b)
    if kind == "int":
        return BInt(b)
    if kind == "bitarray":
        return vm.alloc(BitArrObj(b))
    if kind == "bytes":
        return vm.state_value(arr, n)
    raise KeyError(kind)


def fresh_state(vm, name="A", n=None):
    n = vm.state_n if n is None else n
    A = smt.fresh_arr(name)
    vm.assume(smt.canonical(A, smt_int(n)))
    return A


# ---------------------------------------------------------------- execution of one function

def raise_status(vm):
    """an exception counts as reachable when the solver finds the path satisfiable"""
    return "refuted" if smt.check_sat(vm.asms(), 10000, False)[0] == "sat" else "undecided"


def unknowns(vm):
    """the path depends on values the verifier gave up on"""
    return any(str(c).startswith("unk!") for e, _ in vm.pc for c in sc.free_consts(e))


def run1(ck, name, func, thunk, post, raised=None):
    """single-path (after merging) execution, post(value of each path) -> rows; raised(vm, exception) -> rows"""
    def go():
        vm = Vm()
        vm.MAX_PATHS = 64
        f, args, kw = thunk(vm)
        paths = vm.explore(lambda: vm.call(f, args, kw))
        ck.absorb(vm)
        merged = {}
        for p in paths:
            snap = vm.save()
            vm.restore(p.snap)
            try:
                if p.kind == "raise" and raised is not None:
                    rows = raised(vm, p.value)
                elif p.kind != "ok":
                    rows = [("no exception", raise_status(vm), "raises %s" % p.value.typ)] if p.kind == "raise" else \
                        [("no exception", "undecided", p.kind)]
                else:
                    from . import opalg
                    opalg.ASMS = vm.asms()
                    rows = post(vm, p.value)
                for lab, st, det in rows:
                    if st == "refuted" and unknowns(vm):
                        st = "undecided"
                    merged[lab] = worst(merged.get(lab), (st, det))
            finally:
                vm.restore(snap)
        return [(l, s, d) for l, (s, d) in merged.items()]
    ck.run(name, func, go)


def params(name, n, real=True):
    return [sc.par("%s%d" % (name, k), real=real) for k in range(n)]


def ordered_dict(vm, items):
    return vm.alloc(DictObj({k: (True, k, v) for k, v in items}))


def rejects(ck, name, func, thunk):
    def go():
        vm = Vm()
        vm.MAX_PATHS = 64
        f, args, kw = thunk(vm)
        paths = vm.explore(lambda: vm.call(f, args, kw))
        ck.absorb(vm)
        rows = None
        for p in paths:
            vm.restore(p.snap)
            if p.kind == "raise":
                r = ("proved", "")
            elif p.kind == "ok" and sc.contradictory(list(vm.asms()) + [p.cond()]):
                continue
            elif p.kind == "ok":
                r = ("refuted", "accepted when %s" % short(p.cond())) if smt.check_sat(list(vm.asms()) + [p.cond()])[0] == "sat" else ("undecided", "accepting path")
            else:
                r = ("undecided", p.kind)
            rows = worst(rows, r)
        return [("", *rows)] if rows else []
    ck.run(name, func, go)
