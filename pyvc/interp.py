"""Symbolic interpreter for the Python subset: executes the AST of /repo's current source."""
import ast
import os
import sys
import builtins

import z3
from fractions import Fraction
import numpy as _np

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .num import Num
from .values import *

sys.setrecursionlimit(20000)


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PyRaise(Exception):
    """a Python exception raised by the program"""

    def __init__(self, typ, msg=None):
        self.typ, self.msg = typ, msg

    def __repr__(self):
        return "PyRaise(%s)" % self.typ


class Infeasible(Exception):
    pass


class PathResult:
    def __init__(self, pc, snap, kind, value):
        self.pc, self.snap, self.kind, self.value = pc, snap, kind, value

    def cond(self):
        return smt.bigand([e for e, k in self.pc if k == "d"])

    def asms(self):
        return [e for e, k in self.pc]


class Explorer:
    def __init__(self, prefix):
        self.prefix, self.pos, self.pending = prefix, 0, []


REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "impurityModel.ed"


class SourceError(Exception):
    pass


_AST_CACHE = {}


def module_ast(name):
    if name not in _AST_CACHE:
        path = os.path.join(REPO, *name.split(".")) + ".py"
        with open(path) as f:
            src = f.read()
        _AST_CACHE[name] = (ast.parse(src, path), src)
    return _AST_CACHE[name][0]


class Vm:
    MAX_PATHS = 600

    def __init__(self):
        self.heap = {}
        self.next = 1
        self.tok = object()
        self.pc = []
        self.explorers = []
        self.contracts = {}
        self.modules = {}
        self.calls = {}            # functions executed: (module, name) -> count
        self.lib = {}
        self.consts = {}
        self.comm = None
        self.key_invariants = []   # candidate invariants on keys of maps: f(key term) -> z3 Bool
        self.attr_models = {}
        self.printed = None
        self.used_contracts = {}
        self.used_libs = set()
        self.inlined = set()
        self.state_n = None        # number of spin-orbitals (z3 or int)
        self.merge_all = False
        self.loop_hooks = []
        self.while_hooks = []
        self.fold_rules = []
        self.ghosts = []
        self.run_count = 0
        self.iterations = []      # binders of the loop iterations being executed
        self.key_hooks = []        # (vm, sequence) -> (KeyKind, term): sequences used as dictionary keys
        from . import libs
        libs.install(self)

    # ------------------------------------------------------------ heap
    def alloc(self, obj):
        obj.tok = self.tok
        oid = self.next
        self.next += 1
        self.heap[oid] = obj
        return Ref(oid)

    def get(self, ref):
        return self.heap[ref.oid]

    def mut(self, ref):
        o = self.heap[ref.oid]
        if o.readonly:
            raise Unsupported("change of an object that is an element of a symbolic collection")
        if o.tok is not self.tok:
            o = o.clone()
            o.tok = self.tok
            self.heap[ref.oid] = o
        return o

    def references(self, ref):
        """number of places that hold a reference to the object"""
        def count(v):
            if isinstance(v, Ref):
                return int(v == ref)
            if isinstance(v, (tuple, list)):
                return sum(count(x) for x in v)
            if isinstance(v, dict):
                return sum(count(x) for x in v.values())
            if isinstance(v, SymSeq):
                return 2 * count(v.get(smt.fresh_int("k")))
            if isinstance(v, SymComp):
                return 2 * count(v.elem)
            return 0
        tot = 0
        for o in list(self.heap.values()):
            for a in ("vars", "items", "base", "d", "fields"):
                x = getattr(o, a, None)
                if x is not None and not callable(x):
                    tot += count(x)
        return tot

    def renew(self, ref):
        """to change an object whose earlier contents may be read later (values computed from it are lazy)"""
        m = self.mut(ref).clone()
        self.put(ref, m)
        return m

    def put(self, ref, obj):
        o = self.heap.get(ref.oid)
        if o is not None and o.readonly:
            raise Unsupported("change of an object that is an element of a symbolic collection")
        obj.tok = self.tok
        self.heap[ref.oid] = obj

    def save(self):
        self.tok = object()
        return (dict(self.heap), list(self.pc))

    def restore(self, snap):
        self.heap = dict(snap[0])
        self.pc = list(snap[1])
        self.tok = object()

    # ------------------------------------------------------------ path condition
    def asms(self):
        return [e for e, _ in self.pc]

    def assume(self, phi, kind="f"):
        if isinstance(phi, bool):
            if not phi:
                raise Infeasible()
            return
        if z3.is_true(phi):
            return
        for e, _ in self.pc:
            if e.eq(phi):
                return
        self.pc.append((phi, kind))

    def entails(self, phi, timeout=None):
        if isinstance(phi, bool):
            if phi:
                return True
        return smt.entails(self.asms(), phi, timeout)

    def known(self, phi, timeout=3000):
        """True / False / None as far as the path condition decides phi"""
        if isinstance(phi, bool):
            return phi
        phi = z3.simplify(phi)
        if z3.is_true(phi):
            return True
        if z3.is_false(phi):
            return False
        if self.entails(phi, timeout) is True:
            return True
        if self.entails(z3.Not(phi), timeout) is True:
            return False
        return None

    def explore(self, thunk):
        """all paths of thunk from the current state; leaves the state as it was"""
        snap = self.save()
        base = len(self.pc)
        work = [[]]
        results = []
        count = 0
        while work:
            prefix = work.pop()
            self.restore(snap)
            ex = Explorer(prefix)
            self.explorers.append(ex)
            try:
                count += 1
                if count > self.MAX_PATHS:
                    raise Unsupported("too many paths")
                kind, val = "ok", None
                try:
                    val = thunk()
                except ReturnSig as s:
                    kind, val = "return", s.v
                except BreakSig:
                    kind = "break"
                except ContinueSig:
                    kind = "continue"
                except PyRaise as e:
                    kind, val = "raise", e
                except Infeasible:
                    kind = None
                if kind is not None:
                    results.append(PathResult(self.pc[base:], self.save(), kind, val))
            finally:
                self.explorers.pop()
            work.extend(ex.pending)
        self.restore(snap)
        results.reverse()
        return results

    def choose(self, conds):
        """fork on mutually exclusive, exhaustive conditions; returns the index taken"""
        if not self.explorers:
            raise Unsupported("fork outside an exploration")
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            i = ex.prefix[ex.pos]
        else:
            feas = []
            for j, c in enumerate(conds):
                if isinstance(c, bool):
                    if c:
                        feas.append(j)
                    continue
                r = smt.check_sat(self.asms() + [c], 3000, False)[0]
                if r != "unsat":
                    feas.append(j)
            if not feas:
                raise Infeasible()
            i = feas[0]
            taken = [x for x in ex.prefix]
            for j in feas[1:]:
                ex.pending.append(taken + [j])
            ex.prefix = taken + [i]
        ex.pos += 1
        c = conds[i]
        if not isinstance(c, bool):
            self.assume(c, "d")
        return i

    def decide(self, phi):
        if isinstance(phi, bool):
            return phi
        phi = z3.simplify(phi)
        k = self.known(phi)
        if k is not None:
            return k
        return self.choose([phi, z3.Not(phi)]) == 0

    # ------------------------------------------------------------ truth and equality
    def truth(self, v):
        """Python truth value as bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, bytes, tuple, float)):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, Scalar):
            return sc.cond_nz(v)
        if isinstance(v, (SymSeq, BStr, PosTuple)):
            return self.vlen(v) > 0
        if isinstance(v, BInt):
            k = smt.fresh_int("k")
            n = v.bits.length
            return z3.Not(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Not(v.bits.bit(k)))))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, (ListObj, DictObj, SetObj, MapObj, SymSetObj, BitArrObj)):
                n = self.vlen(v)
                return n > 0 if not isinstance(n, int) else n > 0
            if isinstance(o, NdObj) and o.a.size == 1:
                return self.truth(o.a.reshape(-1)[0])
            if isinstance(o, PyObj):
                return True
        if isinstance(v, (Func, Lib, Builtin, BoundMethod, RepoModule)):
            return True
        if hasattr(v, "truth_model"):
            return v.truth_model(self)
        raise Unsupported("truth value of %r" % (v,))

    def eq(self, a, b):
        """Python == as bool or z3 Bool"""
        if a is b and not isinstance(a, (Poison, Opaque)):
            return True
        if isinstance(a, (Poison, Opaque)) or isinstance(b, (Poison, Opaque)):
            raise Unsupported("comparison of unknown value")
        if isinstance(a, Scalar) or isinstance(b, Scalar):
            if isinstance(a, (Scalar, int, float, complex, z3.ArithRef, z3.BoolRef)) and isinstance(
                b, (Scalar, int, float, complex, z3.ArithRef, z3.BoolRef)
            ):
                c = sc.cond_nz(Scalar.of(a) - Scalar.of(b))
                return (not c) if isinstance(c, bool) else z3.Not(c)
            return False
        if isinstance(a, (z3.ArithRef, z3.BoolRef)) or isinstance(b, (z3.ArithRef, z3.BoolRef)):
            if isinstance(a, (z3.ArithRef, z3.BoolRef, int)) and isinstance(b, (z3.ArithRef, z3.BoolRef, int)):
                if isinstance(a, (z3.BoolRef, bool)) and isinstance(b, (z3.BoolRef, bool)):
                    return z3.simplify(sc.as_z3(a) == sc.as_z3(b))
                return z3.simplify(self.as_int(a) == self.as_int(b))
            if hasattr(a, "eq_model"):
                return a.eq_model(self, b)
            if hasattr(b, "eq_model"):
                return b.eq_model(self, a)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = []
            for x, y in zip(a, b):
                c = self.eq(x, y)
                if c is False:
                    return False
                if c is not True:
                    cs.append(c)
            return True if not cs else z3.And(*cs)
        if isinstance(a, (int, str, bytes, bool, float)) and isinstance(b, (int, str, bytes, bool, float)):
            return a == b
        if a is None or b is None:
            return a is b
        if hasattr(a, "eq_model"):
            return a.eq_model(self, b)
        if hasattr(b, "eq_model"):
            return b.eq_model(self, a)
        if isinstance(a, BStr) and isinstance(b, str):
            return self.bstr_eq_const(a, b)
        if isinstance(b, BStr) and isinstance(a, str):
            return self.bstr_eq_const(b, a)
        if isinstance(a, (BBytes, BStr)) and type(a) is type(b):
            n, m = a.bits.length, b.bits.length
            if self.known(self._eqi(n, m)) is not True:
                raise Unsupported("comparison of bit strings of different length")
            return self.bits_term(a.bits) == self.bits_term(b.bits)
        if isinstance(a, (Lib, RepoModule)) or isinstance(b, (Lib, RepoModule)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = self.get(a), self.get(b)
            if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.base is None and ob.base is None:
                return self.eq(tuple(oa.items), tuple(ob.items))
            if isinstance(oa, DictObj) and isinstance(ob, DictObj):
                return self.dict_eq(oa, ob)
            if isinstance(oa, MapObj) and isinstance(ob, MapObj) and oa.keys is ob.keys and oa.kind == ob.kind == "scalar":
                from . import preds
                q = smt.fresh(oa.keys.sort, "key")
                da, db = sc.as_z3(oa.dom(q)), sc.as_z3(ob.dom(q))
                diff = sc.assume_simplify(Scalar.of(oa.val(q)) - Scalar.of(ob.val(q)), [da, db])
                return preds.forall(q, z3.And(da == db, z3.Implies(da, z3.Not(sc.as_z3(sc.cond_nz(diff))))))
            m = self.lib.get("==" + type(oa).__name__)
            if m:
                return m(self, a, b)
            if hasattr(oa, "obj_eq"):
                return oa.obj_eq(self, b)
        if isinstance(a, SymSeq) and isinstance(b, tuple) or isinstance(b, SymSeq) and isinstance(a, tuple):
            s, t = (a, b) if isinstance(a, SymSeq) else (b, a)
            if s.kind != "tuple":
                return False
            cs = [self._eqi(s.length, len(t))]
            for i, y in enumerate(t):
                cs.append(sc.as_z3(self.eq(s.get(z3.IntVal(i)), y)))
            return z3.And(*[sc.as_z3(c) for c in cs])
        ta, tb = type(a), type(b)
        if ta is not tb and not isinstance(a, (PosTuple, SymSeq)) and not isinstance(b, (PosTuple, SymSeq)):
            basic = (int, str, bytes, tuple, BStr, BBytes, Ref, Scalar)
            if isinstance(a, basic) and isinstance(b, basic):
                if isinstance(a, Ref) or isinstance(b, Ref):
                    o = self.get(a if isinstance(a, Ref) else b)
                    if isinstance(o, (ListObj, DictObj, SetObj)):
                        return False
                    raise Unsupported("comparison with object")
                return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def dict_eq(self, oa, ob):
        cs = []
        for k in set(oa.d) | set(ob.d):
            ea, eb = oa.d.get(k), ob.d.get(k)
            if ea is None or eb is None:
                p = (ea or eb)[0]
                if p is True:
                    return False
                cs.append(z3.Not(p))
                continue
            pa, pb = sc.as_z3(ea[0]), sc.as_z3(eb[0])
            v = sc.as_z3(self.eq(ea[2], eb[2]))
            cs.append(z3.simplify(z3.And(pa == pb, z3.Implies(pa, v))))
        if not cs:
            return True
        r = z3.simplify(z3.And(*cs))
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def bstr_eq_const(self, a, s):
        n = a.bits.length
        c = self._eqi(n, len(s))
        if c is False:
            return False
        if any(ch not in "01" for ch in s):
            return False
        cs = [sc.as_z3(c)]
        for i, ch in enumerate(s):
            b = a.bits.bit(z3.IntVal(i))
            cs.append(b if ch == "1" else z3.Not(b))
        return z3.simplify(z3.And(*cs))

    @staticmethod
    def _eqi(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return z3.simplify(smt_int(a) == smt_int(b))

    def as_int(self, v):
        """integer value (python int or z3 Int)"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, z3.ArithRef) and v.is_int():
            return v
        if isinstance(v, Scalar):
            c = v.const()
            if c is not None:
                q = c.rational()
                if q is not None and q.denominator == 1:
                    return int(q)
        raise Unsupported("not an integer: %r" % (v,))

    def is_intlike(self, v):
        return isinstance(v, (int, z3.BoolRef)) or (isinstance(v, z3.ArithRef) and v.is_int())

    def as_scalar(self, v):
        if isinstance(v, Scalar):
            return v
        if isinstance(v, (int, float, complex, z3.ArithRef, z3.BoolRef)):
            return Scalar.of(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, NdObj) and o.a.shape == ():
                return Scalar.of(o.a[()])
        raise Unsupported("not a number: %r" % (v,))

    def is_num(self, v):
        return isinstance(v, (Scalar, int, float, complex, z3.ArithRef, z3.BoolRef))

    # ------------------------------------------------------------ bits helpers
    def bits_norm(self, b):
        """merge pieces when the representation allows: canonical array followed by zeros"""
        return b

    def bits_term(self, b):
        """z3 array that is False outside [0, length)"""
        n = smt_int(b.length)
        if not b.p:
            return smt.EMPTY
        a, o, ln = b.p[0]
        single = len(b.p) == 1 or all(x[0].eq(smt.EMPTY) for x in b.p[1:])
        if single and self._is0(o):
            if self.canonical(a, ln):
                return a
        k = z3.Int("k!lam")
        return z3.Lambda([k], z3.And(k >= 0, k < n, b.bit(k)))

    def _is0(self, o):
        return (isinstance(o, int) and o == 0) or self.known(smt_int(o) == 0) is True

    def canonical(self, a, n):
        k = smt.fresh_int("kc")
        return self.entails(z3.Implies(z3.Or(k < 0, k >= smt_int(n)), z3.Not(z3.Select(a, k))), 3000) is True

    def state_value(self, arr, n=None):
        """bytes value of the product state given by a canonical array"""
        n = self.state_n if n is None else n
        return BBytes(Bits([(arr, 0, nbytes_bits(self, n))]))

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        tree = module_ast(name)
        fr = self.alloc(FrameObj({"__name__": name}, name, None, "<module>"))
        self.modules[name] = fr
        for st in tree.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.If) and "__name__" in ast.dump(st.test):
                continue
            try:
                self.exec_stmt(st, fr)
            except (Unsupported, PyRaise) as e:
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.mut(fr).vars[t.id] = Poison("module level: %s" % e)
        return fr

    def function(self, module, name):
        fr = self.get(self.load(module))
        if name not in fr.vars or not isinstance(fr.vars[name], Func):
            raise SourceError("function %s.%s not found" % (module, name))
        return fr.vars[name]

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Func):
            key = (f.module, f.name)
            c = self.contracts.get(key)
            if c is not None:
                bound = self.bind(f, args, kwargs)
                self.used_contracts[key] = self.used_contracts.get(key, 0) + 1
                return c(self, bound)
            return self.call_body(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.f(self, args, kwargs)
        if isinstance(f, Lib):
            m = self.lib.get(f.name)
            if m is None:
                raise Unsupported("library function %s" % f.name)
            self.used_libs.add(f.name)
            return m(self, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.method(f.obj, f.name, args, kwargs)
        raise Unsupported("call of %r" % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(names) and not a.vararg:
            raise PyRaise("TypeError", "too many positional arguments")
        for n, v in zip(names, args):
            bound[n] = v
        if a.vararg:
            bound[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in bound:
                    raise PyRaise("TypeError", "multiple values for argument")
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected keyword argument %s" % k)
        if a.kwarg:
            bound[a.kwarg.arg] = self.alloc(DictObj({k: (True, k, v) for k, v in extra.items()}))
        defaults, kwdefaults = f.defaults or [], f.kwdefaults or {}
        for n, v in zip(names[len(names) - len(defaults):], defaults):
            bound.setdefault(n, v)
        for n, v in kwdefaults.items():
            bound.setdefault(n, v)
        for n in names + konly:
            if n not in bound:
                raise PyRaise("TypeError", "missing argument %s" % n)
        return {n: bound[n] for n in list(names) + [x for x in bound if x not in names]}

    def call_body(self, f, args, kwargs=None, nested=False):
        bound = self.bind(f, list(args), kwargs or {})
        self.inlined.add((f.module, f.name))
        node = f.node
        fr = self.alloc(FrameObj(bound, f.module, f.frame, f.name))
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if self._is_generator(node):
            self.mut(fr).vars["!yield"] = self.alloc(ListObj([]))
            try:
                self.exec_block(node.body, fr)
            except ReturnSig:
                pass
            return tuple_iter(self, self.get(fr).vars["!yield"])
        try:
            self.exec_block(node.body, fr)
            r = None
        except ReturnSig as s:
            r = s.v
        if not self._has_inner(node):
            self.heap.pop(fr.oid, None)       # dead frame
        return r

    @staticmethod
    def _has_inner(node):
        r = getattr(node, "_pyvc_inner", None)
        if r is None:
            r = node._pyvc_inner = any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp))
                                       for st in node.body for x in ast.walk(st))
        return r

    @staticmethod
    def _is_generator(node):
        r = getattr(node, "_pyvc_gen", None)
        if r is None:
            r = node._pyvc_gen = Vm._find_yield(node)
        return r

    @staticmethod
    def _find_yield(node):
        st = list(node.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                continue
            st.extend(ast.iter_child_nodes(x))
        return False

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fr) if st.value.value else None
            self.mut(self.get(fr).vars["!yield"]).items.append(v)
            return
        self.eval(st.value, fr)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = st.op
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            new = self.inplace(op, cur, self.eval(st.value, fr))
            self.assign(t, new, fr)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            cur = self.getitem(obj, idx)
            if isinstance(obj, Ref) and isinstance(self.get(obj), (NdObj, SymNdObj)):
                new = self.binop(op, cur, self.eval(st.value, fr))
            else:
                new = self.inplace(op, cur, self.eval(st.value, fr))
            self.setitem(obj, idx, new)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fr)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(op, cur, self.eval(st.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        if isinstance(cur, Ref):
            o = self.get(cur)
            if isinstance(o, ListObj) and isinstance(op, ast.Add):
                self.method(cur, "extend", [v], {})
                return cur
            if isinstance(o, (SetObj, SymSetObj)) and not getattr(o, "frozen", False):
                m = {ast.BitOr: "update", ast.Sub: "difference_update"}.get(type(op))
                if m:
                    self.method(cur, m, [v], {})
                    return cur
            if isinstance(o, DictObj) and isinstance(op, ast.BitOr):
                self.method(cur, "update", [v], {})
                return cur
            if isinstance(o, (NdObj, SymNdObj)):
                new = self.binop(op, cur, v)
                if isinstance(new, Ref):
                    n = self.get(new)
                    if isinstance(n, NdObj) and isinstance(o, NdObj) and n.a.shape == o.a.shape:
                        from .nd import nd_mut, coerce
                        na = n.a.copy()
                        for ix in _np.ndindex(*na.shape):
                            na[ix] = coerce(self, na[ix], o.dtype)
                        nd_mut(self, cur).a = na
                        return cur
                    if isinstance(o, CsrObj) and isinstance(n, CsrObj):
                        # scipy's sparse matrices have no in-place addition: the name is bound to the result, which is the same
                        # as changing the object when nothing else refers to it
                        if self.references(cur) > 1:
                            return new
                        self.put(cur, n)
                        return cur
                    if isinstance(n, SymNdObj) and isinstance(o, SymNdObj) and len(n.shape) == len(o.shape) and all(
                            self.known(smt_int(x) == smt_int(y)) is True for x, y in zip(n.shape, o.shape)) \
                            and o.view is None and not (o.dtype != n.dtype and o.dtype != "complex"):
                        m = self.renew(cur)
                        m.get = n.get
                        m.writes = None
                        return cur
                raise Unsupported("in-place array operation")
        if hasattr(cur, "inplace_model"):
            return cur.inplace_model(self, op, v)
        return self.binop(op, cur, v)

    def s_Return(self, st, fr):
        raise ReturnSig(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise BreakSig()

    def s_Continue(self, st, fr):
        raise ContinueSig()

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported("bare raise")
        e = st.exc
        if isinstance(e, ast.Call):
            t = self.eval(e.func, fr)
        else:
            t = self.eval(e, fr)
        name = t.name.split(".")[-1] if isinstance(t, Lib) else str(t)
        raise PyRaise(name)

    def s_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if not self.decide(c):
            raise PyRaise("AssertionError")

    def s_Global(self, st, fr):
        raise Unsupported("global statement")

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value, fr)
                self.delitem(obj, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Name):
                self.mut(fr).vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def delitem(self, obj, idx):
        self.method(obj, "pop", [idx], {})

    def s_FunctionDef(self, st, fr):
        f = Func(st, fr, self.get(fr).module, st.name)
        f.defaults = [self.eval(d, fr) for d in st.args.defaults]
        f.kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        v = f
        for d in reversed(st.decorator_list):
            raise Unsupported("decorator")
        self.mut(fr).vars[st.name] = v

    def s_ClassDef(self, st, fr):
        raise Unsupported("class definition")

    def s_Import(self, st, fr):
        for a in st.names:
            name = a.name
            if name.startswith(PKG):
                if a.asname:
                    self.mut(fr).vars[a.asname] = self.repo_module(name)
                else:
                    raise Unsupported("import of dotted package name")
                continue
            top = name if a.asname else name.split(".")[0]
            self.mut(fr).vars[a.asname or top] = Lib(top)

    def repo_module(self, name):
        self.load(name)
        return RepoModule(name)

    def s_ImportFrom(self, st, fr):
        mod = st.module or ""
        for a in st.names:
            nm = a.asname or a.name
            if mod == PKG or (st.level and not mod):
                v = self.repo_module(PKG + "." + a.name)
            elif mod.startswith(PKG + "."):
                m = self.get(self.load(mod))
                if a.name not in m.vars:
                    raise PyRaise("ImportError")
                v = m.vars[a.name]
            else:
                full = mod + "." + a.name
                v = self.consts[full](self) if full in self.consts else Lib(full)
            self.mut(fr).vars[nm] = v

    def s_With(self, st, fr):
        for item in st.items:
            v = self.eval(item.context_expr, fr)
            if hasattr(v, "enter_model"):
                v = v.enter_model(self)
            elif isinstance(v, Ref) and isinstance(self.get(v), PyObj):
                pass
            else:
                raise Unsupported("with statement")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        self.exec_block(st.body, fr)

    def s_Try(self, st, fr):
        try:
            self.exec_block(st.body, fr)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is not None:
                    t = self.eval(h.type, fr)
                    ts = t if isinstance(t, tuple) else (t,)
                    names = [x.name.split(".")[-1] for x in ts if isinstance(x, Lib)]
                if h.type is None or e.typ in names or "Exception" in names or "BaseException" in names:
                    if h.name:
                        self.mut(fr).vars[h.name] = Opaque("exception")
                    self.exec_block(h.body, fr)
                    break
            else:
                if st.finalbody:
                    self.exec_block(st.finalbody, fr)
                raise
        else:
            self.exec_block(st.orelse, fr)
        self.exec_block(st.finalbody, fr)

    def s_If(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        self.branch(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr),
                    all(self._is_print(x) or self._is_set(x) for x in st.body + st.orelse)
                    and any(self._is_print(x) for x in st.body))

    @staticmethod
    def _is_set(x):
        return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)

    @staticmethod
    def _is_print(x):
        return isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) \
            and isinstance(x.value.func, ast.Name) and x.value.func.id == "print"

    # merging branch -------------------------------------------------
    def is_scalar_cond(self, c):
        """conjunction/negation of scalar conditions only: both outcomes are kept in one state when possible"""
        st = [c]
        while st:
            x = st.pop()
            if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
                st.extend(x.children())
            elif sc._is_cond(x):
                pass
            else:
                return False
        return True

    def branch(self, c, A, B, merge=False):
        if isinstance(c, bool):
            return A() if c else B()
        c = z3.simplify(c)
        k = self.known(c) if not self.is_scalar_cond(c) else self.known(c, 1000)
        if k is not None:
            return A() if k else B()
        if merge or self.merge_all or self.is_scalar_cond(c):
            if self.try_merge(c, A, B):
                return None
        if self.choose([c, z3.Not(c)]) == 0:
            return A()
        return B()

    def try_merge(self, c, A, B):
        snap = self.save()
        base = len(self.pc)

        def under(cond, t):
            def run():
                self.assume(cond, "d")
                return t()
            return run

        try:
            ra = self.explore(under(c, A))
            rb = self.explore(under(z3.Not(c), B))
        except Unsupported:
            self.restore(snap)
            raise
        if any(r.kind != "ok" for r in ra + rb):
            self.restore(snap)
            return False
        rs = ra + rb
        if not rs:
            raise Infeasible()
        # fold the paths pairwise
        cur = rs[-1]
        heap, facts = cur.snap[0], self._path_facts(cur)
        ok = True
        for r in reversed(rs[:-1]):
            facts += self._path_facts(r)
            m = self.merge_heaps(r.cond(), r.snap[0], heap, snap[0])
            if m is None:
                ok = False
                break
            heap = m
        self.restore(snap)
        if not ok:
            return False
        self.heap = dict(heap)
        self.tok = object()
        for f in facts:
            self.assume(f)
        return True

    @staticmethod
    def _path_facts(r):
        out = []
        ds = []
        for e, k in r.pc:
            if k == "d":
                ds.append(e)
            else:
                out.append(z3.Implies(z3.And(*ds), e) if ds else e)
        return out

    def merge_heaps(self, c, ha, hb, h0):
        """heap equal to ha under c and hb otherwise, or None"""
        out = dict(hb)
        for oid, oa in sorted(ha.items() - hb.items(), key=lambda t: t[0]):
            ob = hb.get(oid)
            if ob is None:
                if oid in h0:
                    return None
                out[oid] = oa
                continue
            if oid not in h0:
                # allocated in both branches under the same number: clash
                if type(oa) is type(ob):
                    pass
                else:
                    return None
            m = self.merge_obj(c, oa, ob)
            if m is None:
                return None
            m.tok = object()
            out[oid] = m
        return out

    def merge_obj(self, c, a, b):
        if type(a) is not type(b):
            if isinstance(a, DictObj) and isinstance(b, MapObj) or isinstance(a, MapObj) and isinstance(b, DictObj):
                d = a if isinstance(a, DictObj) else b
                if d.d:
                    return None
                m = a if isinstance(a, MapObj) else b
                e = empty_map(m.keys, m.kind)
                a, b = (e, m) if d is a else (m, e)
            else:
                return None
        if isinstance(a, FrameObj):
            vars = {}
            for k in set(a.vars) | set(b.vars):
                if k in a.vars and k in b.vars:
                    va, vb = a.vars[k], b.vars[k]
                    if va is vb:
                        v = va
                    elif lazy_num(self, va) and lazy_num(self, vb):
                        v = LazyIte(c, va, vb)
                    else:
                        v = self.merge_val(c, force(va), force(vb))
                    if v is NOMERGE:
                        v = Poison("differs between branches")
                    vars[k] = v
                else:
                    vars[k] = Poison("bound in one branch only")
            return FrameObj(vars, a.module, a.parent, a.func)
        if isinstance(a, ListObj):
            if a.base is not b.base or len(a.items) != len(b.items):
                return None
            items = [self.merge_val(c, x, y) for x, y in zip(a.items, b.items)]
            if any(x is NOMERGE for x in items):
                return None
            return ListObj(items, a.base)
        if isinstance(a, DictObj):
            if a.default is not b.default:
                return None
            d = {}
            keys = list(b.d)
            keys += [k for k in a.d if k not in b.d]
            for k in keys:
                ea, eb = a.d.get(k), b.d.get(k)
                if ea is eb:
                    d[k] = ea
                    continue
                if ea is None:
                    d[k] = (_and(z3.Not(c), eb[0]), eb[1], _maskv(_and(z3.Not(c), eb[0]), eb[2]))
                elif eb is None:
                    d[k] = (_and(c, ea[0]), ea[1], _maskv(_and(c, ea[0]), ea[2]))
                else:
                    v = self.merge_val(c, ea[2], eb[2])
                    if v is NOMERGE:
                        return None
                    d[k] = (_ite(c, ea[0], eb[0]), ea[1], v)
            return DictObj(d, a.default)
        if isinstance(a, NdObj):
            if a.a.shape != b.a.shape:
                return None
            out = _np.empty(a.a.shape, dtype=object)
            for i in _np.ndindex(a.a.shape):
                v = self.merge_val(c, a.a[i], b.a[i])
                if v is NOMERGE:
                    return None
                out[i] = v
            return NdObj(out, a.dtype)
        if isinstance(a, MapObj):
            if a.keys is not b.keys or a.kind != b.kind or a.kind != "scalar":
                return None
            m = MapObj(a.keys, lambda k: _ite(c, a.dom(k), b.dom(k)),
                       (lambda k: sc.ite(c, a.val(k), b.val(k))) if a.kind == "scalar" else
                       (lambda k: self.merge_val(c, a.val(k), b.val(k))),
                       a.kind, a.facts if a.facts == b.facts else ())
            m.writes = None
            if a.writes is not None and b.writes is not None:
                # what either branch may have written, and what the choice between them reads
                j = 0
                while j < len(a.writes) and j < len(b.writes) and a.writes[j] is b.writes[j]:
                    j += 1
                m.writes = a.writes[:j] + (("if", None, sc.ind(sc.as_z3(c))),) + tuple(
                    (op if op.endswith("?") or op == "if" else op + "?", k, v) for op, k, v in a.writes[j:] + b.writes[j:])
            return m
        if isinstance(a, BitArrObj):
            ba, bb = a.bits, b.bits
            if len(ba.p) == len(bb.p) == 1 and self._same(ba.p[0][1], bb.p[0][1]) and self._same(ba.p[0][2], bb.p[0][2]):
                return BitArrObj(Bits([(z3.If(c, ba.p[0][0], bb.p[0][0]), ba.p[0][1], ba.p[0][2])]))
            return None
        if isinstance(a, SymNdObj):
            if type(a) is not type(b) or len(a.shape) != len(b.shape) or a.view != b.view \
                    or not all(self._same(x, y) for x, y in zip(a.shape, b.shape)):
                return None
            m = type(a)(a.shape, lambda ix: sc.ite(c, a.get(ix), b.get(ix)), a.dtype)
            if a.writes is not None and b.writes is not None:
                j = 0
                while j < len(a.writes) and j < len(b.writes) and a.writes[j] is b.writes[j]:
                    j += 1
                m.writes = a.writes[:j] + tuple((op, k, (bs, z3.And(d, w))) for d, ws in ((c, a.writes[j:]), (z3.Not(c), b.writes[j:]))
                                                for op, k, (bs, w) in ws)
            m.view, m.origin = a.view, a.origin
            return m
        if isinstance(a, SetObj):
            return a if a.d == b.d else None
        if isinstance(a, PyObj):
            if a.cls != b.cls or set(a.fields) != set(b.fields):
                return None
            f = {k: self.merge_val(c, a.fields[k], b.fields[k]) for k in a.fields}
            if any(v is NOMERGE for v in f.values()):
                return None
            return PyObj(a.cls, f)
        return None

    @staticmethod
    def _same(a, b):
        if smt.is_z3(a) and smt.is_z3(b):
            return a.eq(b)
        return not smt.is_z3(a) and not smt.is_z3(b) and a == b

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (Poison, Opaque)) or isinstance(b, (Poison, Opaque)):
            return Poison("differs between branches")
        if isinstance(a, Ref) or isinstance(b, Ref):
            return a if a == b else NOMERGE
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            return _ite(c, a, b)
        if self.is_intlike(a) and self.is_intlike(b):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            return z3.simplify(z3.If(c, smt_int(self.as_int(a)), smt_int(self.as_int(b))))
        if self.is_num(a) and self.is_num(b):
            return sc.ite(c, Scalar.of(a), Scalar.of(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            t = [self.merge_val(c, x, y) for x, y in zip(a, b)]
            return NOMERGE if any(x is NOMERGE for x in t) else tuple(t)
        if isinstance(a, (str, bytes, type(None))) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, (Lib, Func, RepoModule)) and a == b:
            return a
        if isinstance(a, Func) and isinstance(b, Func) and a.node is b.node and a.frame == b.frame:
            return a
        return NOMERGE

    # ------------------------------------------------------------ loops
    def s_While(self, st, fr):
        for h in self.while_hooks:
            r = h(self, st, fr)
            if r is not None:
                return r
        n = 0
        while True:
            c = self.truth(self.eval(st.test, fr))
            if not isinstance(c, bool):
                k = self.known(c)
                if k is None:
                    from .loops import while_loop
                    return while_loop(self, st, fr, n)
                c = k
            if not c:
                break
            n += 1
            if n > 5000:
                raise Unsupported("long while loop")
            try:
                self.exec_block(st.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(st.orelse, fr)

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        self.run_for(it, lambda v: self.assign(st.target, v, fr), lambda: self.exec_block(st.body, fr),
                     lambda: self.exec_block(st.orelse, fr), fr)

    def run_for(self, it, bind, body, orelse, fr):
        items = self.concrete_items(it)
        if items is None:
            from .loops import summarise
            return summarise(self, it, bind, body, orelse, fr)
        for pres, v in items:
            if pres is True:
                bind(v)
                try:
                    body()
                except BreakSig:
                    return
                except ContinueSig:
                    continue
            else:
                def one(v=v):
                    bind(v)
                    try:
                        body()
                    except ContinueSig:
                        pass
                try:
                    self.branch(pres, one, lambda: None, merge=True)
                except BreakSig:
                    return
        orelse()

    def concrete_items(self, it):
        """[(presence, value)] when the iterable has a concrete structure, else None"""
        if isinstance(it, tuple):
            return [(True, v) for v in it]
        if isinstance(it, str):
            return [(True, v) for v in it]
        if isinstance(it, range):
            return [(True, v) for v in it]
        if isinstance(it, PosTuple):
            if all(p[0] == "one" for p in it.parts):
                return [(True, p[1]) for p in it.parts]
            return None
        if isinstance(it, (SymSeq,)):
            if isinstance(it.length, int) and it.length <= 64:
                return [(True, it.get(z3.IntVal(i))) for i in range(it.length)]
            return None
        if isinstance(it, (SymComp, SymColl, BStr)) or hasattr(it, "collection_model"):
            return None
        if isinstance(it, Ref):
            o = self.get(it)
            if isinstance(o, ListObj):
                return None if o.base is not None else [(True, v) for v in o.items]
            if isinstance(o, DictObj):
                if unreadable(self, o):
                    raise Unsupported("contents of a store of actions")
                return [(e[0], e[1]) for e in o.d.values()]
            if isinstance(o, SetObj):
                return [(True, v) for v in o.d.values()]
            if isinstance(o, NdObj):
                from .nd import arr, mkview
                a = arr(self, it)
                return [(True, mkview(self, it, a[i].copy()) if isinstance(a[i], _np.ndarray) else a[i]) for i in range(a.shape[0])]
            if isinstance(o, SymNdObj) and len(o.shape) > 1 and isinstance(o.shape[0], int) and o.shape[0] <= 64:
                from .nd import nd_getitem
                return [(True, nd_getitem(self, it, i)) for i in range(o.shape[0])]
            if isinstance(o, (MapObj, SymSetObj, SymNdObj, BitArrObj)) or hasattr(o, "collection_obj"):
                return None
            if isinstance(o, PyObj) and o.cls == "iter":
                items = o.fields["items"]
                self.mut(it).fields["items"] = ()
                return [(True, v) for v in items]
            if isinstance(o, PyObj):
                return None
        if hasattr(it, "concrete_items"):
            return it.concrete_items(self)
        raise Unsupported("iteration over %r" % (it,))

    def nd_wrap(self, x, dtype):
        if isinstance(x, _np.ndarray):
            return self.alloc(NdObj(x.copy(), dtype))
        return x

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.mut(fr).vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=()):
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred target")
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise("ValueError")
            return v
        items = self.concrete_items(v)
        if items is None:
            if hasattr(v, "unpack_model"):
                return v.unpack_model(self, n)
            raise Unsupported("unpacking")
        if len(items) != n:
            raise PyRaise("ValueError")
        return [x for _, x in items]

    def setattr(self, obj, name, v):
        if isinstance(obj, Ref) and isinstance(self.get(obj), PyObj):
            self.mut(obj).fields[name] = v
            return
        raise Unsupported("attribute assignment")

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float) or isinstance(v, complex):
            return Scalar.of(v)
        return v

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            o = self.get(f)
            if name in o.vars:
                v = force(o.vars[name])
                if isinstance(v, Poison):
                    raise Unsupported("value of %s: %s" % (name, v.why))
                return v
            if o.parent is None:
                break
            f = o.parent
        # local variable that is not bound: treated as builtin only if it is one
        full = "builtins." + name
        if full in self.consts:
            return self.consts[full](self)
        if full in self.lib or name in _EXC or name in ("tuple", "int", "str", "list", "dict", "set", "float",
                                                       "complex", "bool", "bytes", "frozenset", "object", "print"):
            return Lib(full)
        if hasattr(builtins, name):
            raise Unsupported("builtin %s" % name)
        raise PyRaise("NameError", name)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items = self.concrete_items(self.eval(x.value, fr))
                if items is None:
                    raise Unsupported("starred symbolic")
                out += [v for _, v in items]
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        return self.alloc(ListObj(list(self.e_Tuple(e, fr))))

    def e_Set(self, e, fr):
        vs = self.e_Tuple(e, fr)
        return self.call(Lib("builtins.set"), [vs])

    def e_Dict(self, e, fr):
        d = self.alloc(DictObj(token=Token() if not e.keys else None))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(d, "update", [self.eval(v, fr)], {})
            else:
                kk = self.eval(k, fr)
                vv = self.eval(v, fr)
                self.setitem(d, kk, vv)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                try:
                    v = self.eval(x.value, fr)
                except Unsupported:
                    v = Opaque()
                spec = None
                if x.format_spec is not None:
                    spec = self.e_JoinedStr(x.format_spec, fr)
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    r = self.format_value(v, spec)
                    if isinstance(r, Opaque) and r.parts is None and isinstance(spec, (str, type(None))):
                        r = text([(v, spec or "")])
                    parts.append(r)
                elif isinstance(v, (str, BStr)):
                    parts.append(v)
                elif isinstance(v, int) and not isinstance(v, bool):
                    parts.append(str(v))
                else:
                    parts.append(v if isinstance(v, Opaque) else text([(v, "")]))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        if all(isinstance(p, (str, BStr)) for p in parts):
            r = ""
            for p in parts:
                r = self.binop(ast.Add(), r, p)
            return r
        if all(isinstance(p, str) or isinstance(p, Opaque) and p.parts is not None for p in parts):
            return text([y for p in parts for y in ([p] if isinstance(p, str) else p.parts)])
        return Opaque()

    def format_value(self, v, spec):
        m = self.lib.get("format_spec")
        if m:
            return m(self, v, spec)
        return Opaque()

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        c = z3.simplify(c)
        k = self.known(c)
        if k is not None:
            return self.eval(e.body if k else e.orelse, fr)
        # try to keep one value
        ra = self.explore(lambda: (self.assume(c, "d"), self.eval(e.body, fr))[1])
        rb = self.explore(lambda: (self.assume(z3.Not(c), "d"), self.eval(e.orelse, fr))[1])
        if len(ra) == 1 and len(rb) == 1 and ra[0].kind == rb[0].kind == "ok":
            v = self.merge_val(c, ra[0].value, rb[0].value)
            if v is not NOMERGE and not isinstance(v, Poison) and self._pure(ra[0]) and self._pure(rb[0]):
                for r in (ra[0], rb[0]):
                    for f in self._path_facts(r):
                        self.assume(f)
                return v
        if self.choose([c, z3.Not(c)]) == 0:
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def _pure(self, r):
        h = r.snap[0]
        return all(h.get(oid) is o for oid, o in self.heap.items()) and len(h) == len(self.heap)

    def e_BoolOp(self, e, fr):
        # value semantics; when everything is boolean and side-effect free use z3 connectives
        is_and = isinstance(e.op, ast.And)
        acc = []
        for i, x in enumerate(e.values):
            if acc:
                c = z3.simplify(z3.And(*acc) if is_and else z3.Not(z3.Or(*acc)))
                # evaluate the next operand under the assumption that it is reached
                rs = self.explore(lambda: (self.assume(c, "d"), self.eval(x, fr))[1])
                if not rs:
                    break   # never reached
                if len(rs) == 1 and rs[0].kind == "ok" and self._pure(rs[0]) and isinstance(
                        rs[0].value, (bool, z3.BoolRef)):
                    for f in self._path_facts(rs[0]):
                        self.assume(f)
                    v = rs[0].value
                else:
                    # fork on the operands so far
                    t = self.decide(c)
                    if not t:
                        return not is_and
                    acc = []
                    v = self.eval(x, fr)
            else:
                v = self.eval(x, fr)
            b = self.truth(v)
            if isinstance(b, bool):
                if b != is_and:
                    if acc:
                        return (False if is_and else True) if isinstance(v, bool) else v
                    return v
                if i == len(e.values) - 1 and not acc:
                    return v
                continue
            if not isinstance(v, z3.BoolRef):
                # numbers used as truth values: only supported when the value is not needed
                v = b
            acc.append(b)
        if not acc:
            return is_and
        r = z3.simplify(z3.And(*acc) if is_and else z3.Or(*acc))
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else z3.simplify(z3.Not(c))
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.USub):
            if isinstance(v, z3.BoolRef):
                v = self.as_int(v)
            if isinstance(v, (int, z3.ArithRef, Scalar)):
                return -v
            if isinstance(v, Ref):
                return self.binop(ast.Mult(), v, -1)
            if hasattr(v, "neg_model"):
                return v.neg_model(self)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, int):
                return ~v
            if isinstance(v, OneHot):
                return OneHot(v.k, not v.inverted)
            if isinstance(v, z3.ArithRef):
                return -v - 1
        raise Unsupported("unary operator on %r" % (v,))

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        from .libs import binop
        return binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(op, left, right)
            if isinstance(c, Ref):      # elementwise array comparison
                if len(e.ops) != 1:
                    raise Unsupported("chained array comparison")
                return c
            if not isinstance(c, (bool, z3.BoolRef)):
                if len(e.ops) == 1:
                    return c
                raise Unsupported("chained comparison")
            if c is False:
                return False
            if c is not True:
                acc.append(c)
            left = right
        if not acc:
            return True
        r = z3.simplify(z3.And(*acc)) if len(acc) > 1 else z3.simplify(acc[0])
        return True if z3.is_true(r) else False if z3.is_false(r) else r

    def compare(self, op, a, b):
        from .libs import compare
        return compare(self, op, a, b)

    def e_Call(self, e, fr):
        f = self.eval(e.func, fr)
        if isinstance(f, Lib) and f.name == "builtins.print":
            return self.do_print(e, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                items = self.concrete_items(v)
                if items is None:
                    raise Unsupported("starred argument")
                args += [y for _, y in items]
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                o = self.get(v)
                for ent in o.d.values():
                    kwargs[ent[1]] = ent[2]
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def do_print(self, e, fr):
        vals = []
        for x in e.args:
            try:
                vals.append(self.eval(x.value if isinstance(x, ast.Starred) else x, fr))
            except Unsupported as u:
                vals.append(Opaque())
        for k in e.keywords:
            self.eval(k.value, fr)
        if self.printed is not None:
            self.printed(self, vals)
        return None

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def getattr(self, obj, name):
        from .libs import getattribute
        return getattribute(self, obj, name)

    def e_Subscript(self, e, fr):
        obj = self.eval(e.value, fr)
        return self.getitem(obj, self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def getitem(self, obj, idx):
        from .libs import getitem
        return getitem(self, obj, idx)

    def setitem(self, obj, idx, v):
        from .libs import setitem
        return setitem(self, obj, idx, v)

    def method(self, obj, name, args, kwargs):
        from .libs import method
        return method(self, obj, name, args, kwargs)

    def vlen(self, v):
        from .libs import vlen
        return vlen(self, v)

    def e_Lambda(self, e, fr):
        f = Func(e, fr, self.get(fr).module, "<lambda>")
        f.defaults = [self.eval(d, fr) for d in e.args.defaults]
        f.kwdefaults = {}
        return f

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        self.mut(self.get(fr).vars["!yield"]).items.append(v)
        return None

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    # comprehensions --------------------------------------------------
    def comp(self, gens, elts, fr, sink):
        """run the comprehension with nested concrete loops; sink(values) is called per element"""
        sub = self.alloc(FrameObj({}, self.get(fr).module, fr, "<comp>"))

        def level(i):
            if i == len(gens):
                sink(*[self.eval(x, sub) for x in elts])
                return
            g = gens[i]
            it = self.eval(g.iter, sub if i else fr)

            def body():
                conds = list(g.ifs)

                def rest(j):
                    if j == len(conds):
                        level(i + 1)
                        return
                    c = self.truth(self.eval(conds[j], sub))
                    self.branch(c, lambda: rest(j + 1), lambda: None)
                rest(0)
            self.run_for(it, lambda v: self.assign(g.target, v, sub), body, lambda: None, sub)
        level(0)

    def e_ListComp(self, e, fr):
        r = self.alloc(ListObj([]))
        self.comp(e.generators, [e.elt], fr, lambda v: self.method(r, "append", [v], {}))
        return r

    def e_SetComp(self, e, fr):
        r = self.alloc(SetObj())
        self.comp(e.generators, [e.elt], fr, lambda v: self.method(r, "add", [v], {}))
        return r

    def e_DictComp(self, e, fr):
        r = self.alloc(DictObj())
        self.comp(e.generators, [e.key, e.value], fr, lambda k, v: self.setitem(r, k, v))
        return r

    def e_GeneratorExp(self, e, fr):
        r = self.e_ListComp(e, fr)
        o = self.get(r)
        if o.base is None:
            return tuple_iter(self, r)
        return r


class LazyIte:
    """number merged from two branches, computed when read (most merged locals are dead)"""
    __slots__ = ("c", "a", "b", "v")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.v = c, a, b, None


def force(v):
    if type(v) is not LazyIte:
        return v
    todo = [v]
    while todo:
        x = todo[-1]
        sub = [y for y in (x.a, x.b) if type(y) is LazyIte and y.v is None]
        if sub:
            todo += sub
            continue
        todo.pop()
        if x.v is None:
            a = x.a.v if type(x.a) is LazyIte else x.a
            b = x.b.v if type(x.b) is LazyIte else x.b
            x.v = sc.ite(x.c, Scalar.of(a), Scalar.of(b))
            x.a = x.b = None
    return v.v


def lazy_num(vm, v):
    return type(v) is LazyIte or isinstance(v, Scalar)


class _NoMerge:
    pass


NOMERGE = _NoMerge()

_EXC = {"Exception", "ValueError", "KeyError", "IndexError", "TypeError", "AssertionError", "AttributeError",
        "RuntimeError", "NotImplementedError", "ZeroDivisionError", "StopIteration", "BaseException",
        "ArithmeticError", "LookupError", "FileNotFoundError", "OSError", "Warning", "UserWarning"}


def tuple_iter(vm, ref):
    o = vm.get(ref)
    if o.base is not None:
        from .libs import list_seq
        s = list_seq(vm, o)
        return SymSeq(s.length, s.get, "iter", s.tag, s.facts)
    return vm.alloc(PyObj("iter", {"items": tuple(o.items)}))


def smt_int(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x


def nbytes_bits(vm, n):
    """8 * ceil(n/8)"""
    if isinstance(n, int):
        return 8 * ((n + 7) // 8)
    return 8 * ((n + 7) / 8)


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    r = z3.simplify(z3.And(a, b))
    return r


def _ite(c, a, b):
    if a is True and b is True:
        return True
    if a is False and b is False:
        return False
    r = z3.simplify(z3.If(c, sc.as_z3(a), sc.as_z3(b)))
    return True if z3.is_true(r) else False if z3.is_false(r) else r


def _maskv(p, v):
    """scalar entries that are conditionally present are stored zero-extended"""
    if isinstance(v, (Scalar, int, z3.ArithRef)) and not isinstance(v, bool):
        return sc.mask(p, Scalar.of(v))
    return v


def empty_map(keys, kind="scalar"):
    m = MapObj(keys, lambda k: False, lambda k: sc.SZERO, kind)
    m.writes = ()
    return m
