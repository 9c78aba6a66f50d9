"""Values and heap objects of the symbolic interpreter."""
import z3
from . import smt
from .scalar import Scalar


class Unsupported(Exception):
    """construct outside the verifier's reach: the obligation stays undecided"""


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return "<ref %d>" % self.oid


class Poison:
    """value whose content is not known; using it is out of reach"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<poison %s>" % self.why


class Opaque:
    """unknown text (formatted output)"""

    def __init__(self, what="str"):
        self.what = what

    parts = None         # text made of literal pieces and formatted values: [str | (value, format)]

    def __repr__(self):
        return "<opaque %s>" % self.what


def text(parts):
    t = Opaque("text")
    t.parts = parts
    return t


class Lib:
    """library object, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<lib %s>" % self.name


class RepoModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    def __init__(self, node, frame, module, name, cls=None):
        self.node, self.frame, self.module, self.name = node, frame, module, name
        self.defaults = None
        self.kwdefaults = None

    def __repr__(self):
        return "<function %s.%s>" % (self.module, self.name)


class Builtin:
    """python callable model: f(vm, args, kwargs)"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return "<builtin %s>" % self.name


class BoundMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SliceVal:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


# ---------------------------------------------------------------- symbolic sequences

class SymSeq:
    """immutable ordered sequence of symbolic length: element k is get(k); kind tuple/list/str/range/iter"""

    def __init__(self, length, get, kind="list", tag=None, facts=None):
        self.length, self.get, self.kind, self.tag = length, get, kind, tag
        self.facts = facts          # facts(k) -> list of z3 facts about element k

    def __repr__(self):
        return "<symseq %s len %s>" % (self.kind, self.length)


class SymComp:
    """sequence built by nested loops: for b1 (cond) for b2 (cond) ...: elem"""

    def __init__(self, binders, cond, elem, kind="list", ident=None, facts=None):
        self.binders, self.cond, self.elem, self.kind = binders, cond, elem, kind
        self.ident = ident
        self.facts = facts          # facts(binders): what holds for every element


class SymColl:
    """unordered collection: one element per value of binder x with dom(x) (each exactly once)"""

    def __init__(self, sort, dom, elem, label="coll", facts=None, tag=None):
        self.sort, self.dom, self.elem, self.label, self.facts, self.tag = sort, dom, elem, label, facts, tag


class Bits:
    """sequence of booleans made of pieces (array, offset, length); element p of a piece is arr[off+p]"""

    def __init__(self, pieces):
        self.p = [x for x in pieces if not (isinstance(x[2], int) and x[2] == 0)]

    @property
    def length(self):
        r = 0
        for _, _, n in self.p:
            r = r + n
        return z3.simplify(r) if smt.is_z3(r) else r

    def bit(self, k):
        """boolean at position k (0 <= k < length assumed)"""
        if not self.p:
            return z3.BoolVal(False)
        # build from the last piece
        starts = []
        c = 0
        for a, o, n in self.p:
            starts.append(c)
            c = c + n
        a, o, n = self.p[-1]
        r = z3.Select(a, o + k - starts[-1])
        for (a, o, n), s in list(zip(self.p, starts))[-2::-1]:
            r = z3.If(k < s + n, z3.Select(a, o + k - s), r)
        return r

    def count(self):
        r = z3.IntVal(0)
        for a, o, n in self.p:
            r = r + (smt.PC(a, _z(o + n)) - smt.PC(a, _z(o)))
        return r

    def __repr__(self):
        return "Bits(%s)" % (", ".join("(%s,%s,%s)" % x for x in self.p))


def _z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class BStr:
    """str of characters '0'/'1'"""

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return "BStr(%r)" % self.bits


class BBytes:
    """bytes; bits has length 8*k"""

    def __init__(self, bits, n=None):
        self.bits = bits

    def __repr__(self):
        return "BBytes(%r)" % self.bits


class BInt:
    """nonnegative int given by bits, most significant first"""

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return "BInt(%r)" % self.bits


class BinText:
    """result of bin(): '0b' + digits"""

    def __init__(self, bits):
        self.bits = bits


class OneHot:
    """1 << k, or its complement"""

    def __init__(self, k, inverted=False):
        self.k, self.inverted = k, inverted


class PosTuple:
    """tuple of integers: concatenation of parts
    ('set', arr, n, rlo, rhi): positions p in [0,n) with arr[p], rank PC(arr,p) in [rlo,rhi), ascending
    ('one', i)"""

    def __init__(self, parts, kind="tuple"):
        self.parts = parts
        self.kind = kind

    @staticmethod
    def full(arr, n, kind="tuple"):
        return PosTuple([("set", arr, n, z3.IntVal(0), smt.PC(arr, _z(n)))], kind)

    def __repr__(self):
        return "PosTuple(%s)" % (self.parts,)


class StrAcc:
    """havocked string to which characters have been appended in a loop body"""

    def __init__(self, sym, added):
        self.sym, self.added = sym, added


# ---------------------------------------------------------------- heap objects

class Obj:
    tok = None
    readonly = False      # copy of an element of a symbolic collection: changing it would be lost

    def clone(self):
        raise NotImplementedError


class FrameObj(Obj):
    def __init__(self, vars, module, parent, func):
        self.vars, self.module, self.parent, self.func = vars, module, parent, func

    def clone(self):
        return FrameObj(dict(self.vars), self.module, self.parent, self.func)


class ListObj(Obj):
    """items: python list of values; or sym: SymSeq/SymComp/PosTuple base followed by items; or havocked base"""

    def __init__(self, items, base=None):
        self.items, self.base = items, base

    def clone(self):
        return ListObj(list(self.items), self.base)


class Token:
    """ghost identity of an empty dictionary made by a display: when it was made, what a contract has put into it"""

    def __init__(self):
        self.birth, self.owner = smt._fresh[0], None
        self.base, self.pairs = self, ()

    def at(self, pairs):
        """the dictionary made in the iteration given by pairs [(loop variable, value)]"""
        t = object.__new__(Token)
        t.base = self.base
        t.pairs = tuple((x, z3.substitute(v, *pairs)) for x, v in self.pairs) if self.pairs else tuple(pairs)
        return t

    def claim(self, family, idx):
        """all contents of this dictionary belong to (family, idx): False when that cannot be said"""
        b = self.base
        idx = tuple(z3.substitute(i, *[(v, x) for x, v in self.pairs]) if self.pairs else i for i in idx)
        if any(smt.birth(c) > b.birth for i in idx for c in constants(i)):
            return False
        if b.owner is None:
            b.owner = (family, idx)
        return b.owner[0] == family and len(b.owner[1]) == len(idx) and all(x.eq(y) for x, y in zip(b.owner[1], idx))


def constants(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return []
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return [e]
    return [c for k in e.children() for c in constants(k, seen)]


def unreadable(vm, o):
    """an empty-looking dictionary that contracts may have filled (ghost contents)"""
    return getattr(vm, "ghost_stores", False) and getattr(o, "token", None) is not None and not o.d


class DictObj(Obj):
    """concrete keys; entry = (presence, key, value)"""

    def __init__(self, d=None, default=None, token=None):
        self.d = d if d is not None else {}
        self.default = default
        self.token = token

    def clone(self):
        return DictObj(dict(self.d), self.default, self.token)


class MapObj(Obj):
    """symbolic keys.  dom(k): z3 Bool, val(k): value, zero outside dom for scalar maps.
    kind: 'scalar' | 'other'; sort: z3 sort of keys; wrap(k): key term -> value, unwrap(vm, value) -> term or None"""

    def __init__(self, keys, dom, val, kind="scalar", facts=(), name=None, writes=()):
        self.keys, self.dom, self.val, self.kind = keys, dom, val, kind
        self.facts = tuple(facts)
        self.name = name
        self.writes = writes      # log of (op, key, value) since the last havoc
        self.order = None         # for insertion ordered enumeration when known
        self.size = None

    def clone(self):
        m = MapObj(self.keys, self.dom, self.val, self.kind, self.facts, self.name, self.writes)
        m.order, m.size = self.order, self.size
        return m


class SetObj(Obj):
    def __init__(self, d=None, frozen=False):
        self.d = d if d is not None else {}
        self.frozen = frozen

    def clone(self):
        return SetObj(dict(self.d), self.frozen)


class SymSetObj(Obj):
    """symbolic set: dom(k)"""

    def __init__(self, keys, dom, facts=(), name=None):
        self.keys, self.dom, self.facts, self.name = keys, dom, tuple(facts), name

    def clone(self):
        s = SymSetObj(self.keys, self.dom, self.facts, self.name)
        s.bound = getattr(self, "bound", None)
        s.frozen = getattr(self, "frozen", False)
        return s


class BitArrObj(Obj):
    def __init__(self, bits):
        self.bits = bits

    def clone(self):
        return BitArrObj(self.bits)


class NdObj(Obj):
    """numpy array of concrete shape; a: numpy object array"""

    def __init__(self, a, dtype="complex"):
        self.a, self.dtype = a, dtype

    def clone(self):
        return NdObj(self.a.copy(), self.dtype)


class SymNdObj(Obj):
    """numpy array of symbolic shape: get(idx tuple) -> Scalar"""

    def __init__(self, shape, get, dtype="complex", tag=None, writes=None):
        # writes: entries written since the loop state was havocked [("set", index, (binders, condition))]; None: unknown
        self.shape, self.get, self.dtype, self.tag, self.writes = shape, get, dtype, tag, writes

    view = None       # (object, its contents) when the elements are shared with another array
    origin = None     # (reference, index) such a view was taken with

    def clone(self):
        r = type(self)(self.shape, self.get, self.dtype, self.tag, self.writes)
        r.view, r.origin = self.view, self.origin
        return r


class MaskedObj(Obj):
    """one-dimensional array of the selected elements of another (boolean index), in order: comp.elem for comp.cond"""

    def __init__(self, comp):
        self.comp = comp

    def clone(self):
        return MaskedObj(self.comp)

    def collection_obj(self, vm, ref):
        from .loops import collection
        return collection(vm, self.comp)

    def subst_obj(self, vm, pairs):
        from .loops import subst_val
        return MaskedObj(subst_val(vm, self.comp, pairs))


class PyObj(Obj):
    """contract-defined abstract object: cls name, fields dict"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def clone(self):
        return PyObj(self.cls, dict(self.fields))


class KeyKind:
    """how dictionary keys of a symbolic map are represented as z3 terms"""

    def __init__(self, name, sort, wrap, unwrap, valid):
        self.name, self.sort, self.wrap, self.unwrap, self.valid = name, sort, wrap, unwrap, valid


class CsrObj(SymNdObj):
    """sparse matrix (scipy.sparse): the same entries as a dense one, other operators"""
