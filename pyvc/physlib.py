"""Library contracts: sympy's Gaunt coefficients, MPI communicator attributes."""
from fractions import Fraction
import z3

from . import smt
from . import scalar as sc
from .scalar import Scalar
from .num import Num
from .values import *
from .libs import lib, CONSTS


@lib("sympy.physics.wigner.gaunt")
def _gaunt(vm, a, k):
    """int Y_l1m1 Y_l2m2 Y_l3m3, exact (the precision argument is dropped: machine arithmetic is taken as exact)"""
    from contracts.opalg import w3j
    from .num import squarefree
    k = {x: y for x, y in k.items() if x != "prec"}
    if k or len(a) not in (6, 7) or not all(isinstance(x, int) for x in a[:6]):
        raise Unsupported("gaunt with symbolic arguments")
    l1, l2, l3, m1, m2, m3 = a[:6]
    if min(l1, l2, l3) < 0:
        from .interp import PyRaise
        raise PyRaise("ValueError")
    c = w3j(l1, l2, l3, 0, 0, 0) * w3j(l1, l2, l3, m1, m2, m3)
    s, r = squarefree((2 * l1 + 1) * (2 * l2 + 1) * (2 * l3 + 1))
    # sqrt(../(4 pi)) = sqrt(r) s / (2 sqrt(pi))
    return Scalar.of(c * Num({(r, 0, -1): Fraction(s, 2)}))


def _rank(vm):
    if getattr(vm, "rank", None) is None:
        vm.rank, vm.ranks = smt.fresh_int("rank"), smt.fresh_int("ranks")
        vm.assume(z3.And(vm.rank >= 0, vm.rank < vm.ranks))
    return vm.rank


def _ranks(vm):
    _rank(vm)
    return vm.ranks


CONSTS["mpi4py.MPI.COMM_WORLD.rank"] = _rank
CONSTS["mpi4py.MPI.COMM_WORLD.size"] = _ranks


# ---------------------------------------------------------------- files
class FileHandle:
    """open file whose content is a contract-defined object: vm.files[name] = (format, value)"""

    def __init__(self, fmt, value, mode):
        self.fmt, self.value, self.mode = fmt, value, mode

    def enter_model(self, vm):
        return self

    def method_model(self, vm, name, args, kw):
        if name == "read" and not args:
            return FileText(self.fmt, self.value)
        if name == "close":
            return None
        raise Unsupported("file method %s" % name)

    def attr_model(self, vm, name):
        return NotImplemented


class FileText(Opaque):
    """whole content of such a file"""

    def __init__(self, fmt, value):
        Opaque.__init__(self, "file content")
        self.fmt, self.value = fmt, value


@lib("builtins.open")
def _open(vm, a, k):
    name = a[0] if a else k.get("file")
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    if not isinstance(name, str) or name not in getattr(vm, "files", {}) or mode not in ("r", "rb", "rt"):
        raise Unsupported("open(%r, %r)" % (name, mode))
    return FileHandle(vm.files[name][0], vm.files[name][1], mode)


def _content(vm, v, fmts):
    if isinstance(v, (FileHandle, FileText)) and v.fmt in fmts:
        return vm.alloc(vm.get(v.value).clone()) if isinstance(v.value, Ref) else v.value
    raise Unsupported("content of %r" % (v,))


@lib("json.loads")
def _loads(vm, a, k):
    if isinstance(a[0], FileText) and not k:
        return _content(vm, a[0], ("json",))
    raise Unsupported("json.loads")


@lib("json.load")
def _load(vm, a, k):
    if isinstance(a[0], FileHandle) and not k:
        return _content(vm, a[0], ("json",))
    raise Unsupported("json.load")


@lib("pickle.load", "pickle.loads")
def _pload(vm, a, k):
    return _content(vm, a[0], ("pickle",))
