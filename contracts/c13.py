"""C13: the matrices of the ranks add up to the serial matrix (the distributed Hamiltonian)."""
from .base import *
from .c10 import stored


def build(ck):
    ck.assume_note("the basis holds no product state twice")
    ck.assume_note("every rank runs the same code on the same basis; bcast hands every rank the root's object")
    ck.assume_note("remembered actions: each basis state's action is stored on exactly one rank, and leads into the basis (C11)")
    for mode, par, local in (("sparse", "serial", False), ("sparse", "H_build", True), ("sparse", "H_build", False)):
        stored(ck, "C13", mode, par, local)
    from . import c14
    for root in (True, False):
        c14.distributed(ck, "sparse", root, "C13")
