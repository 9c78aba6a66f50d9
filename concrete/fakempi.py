"""Several ranks in one process: every rank gets its own copy of the package, a thread and a communicator
that implements the blocking operations with pickled copies of the data.  Used for R > 1 ranks."""
import importlib
import pickle
import sys
import threading

from mpi4py import MPI

TIMEOUT = 20.0


class Stuck(Exception):
    pass


class World:
    def __init__(self, size):
        self.size = size
        self.cv = threading.Condition()
        self.slots = {}
        self.mail = {}
        self.dead = False

    def exchange(self, rank, seq, kind, value):
        """All ranks contribute to collective number seq and see everybody's contribution."""
        with self.cv:
            s = self.slots.setdefault(seq, {"kind": kind, "v": {}, "out": 0})
            if s["kind"] != kind:
                self.dead = True
                self.cv.notify_all()
                raise Stuck(f"collective {seq}: {kind} on rank {rank}, {s['kind']} elsewhere")
            s["v"][rank] = value
            self.cv.notify_all()
            if not self.cv.wait_for(lambda: self.dead or len(s["v"]) == self.size, TIMEOUT) or self.dead:
                self.dead = True
                self.cv.notify_all()
                raise Stuck(f"rank {rank} waits in collective {seq} ({kind})")
            out = dict(s["v"])
            s["out"] += 1
            if s["out"] == self.size:
                del self.slots[seq]
            return out

    def kill(self):
        with self.cv:
            self.dead = True
            self.cv.notify_all()


class Comm:
    def __init__(self, world, rank):
        self.world, self.rank, self.size, self.seq = world, rank, world.size, 0

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _all(self, kind, obj):
        self.seq += 1
        return self.world.exchange(self.rank, self.seq, kind, obj)

    def barrier(self):
        self._all("barrier", None)

    Barrier = barrier

    def bcast(self, obj, root=0):
        out = self._all(f"bcast{root}", pickle.dumps(obj) if self.rank == root else None)
        return obj if self.rank == root else pickle.loads(out[root])

    def allgather(self, obj):
        out = self._all("allgather", pickle.dumps(obj))
        return [pickle.loads(out[r]) for r in range(self.size)]

    def gather(self, obj, root=0):
        out = self._all(f"gather{root}", pickle.dumps(obj))
        return [pickle.loads(out[r]) for r in range(self.size)] if self.rank == root else None

    def scatter(self, obj, root=0):
        out = self._all(f"scatter{root}", pickle.dumps(list(obj)) if self.rank == root else None)
        return pickle.loads(out[root])[self.rank]

    def alltoall(self, obj):
        out = self._all("alltoall", pickle.dumps(list(obj)))
        return [pickle.loads(out[r])[self.rank] for r in range(self.size)]

    @staticmethod
    def _fold(vals, op):
        name = {id(MPI.SUM): "sum", id(MPI.MAX): "max", id(MPI.MIN): "min", id(MPI.LOR): "or", id(MPI.LAND): "and"}.get(id(op))
        acc = vals[0]
        for v in vals[1:]:
            if name == "sum":
                acc = acc + v
            elif name == "max":
                acc = max(acc, v)
            elif name == "min":
                acc = min(acc, v)
            elif name == "or":
                acc = acc or v
            elif name == "and":
                acc = acc and v
            else:
                acc = op(acc, v)
        return acc

    def reduce(self, obj, op=MPI.SUM, root=0):
        out = self._all(f"reduce{root}", pickle.dumps(obj))
        return self._fold([pickle.loads(out[r]) for r in range(self.size)], op) if self.rank == root else None

    def allreduce(self, obj, op=MPI.SUM):
        out = self._all("allreduce", pickle.dumps(obj))
        return self._fold([pickle.loads(out[r]) for r in range(self.size)], op)

    def Bcast(self, buf, root=0):
        out = self._all(f"Bcast{root}", buf.copy() if self.rank == root else None)
        if self.rank != root:
            buf[...] = out[root]

    def Reduce(self, send, recv, op=MPI.SUM, root=0):
        out = self._all(f"Reduce{root}", send.copy())
        if self.rank == root:
            recv[...] = self._fold([out[r] for r in range(self.size)], op)

    def Allreduce(self, send, recv, op=MPI.SUM):
        out = self._all("Allreduce", (recv if send is MPI.IN_PLACE else send).copy())
        recv[...] = self._fold([out[r] for r in range(self.size)], op)

    def Allgather(self, send, recv):
        import numpy as np

        out = self._all("Allgather", send.copy())
        recv[...] = np.concatenate([out[r].ravel() for r in range(self.size)]).reshape(recv.shape)

    def send(self, obj, dest, tag=0):
        with self.world.cv:
            self.world.mail.setdefault((self.rank, dest), []).append((tag, pickle.dumps(obj)))
            self.world.cv.notify_all()

    isend = send

    def recv(self, buf=None, source=MPI.ANY_SOURCE, tag=MPI.ANY_TAG, status=None):
        def find():
            for (s, d), box in self.world.mail.items():
                if d != self.rank or (source != MPI.ANY_SOURCE and s != source):
                    continue
                for k, (t, _) in enumerate(box):
                    if tag == MPI.ANY_TAG or t == tag:
                        return (s, d), k
            return None

        with self.world.cv:
            if not self.world.cv.wait_for(lambda: self.world.dead or find(), TIMEOUT) or self.world.dead:
                self.world.dead = True
                self.world.cv.notify_all()
                raise Stuck(f"rank {self.rank} waits for a message")
            key, k = find()
            return pickle.loads(self.world.mail[key].pop(k)[1])


class Package:
    pass


_cache = {}


def _load(size):
    """size copies of the package, imported with a stand-in for COMM_WORLD."""
    saved = {k: v for k, v in sys.modules.items() if k == "impurityModel" or k.startswith("impurityModel.")}
    real = MPI.COMM_WORLD
    copies = []
    try:
        for r in range(size):
            for k in list(sys.modules):
                if k == "impurityModel" or k.startswith("impurityModel."):
                    del sys.modules[k]
            c = Comm(World(size), r)
            MPI.COMM_WORLD = c
            p = Package()
            p.comm = c
            p.finite = importlib.import_module("impurityModel.ed.finite")
            p.spectra = importlib.import_module("impurityModel.ed.spectra")
            p.mpi_comm = importlib.import_module("impurityModel.ed.mpi_comm")
            copies.append(p)
    finally:
        MPI.COMM_WORLD = real
        for k in list(sys.modules):
            if k == "impurityModel" or k.startswith("impurityModel."):
                del sys.modules[k]
        sys.modules.update(saved)
    return copies


def run(size, f, timeout=TIMEOUT):
    """[f(package of rank r, r) for all ranks], run concurrently.  Raises the first error."""
    if size not in _cache:
        _cache[size] = _load(size)
    copies = _cache[size]
    world = World(size)
    for r, p in enumerate(copies):
        p.comm.world, p.comm.seq = world, 0
    out, err = [None] * size, [None] * size

    def work(r):
        try:
            out[r] = f(copies[r], r)
        except BaseException as e:
            err[r] = e
            world.kill()

    ts = [threading.Thread(target=work, args=(r,), daemon=True) for r in range(size)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(timeout * 3)
    if any(t.is_alive() for t in ts):
        world.kill()
        raise Stuck("a rank does not finish")
    first = [e for e in err if e is not None and not isinstance(e, Stuck)] + [e for e in err if e is not None]
    if first:
        raise first[0]
    if any(world.mail.values()):
        raise Stuck("messages left over")
    return out
