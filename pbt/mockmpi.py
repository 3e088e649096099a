"""A communicator connecting threads, with pickled messages (as mpi4py does) and timeouts, so that a lost message is a
detected hang."""
import pickle, queue, threading
import numpy as np


class Hang(AssertionError):
    pass


class World:
    def __init__(self, size, timeout=60.):
        self.size = size
        self.timeout = timeout
        self.q = {(a, b): queue.Queue() for a in range(size) for b in range(size)}
        self.slots = {}
        self.bar = threading.Barrier(size)
        self.failed = threading.Event()
        self.nmsg = 0


class Comm:
    def __init__(self, world, rank):
        self.w = world
        self.rank = rank
        self.size = world.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def send(self, obj, dest, tag=0):
        self.w.nmsg += 1
        self.w.q[self.rank, dest].put(pickle.dumps(obj))

    def recv(self, source=0, tag=0, status=None):
        import time
        t = time.time() + self.w.timeout
        while True:
            try:
                return pickle.loads(self.w.q[source, self.rank].get(timeout=0.25))
            except queue.Empty:
                if self.w.failed.is_set():
                    raise Hang("another rank failed")
                if time.time() > t:
                    raise Hang("rank %d waits for a message from rank %d that never arrives" % (self.rank, source))

    def Barrier(self):
        try:
            self.w.bar.wait(self.w.timeout)
        except threading.BrokenBarrierError:
            raise Hang("rank %d: the other ranks never reach the barrier" % self.rank)

    def bcast(self, obj, root=0):
        if self.rank == root:
            self.w.slots["b"] = pickle.dumps(obj)
        self.Barrier()
        r = pickle.loads(self.w.slots["b"])
        self.Barrier()
        return r

    def allreduce(self, x, op=None):
        self.w.slots[self.rank] = pickle.dumps(x)
        self.Barrier()
        r = sum(pickle.loads(self.w.slots[i]) for i in range(self.size))
        self.Barrier()
        return r

    def Allreduce(self, sendbuf, recvbuf, op=None):
        # sendbuf is MPI.IN_PLACE
        self.w.slots[self.rank] = recvbuf.copy()
        self.Barrier()
        s = self.w.slots[0].copy()
        for i in range(1, self.size):
            if self.w.slots[i].shape != s.shape:
                raise AssertionError("Allreduce called with different shapes on different ranks")
            s += self.w.slots[i]
        self.Barrier()
        recvbuf[...] = s
        self.Barrier()


def run(size, fn, timeout=60.):
    """Call fn(rank, comm) on every rank; returns the list of results or raises the first error."""
    w = World(size, timeout)
    out = [None] * size
    err = [None] * size

    def body(r):
        try:
            out[r] = fn(r, Comm(w, r))
        except BaseException as e:
            err[r] = e
            w.failed.set()
            w.bar.abort()
    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in ts: t.start()
    for t in ts: t.join(timeout * 3)
    if any(t.is_alive() for t in ts):
        raise Hang("a rank never finishes")
    for pref in (False, True):
        for e in err:
            if e is not None and isinstance(e, Hang) == pref:
                raise e
    return out, w
