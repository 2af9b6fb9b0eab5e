"""An in-memory MPI whose ranks are threads that run one at a time, in an order chosen by a seeded scheduler.

Messages are pickled, matched by (source, tag) without overtaking, and every operation is recorded.
A schedule in which nobody can run is a deadlock and ends every rank with Deadlock."""
import pickle
import threading
import types

ANY_TAG = -1
ANY_SOURCE = -2


class Deadlock(BaseException):
    pass


class Status:
    def __init__(self):
        self.source = -1
        self.tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Net:
    """Scheduler, mailboxes and trace shared by all ranks."""

    def __init__(self, size, rng, delay=0.5):
        self.size, self.rng, self.delay = size, rng, delay
        self.box = {r: [] for r in range(size)}      # messages in flight to r: (source, tag, bytes)
        self.trace = []
        self.cv = threading.Condition()
        self.turn = None
        self.state = {}
        self.dead = False
        self.errors = {}
        self.switches = 0

    # --- scheduling
    def _runnable(self):
        return sorted(r for r, p in self.state.items() if p is None or p())

    def _pick(self):
        c = self._runnable()
        if not c:
            if self.state:
                self.dead = True
            self.turn = None
        else:
            self.turn = c[int(self.rng.integers(len(c)))]
        self.switches += 1
        self.cv.notify_all()

    def wait(self, rank, pred=None):
        """Give up the processor until it is our turn again (and pred holds)."""
        with self.cv:
            self.state[rank] = pred
            self._pick()
            while self.turn != rank:
                if self.dead:
                    raise Deadlock()
                self.cv.wait(30)
            self.state[rank] = None

    def run(self, fns):
        def body(rank):
            try:
                with self.cv:
                    while self.turn != rank:
                        if self.dead:
                            raise Deadlock()
                        self.cv.wait(30)
                fns[rank](Comm(self, rank))
            except BaseException as e:
                self.errors[rank] = e
                import traceback
                self.trace.append(("error", rank, repr(e), traceback.format_exc()))
            finally:
                with self.cv:
                    self.state.pop(rank, None)
                    self._pick()
        ths = [threading.Thread(target=body, args=(r,), daemon=True) for r in fns]
        with self.cv:
            self.state = {r: None for r in fns}
        for t in ths:
            t.start()
        with self.cv:
            self._pick()
        for t in ths:
            t.join(300)
        return not any(t.is_alive() for t in ths)

    # --- messages
    def find(self, dest, source, tag):
        for k, m in enumerate(self.box[dest]):
            if source in (ANY_SOURCE, m[0]) and tag in (ANY_TAG, m[1]):
                return k
        return None


class Handle:
    def __init__(self, comm, source, tag):
        self.comm, self.source, self.tag, self.done = comm, source, tag, False

    def here(self):
        return self.comm.net.find(self.comm.rank, self.source, self.tag) is not None

    def take(self, status=None):
        net = self.comm.net
        k = net.find(self.comm.rank, self.source, self.tag)
        s, t, b = net.box[self.comm.rank].pop(k)
        self.done = True
        if status is not None:
            status.source, status.tag = s, t
        obj = pickle.loads(b)
        net.trace.append(("collect", self.comm.rank, s, t, obj))
        return obj

    def wait(self, status=None):
        self.comm.net.wait(self.comm.rank, self.here)
        return self.take(status)

    def test(self, status=None):
        self.comm.net.wait(self.comm.rank)
        return (True, self.take(status)) if self.here() and self.comm.net.rng.random() > self.comm.net.delay else (False, None)


class Request:
    @staticmethod
    def waitall(handles, statuses=None):
        statuses = statuses or [None] * len(handles)
        return [h.wait(s) for h, s in zip(handles, statuses)]

    @staticmethod
    def waitany(handles, status=None):
        net = handles[0].comm.net
        net.wait(handles[0].comm.rank, lambda: any(h.here() for h in handles))
        ready = [k for k, h in enumerate(handles) if h.here()]
        k = ready[int(net.rng.integers(len(ready)))]
        return k, handles[k].take(status)

    @staticmethod
    def _some(handles, statuses, least):
        if not handles:
            return None, None
        comm = handles[0].comm
        net = comm.net
        net.wait(comm.rank, (lambda: any(h.here() for h in handles)) if least else None)
        ready = [k for k, h in enumerate(handles) if h.here()]
        keep = [k for k in ready if net.rng.random() > net.delay]
        if least and not keep:
            keep = [ready[int(net.rng.integers(len(ready)))]]
        keep = [keep[j] for j in net.rng.permutation(len(keep))]
        # as in MPI, statuses are those of the completed requests, in their order
        return keep, [handles[k].take(statuses[j] if statuses else None) for j, k in enumerate(keep)]

    @staticmethod
    def waitsome(handles, statuses=None):
        return Request._some(handles, statuses, True)

    @staticmethod
    def testsome(handles, statuses=None):
        return Request._some(handles, statuses, False)


class Comm:
    def __init__(self, net, rank):
        self.net, self.rank = net, rank

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.net.size

    @property
    def size(self):
        return self.net.size

    def send(self, obj, dest, tag=0):
        if not (0 <= dest < self.net.size) or tag < 0:
            raise ValueError("invalid destination %r or tag %r" % (dest, tag))
        self.net.box[dest].append((self.rank, tag, pickle.dumps(obj)))
        self.net.trace.append(("send", self.rank, dest, tag, pickle.loads(pickle.dumps(obj))))
        self.net.wait(self.rank)

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        h = Handle(self, 0, 0)
        h.wait = lambda status=None: None
        h.test = lambda status=None: (True, None)
        return h

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        return Handle(self, source, tag)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        h = Handle(self, source, tag)
        self.net.wait(self.rank, h.here)
        k = self.net.find(self.rank, source, tag)
        s, t, b = self.net.box[self.rank].pop(k)
        if status is not None:
            status.source, status.tag = s, t
        obj = pickle.loads(b)
        self.net.trace.append(("recv", self.rank, s, t, obj))
        return obj


def module():
    """Something to use in place of mpi4py."""
    mpi = types.ModuleType("mpi4py.MPI")
    for k in ("ANY_TAG", "ANY_SOURCE", "Status", "Request"):
        setattr(mpi, k, globals()[k])
    pkg = types.ModuleType("mpi4py")
    pkg.MPI = mpi
    return pkg, mpi
