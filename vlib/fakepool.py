"""A stand-in for multiprocessing.Pool whose scheduling is decided by the harness.

Tasks really run (in this process).  `order` chooses the completion order, `assign` the worker
process each task runs in; worker processes are replaced after `maxtasksperchild` tasks, as the
real pool does.  Used both symbolically (choices are solver variables) and in replays."""
import os


class Result:
    def __init__(self, pool, idx):
        self.pool, self.idx = pool, idx

    def get(self, timeout=None):
        self.pool._run()
        ok, v = self.pool.values[self.idx]
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self.pool._run()

    def ready(self):
        self.pool._run()
        return True

    def successful(self):
        return self.pool.values[self.idx][0]


class FakePool:
    """factory attributes: hub (records), choose(n)->index, pick_proc(n)->index"""

    def __init__(self, hub, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **k):
        self.hub = hub
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = processes if processes is not None else hub.default_processes
        self.maxtasks = maxtasksperchild
        self.init = (initializer, initargs)
        self.tasks, self.values, self.pending, self.done_order = [], {}, [], []
        self.procs = None
        self.closed = False
        hub.pools.append(self)

    # submission
    def _add(self, fn, args, kw, cb=None, ecb=None):
        if self.closed:
            raise ValueError("Pool not running")
        idx = len(self.tasks)
        self.tasks.append((fn, tuple(args), dict(kw), cb, ecb))
        self.pending.append(idx)
        return Result(self, idx)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._add(func, args, kwds, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self._add(func, args, kwds).get()

    def map(self, func, iterable, chunksize=None):
        rs = [self._add(func, (x,), {}) for x in iterable]
        return [r.get() for r in rs]

    def starmap(self, func, iterable, chunksize=None):
        rs = [self._add(func, x, {}) for x in iterable]
        return [r.get() for r in rs]

    class _Many:
        def __init__(self, rs):
            self.rs = rs

        def get(self, timeout=None):
            return [r.get() for r in self.rs]

        def wait(self, timeout=None):
            for r in self.rs:
                r.wait()

        def ready(self):
            return True

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._Many([self._add(func, (x,), {}) for x in iterable])

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._Many([self._add(func, x, {}) for x in iterable])

    def imap(self, func, iterable, chunksize=1):
        rs = [self._add(func, (x,), {}) for x in iterable]
        return iter([r.get() for r in rs])

    def imap_unordered(self, func, iterable, chunksize=1):
        rs = [self._add(func, (x,), {}) for x in iterable]
        self._run()
        return iter([rs[i].get() for i in self.done_order[-len(rs):]] if rs else [])

    # execution
    def _run(self):
        while self.pending:
            k = self.hub.choose(len(self.pending))
            idx = self.pending.pop(k)
            fn, args, kw, cb, ecb = self.tasks[idx]
            pid = self._process()
            self.hub.current = (pid, idx)
            self.hub.started.append((pid, idx))
            try:
                v = (True, fn(*args, **kw))
            except Exception as e:
                v = (False, e)
            self.hub.current = None
            self.values[idx] = v
            self.done_order.append(idx)
            if v[0] and cb:
                cb(v[1])
            if not v[0] and ecb:
                ecb(v[1])

    def _process(self):
        if self.procs is None:
            self.procs = [[self.hub.new_pid(), 0] for _ in range(self.n)]
        i = self.hub.pick_proc(self.n)
        p = self.procs[i]
        if self.maxtasks is not None and p[1] >= self.maxtasks:
            p = self.procs[i] = [self.hub.new_pid(), 0]
        if p[1] == 0 and self.init[0]:
            self.init[0](*self.init[1])
        p[1] += 1
        return p[0]

    def close(self):
        self._run()
        self.closed = True

    def join(self):
        self._run()

    def terminate(self):
        self.hub.abandoned += len(self.pending)
        self.pending = []
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class Hub:
    def __init__(self, choose=None, pick_proc=None, cpus=8):
        self.choose = choose or (lambda n: 0)
        self._pick = pick_proc
        self.pools, self.started = [], []
        self.current = None
        self.abandoned = 0
        self.default_processes = cpus
        self._pid = 1000
        self._rr = 0

    def pick_proc(self, n):
        if self._pick:
            return self._pick(n)
        self._rr += 1
        return (self._rr - 1) % n

    def new_pid(self):
        self._pid += 1
        return self._pid

    def getpid(self):
        return self.current[0] if self.current else os_getpid()

    def Pool(self, *a, **k):
        return FakePool(self, *a, **k)

    def __enter__(self):
        import multiprocessing
        self.saved = (multiprocessing.Pool, os.getpid, multiprocessing.cpu_count, os.cpu_count)
        multiprocessing.Pool = self.Pool
        os.getpid = self.getpid
        multiprocessing.cpu_count = lambda: self.default_processes
        os.cpu_count = lambda: self.default_processes
        return self

    def __exit__(self, *a):
        import multiprocessing
        multiprocessing.Pool, os.getpid, multiprocessing.cpu_count, os.cpu_count = self.saved


os_getpid = os.getpid
