"""Splitting a simulation over worker processes (Scene.simulate with the process pool replaced by a schedulable stand-in)."""
from vlib.harness import Job
from vlib.fakepool import Hub

PROPERTY = "P20"
PRELOAD = ("pvtrace.scene.scene", "pvtrace.light.event", "pvtrace.light.ray", "pvtrace.algorithm.photon_tracer", "pvtrace.scene.node")
BOUNDS = {"split": "any ray count from 0 to 10^9 with 1 to 8 workers (thorough: 16), any completion order of the tasks for up to 3 workers, results "
                   "returned or queued",
          "trace": "every ray of up to 4 per task, histories up to 2 events, any seed"}
ASSUMPTIONS = ["the operating system's process pool is replaced by a stand-in that really runs every task, once, in any completion order",
               "two independent draws of a worker seed do not coincide",
               "the worker's random stream is identified by the seed given to numpy.random.seed and the number of draws taken since"]


class Batch:
    """stands for all the rays one emission call hands out"""

    def __init__(self, n):
        self.n = n


class World:
    """counts what was emitted and traced, under which random stream"""

    def __init__(self, H, concrete=False, steps=1):
        import numpy as np
        import pvtrace.scene.scene as ms
        from pvtrace.light.event import Event
        self.H, self.ms, self.np = H, ms, np
        self.stream, self.k = ("initial",), 0
        self.emissions, self.traced, self.draws = [], [], []
        self.task = None
        world = self

        class S(ms.Scene):
            def emit(self, num_rays):
                if concrete:
                    n = int(num_rays)
                    world.emissions.append((world.hub.current, n, world.stream))
                    for i in range(n):
                        world.k += 1
                        yield ("ray", world.stream, world.k)
                else:
                    world.emissions.append((world.hub.current, num_rays, world.stream))
                    yield Batch(num_rays)

        self.scene = S()

        def follow(scene, ray, *a, **k):
            out = []
            for r, e, m in step(scene, ray):
                out.append((r, e))
            return out

        def step(scene, ray, *a, **k):
            world.traced.append((ray, world.hub.current))
            yield ray, Event.GENERATE, {}
            for i in range(steps):
                world.k += 1
                yield ("ray", ray, world.stream, world.k), Event.EXIT, {"hit": "world", "container": "world", "adjacent": None}
        self.follow, self.step = follow, step

    def seed(self, s=None):
        self.stream, self.k = ("fresh",) if s is None else ("seed", s), 0

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        n = 1 if size is None else int(size)
        out = []
        for _ in range(n):
            v = self.H.int("draw%d" % (len(self.draws) + 1), low, None if high is None else high - 1)
            for d in self.draws:
                self.H.assume(self.H.Not(v == d[0]))
            self.draws.append((v, low, high))
            out.append(v)
        if size is None:
            return out[0]
        a = self.np.empty(n, dtype=object)
        for i, v in enumerate(out):
            a[i] = v
        return a

    def run(self, hub, **kw):
        self.hub = hub
        pt = self.ms.photon_tracer
        R = self.np.random
        saved = (pt.follow, pt.step_forward, R.seed, R.randint)
        pt.follow, pt.step_forward, R.seed, R.randint = self.follow, self.step, self.seed, self.randint
        import builtins
        pr = builtins.print
        builtins.print = lambda *a, **k: None
        try:
            with hub:
                return self.scene.simulate(**kw)
        finally:
            builtins.print = pr
            pt.follow, pt.step_forward, R.seed, R.randint = saved


class Q:
    def __init__(self, hub=None):
        self.items = []

    def put(self, x, *a, **k):
        self.items.append(x)

    put_nowait = put


def schedule(H, workers, free):
    """any completion order for small pools; first-come or last-come for large ones"""
    st = {"k": 0}
    if free:
        def choose(n):
            if n == 1:
                return 0
            st["k"] += 1
            return H.size("order%d" % st["k"], 0, n - 1)
    else:
        back = H.flag("backwards")

        def choose(n):
            return n - 1 if back else 0
    return choose


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def split(H, workers, queue, big=True):
    n = H.int("rays", 0, 10 ** 9)
    w = World(H)
    hub = Hub(schedule(H, workers, workers <= 3), cpus=2)
    q = Q() if queue else None
    try:
        res = w.run(hub, num_rays=n, workers=workers, seed=None, queue=q)
    except ZeroDivisionError:
        H.fail("any number of rays can be simulated")
        return
    H.check(total(e[1] for e in w.emissions) == n, "the workers together emit exactly the requested number of rays")
    for e in w.emissions:
        H.check(e[1] >= 0, "no worker is asked for a negative number of rays")
    H.check(len(w.traced) == len(w.emissions), "every emitted ray is traced exactly once")
    H.check(hub.abandoned == 0 and not any(p.pending for p in hub.pools), "every task is run before the simulation returns")
    if queue:
        got = [x[2] for x in q.items]
        H.check(sum(isinstance(x, Batch) for x in got) == len(w.traced), "every traced ray reaches the queue exactly once")
    else:
        got = [h[0][0] for h in res]
        H.check(len(got) == len(w.traced) and {id(g) for g in got} == {id(t[0]) for t in w.traced}, "every ray's history is returned exactly once")
        sub = {id(t[0]): (t[1][1] if t[1] else -1) for t in w.traced}
        if len(got) == len(w.traced):
            order = [sub.get(id(g), -2) for g in got]
            H.check(order == sorted(order), "results come back in task order whatever order the workers finish in")
    if len(w.emissions) > 1:
        H.cov(True, "work is split over several tasks")
        seeds = []
        for e in w.emissions:
            H.check(e[2][0] == "seed", "every worker's random stream is seeded before it emits rays")
            if e[2][0] == "seed":
                seeds.append(e[2][1])
        ds = [d[0] for d in w.draws]
        H.check(len(ds) >= 1, "the workers' seeds are drawn at random")
        for v, lo, hi in w.draws:
            H.check(hi - lo >= 2 ** 16, "the workers' seeds are drawn from a wide range")
        apart = [H.Or(ds[i] - ds[j] > 64, ds[j] - ds[i] > 64) for i in range(len(ds)) for j in range(i)]
        H.assume(H.And(*apart) if apart else True)
        for i in range(len(seeds)):
            for j in range(i):
                H.check(H.Not(seeds[i] == seeds[j]), "workers with different draws use different seeds")


def fixed_seed(H, workers, queue):
    """a caller's seed is used for the whole run, or refused when there are several workers"""
    n = H.int("rays", 0, 10 ** 9)
    s = H.int("seed", 0, 2 ** 31 - 2)
    w = World(H)
    hub = Hub(schedule(H, workers, False))
    q = Q() if queue else None
    try:
        w.run(hub, num_rays=n, workers=workers, seed=s, queue=q)
    except ValueError:
        H.check(workers > 1, "one worker accepts a seed")
        H.check(len(w.emissions) == 0, "nothing is traced when a seed is refused")
        return
    H.check(len(w.emissions) == 1, "a fixed seed is never shared by several workers")
    H.check(total(e[1] for e in w.emissions) == n, "all requested rays are emitted under the fixed seed")
    for e in w.emissions:
        H.check(e[2][0] == "seed" and (e[2][1] == s), "the caller's seed is the one used")


def default_workers(H, cpus):
    n = H.int("rays", 0, 10 ** 6)
    w = World(H)
    hub = Hub(schedule(H, cpus, False), cpus=cpus)
    w.run(hub, num_rays=n, workers=None, seed=None)
    H.check(total(e[1] for e in w.emissions) == n, "with the default number of workers all requested rays are emitted")
    H.check(len(w.emissions) <= cpus, "the default uses no more workers than processors")


def small(H, n, workers, queue, seeded=False):
    """concrete small runs: every ray of every task is traced, in order, and again the same for the same draws"""
    outs = []
    for rep in range(2):
        w = World(H, concrete=True, steps=2)
        w.k = 17 * rep
        hub = Hub(schedule(H, workers, workers <= 3)) if rep == 0 else Hub(lambda m: 0)
        q = Q() if queue else None
        s = H.int("seed", 0, 2 ** 31 - 2) if seeded else None
        res = w.run(hub, num_rays=n, workers=workers, seed=s, queue=q)
        H.check(sum(e[1] for e in w.emissions) == n and len(w.traced) == n, "every requested ray is emitted and traced once")
        if queue:
            runs = []
            seen = []
            for item in q.items:
                ray = item[2]
                root = ray if len(ray) == 3 else ray[1]
                if root not in seen:
                    seen.append(root)
                runs.append((seen.index(root), item))
            H.check(len(seen) == n and len(q.items) == 3 * n, "every event of every ray reaches the queue")
            ids = {}
            for r, item in runs:
                ids.setdefault(r, set()).add(item[1])
            H.check(all(len(v) == 1 for v in ids.values()), "one ray's events carry one index")
            outs.append([i[2] for i in q.items])
        else:
            H.check(len(res) == n and all(len(h) == 3 for h in res), "every ray's complete history is returned")
            outs.append(res)
    if not queue and (seeded or 1 < workers <= n):
        a, b = outs
        if len(a) == len(b):
            for x, y in zip(a, b):
                H.check(same(H, x, y), "the same seeds give the same results in the same order")


def same(H, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return H.And(*[same(H, x, y) for x, y in zip(a, b)])
    r = a == b
    return r


JOBS = []
for wk in (1, 2, 3, 4, 5, 6, 7, 8):
    for qn in (False, True):
        JOBS.append(Job("split/%d/%s" % (wk, "queue" if qn else "list"), split, workers=wk, queue=qn))
for wk in (9, 12, 16):
    for qn in (False, True):
        JOBS.append(Job("split/%d/%s" % (wk, "queue" if qn else "list"), split, workers=wk, queue=qn, tiers=("thorough",)))
for wk in (1, 2, 5):
    for qn in (False, True):
        JOBS.append(Job("seed/%d/%s" % (wk, "queue" if qn else "list"), fixed_seed, workers=wk, queue=qn))
for c in (1, 2, 3, 8):
    JOBS.append(Job("default/%d" % c, default_workers, cpus=c))
for n, wk in ((0, 1), (3, 1), (4, 2), (5, 2), (2, 3), (7, 3)):
    for qn in (False, True):
        JOBS.append(Job("trace/%d-%d/%s" % (n, wk, "queue" if qn else "list"), small, n=n, workers=wk, queue=qn))
JOBS.append(Job("trace/seeded", small, n=3, workers=1, queue=False, seeded=True))
