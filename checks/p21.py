"""Writing simulation results to the database: the real simulate command, worker function, monitor thread and writers run
with the process pool, the inter-process queue and the thread scheduler replaced by stand-ins the solver schedules."""
import os, shutil, tempfile, contextlib, io
from vlib.harness import Job
from vlib.fakepool import Hub

PROPERTY = "P21"
PRELOAD = ("pvtrace.cli.main", "pvtrace.scene.scene", "pvtrace.light.ray", "pvtrace.light.event", "pvtrace.algorithm.photon_tracer")
BOUNDS = {"schedules": "1 to 3 worker tasks with any assignment of tasks to processes and any order of completion, any interleaving of the processes' messages, "
                       "any point of up to 3 preemptions between the simulating and the writing thread",
          "histories": "up to 4 rays of up to 4 events; every kind of event and surface metadata, any position, direction, wavelength, distance and time"}
ASSUMPTIONS = ["a process's own messages arrive in the order it sent them", "SQLite's INSERT and rowid behaviour is modelled by vlib/minisql.py (replays use "
               "SQLite itself)", "process identifiers are not reused during one run"]


class Step:
    """one event of a ray's history"""

    def __init__(self, ray, event, meta, end):
        self.ray, self.event, self.meta, self.end = ray, event, meta, end


def options():
    """(event, metadata, kept when only end rays are stored)"""
    o = [("GENERATE", None, True)]
    o += [("ABSORB", dict(component="dye", container="A"), False), ("EMIT", dict(component="dye", container="A", emit_method="kT"), False),
          ("SCATTER", dict(component="tio2", container="A", emit_method="kT"), False)]
    for ev in ("TRANSMIT", "REFLECT"):
        o.append((ev, dict(hit="A", container="world", adjacent="A", normal=True), True))
        o.append((ev, dict(hit="A", container="A", adjacent="world", normal=True), ev == "TRANSMIT"))
        o.append((ev, dict(hit="B", container="A", adjacent="B", normal=True), True))
        o.append((ev, dict(hit="B", container="B", adjacent=None, normal=True), ev == "TRANSMIT"))
    o += [("NONRADIATIVE", dict(component="bg", container="A"), True), ("REACT", dict(component="cat", container="A"), True),
          ("KILL", dict(maxsteps=1000, maxpathlength=1e9, container="A"), True), ("EXIT", dict(hit="world", container="world", adjacent=None), True)]
    return o


OPT = options()
MID = [k for k, o in enumerate(OPT) if o[0] not in ("GENERATE", "EXIT", "KILL", "NONRADIATIVE", "REACT")]
LAST = [k for k, o in enumerate(OPT) if o[0] in ("EXIT", "KILL", "NONRADIATIVE", "REACT")]


class Q:
    """the inter-process queue: per-process order kept, otherwise any interleaving"""

    def __init__(self, H, S, hub, maxsize=0):
        self.H, self.S, self.hub = H, S, hub
        self.buf = {}
        self.k = 0
        self.overflow = 0

    def put(self, x, block=True, timeout=None):
        pid = self.hub.current[0] if self.hub.current else 0
        self.buf.setdefault(pid, []).append(x)
        self.S.progress()
        self.S.point()

    def put_nowait(self, x):
        self.put(x)

    def empty(self):
        self.S.point()
        return not any(self.buf.values())

    def qsize(self):
        return sum(len(b) for b in self.buf.values())

    def get(self, block=True, timeout=None):
        from queue import Empty
        self.S.point()
        ready = [p for p, b in self.buf.items() if b]
        if not ready:
            self.S.block()
            ready = [p for p, b in self.buf.items() if b]
            if not ready:
                raise Empty()
        i = 0
        if len(ready) > 1:
            self.k += 1
            i = self.H.size("next%d" % self.k, 0, len(ready) - 1)
        self.S.progress()
        return self.buf[ready[i]].pop(0)

    def get_nowait(self):
        return self.get(False)


def make_rays(H, lens, Ray, Event, which):
    """the rays the scene emits and their histories"""
    rays = []
    for r, n in enumerate(lens):
        steps = []
        for s in range(n):
            tag = "r%ds%d" % (r, s)
            if which == "plain":
                k = 0 if s == 0 else LAST[-1]
            elif s == 0:
                k = 0
            elif s == n - 1:
                k = H.pick(tag + "last", LAST)
            else:
                k = H.pick(tag + "mid", MID)
            ev, meta, end = OPT[k]
            meta = None if meta is None else dict(meta)
            if meta and meta.get("normal"):
                meta["normal"] = H.vec3(tag + "n", -1, 1)
            if which == "plain":
                b = 100.0 * r + 10 * s
                if meta and meta.get("normal"):
                    meta["normal"] = (b, b + 1, b + 2)
                steps.append(Step(Ray(position=(b, b + 1, b + 2), direction=(b + 3, b + 4, b + 5), wavelength=b + 6, source="src%d" % r, travelled=b + 7,
                                      duration=b + 8), Event[ev], meta, end))
                continue
            ray = Ray(position=H.vec3(tag + "p", -1e3, 1e3), direction=H.vec3(tag + "d", -1, 1), wavelength=H.real(tag + "w", 1, 5000),
                      source="src%d" % r, travelled=H.real(tag + "s", 0, 1e4), duration=H.real(tag + "t", 0, 1e4))
            steps.append(Step(ray, Event[ev], meta, end))
        rays.append(steps)
    return rays


class FakeProgress:
    def __init__(self, *a, **k):
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1, *a, **k):
        self.n += n


def command(H, lens, workers, end_rays, which, switches):
    import sqlite3, multiprocessing, threading, time, typer
    import numpy as np
    import pvtrace.cli.main as mm
    import pvtrace.scene.scene as ms
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    from vlib.sched import Sched, Stuck
    rays = make_rays(H, lens, Ray, Event, which)
    st = {"sw": 0, "left": switches, "ord": 0, "proc": 0}

    def switch():
        if st["left"] <= 0:
            return False
        st["sw"] += 1
        if H.flag("switch%d" % st["sw"]):
            st["left"] -= 1
            return True
        return False

    def choose(n):
        if n == 1:
            return 0
        st["ord"] += 1
        return H.size("order%d" % st["ord"], 0, n - 1)

    def pick(n):
        st["proc"] += 1
        return H.size("process%d" % st["proc"], 0, n - 1)
    S = Sched(switch)
    hub = Hub(choose, pick)
    queues = []
    state = {"next": 0}

    class Scene(ms.Scene):
        def emit(self, num_rays):
            for _ in range(int(num_rays)):
                k = state["next"]
                state["next"] += 1
                yield rays[k][0].ray

    byid = {id(steps[0].ray): steps for steps in rays}

    def step_forward(scene, ray, *a, **k):
        for s in byid[id(ray)]:
            yield s.ray, s.event, (None if s.meta is None else dict(s.meta))

    class Manager:
        def Queue(self, maxsize=0):
            q = Q(H, S, hub, maxsize)
            queues.append(q)
            return q

        def shutdown(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    d = tempfile.mkdtemp(prefix="pv21")
    path = os.path.join(d, "scene.yml")
    open(path, "w").close()
    db = None
    patches = [(multiprocessing, "Manager", Manager), (multiprocessing, "Queue", lambda maxsize=0: Manager().Queue(maxsize)),
               (threading, "Thread", S.thread_class()), (threading, "Event", S.event_class()), (time, "sleep", S.sleep),
               (typer, "progressbar", FakeProgress), (mm, "parse", lambda p: Scene()), (ms.photon_tracer, "step_forward", step_forward),
               (np.random, "randint", lambda lo, hi=None, size=None, **k: np.arange(1, int(size) + 1) * 7919)]
    if H.mode == "sym":
        from vlib import minisql, symx
        db = minisql.DB(symx)
        db.lost = False
        patches.append((sqlite3, "connect", lambda *a, **k: minisql.Connection(db)))
    saved = [(o, n, getattr(o, n)) for o, n, _ in patches]
    error = None
    try:
        for o, n, v in patches:
            setattr(o, n, v)
        try:
            with hub, contextlib.redirect_stdout(io.StringIO()):
                argv = ["simulate", path, "--rays", str(len(rays)), "--workers", str(workers)] + (["--end-rays"] if end_rays else [])
                typer.main.get_command(mm.app)(argv, standalone_mode=False)
        except Stuck:
            error = "stuck"
        except Exception as e:
            error = e
    finally:
        S.stop()
        for o, n, v in saved:
            setattr(o, n, v)
        rows = None
        if H.mode != "sym":
            try:
                c = sqlite3.connect(os.path.join(d, "scene.sqlite3"))
                rows = (c.execute("SELECT rowid, * FROM ray").fetchall(), c.execute("SELECT * FROM event ORDER BY rowid").fetchall())
                c.close()
            except Exception as e:
                error = error or e
        shutil.rmtree(d)
    wexc = [t.exc for t in S.threads if t.exc is not None]
    H.check(not wexc, "the database writer never fails")
    H.check(error is None, "the simulate command completes")
    if error is not None or wexc:
        return
    H.check(state["next"] == len(rays), "every requested ray is emitted")
    H.check(all(q.qsize() == 0 for q in queues), "no result is left in the queue")
    if H.mode == "sym":
        H.check(not db.lost, "every written row is committed")
        rt = {r["rowid"]: [r[c] for c in db.tables["ray"][0]] for _, r in db.tables["ray"][1]}
        ev = [[r[c] for c in db.tables["event"][0]] for _, r in db.tables["event"][1]]
    else:
        rt = {r[0]: list(r[1:]) for r in rows[0]}
        ev = [list(r) for r in rows[1]]
    verify(H, rays, rt, ev, end_rays)


def verify(H, rays, rt, ev, end_rays):
    keep = [[s for s in steps if s.end or not end_rays] for steps in rays]
    H.check(len(ev) == sum(map(len, keep)) and len(rt) == len(ev), "every event is stored exactly once")
    H.check(len({e[0] for e in ev}) == len(ev) and all(e[0] in rt for e in ev), "every event has its own ray record")
    groups = {}
    for e in ev:
        if e[0] in rt:
            groups.setdefault(rt[e[0]][0], []).append((rt[e[0]], e))
    owner = {}
    for tid, g in groups.items():
        srcs = {str(r[8]) for r, _ in g}
        H.check(len(srcs) == 1, "two rays never share an identity")
        for s in srcs:
            H.check(s not in owner, "one ray keeps one identity")
            owner[s] = g
    for k, steps in enumerate(keep):
        g = owner.get("src%d" % k)
        if not steps:
            continue
        if g is None or len(g) != len(steps):
            H.fail("every event of every ray is stored")
            continue
        for (r, e), s in zip(g, steps):
            H.check(e[1] == s.event.name, "a ray's events are stored in order with their kind")
            want = list(s.ray.position) + list(s.ray.direction) + [s.ray.wavelength]
            got = r[1:8]
            H.check(H.And(*[same(a, b) for a, b in zip(want + [s.ray.travelled, s.ray.duration], got + [r[9], r[10]])]),
                    "position, direction, wavelength, distance and time are stored intact")
            m = s.meta or {}
            H.check(e[2] == m.get("component") and e[3] == m.get("hit") and e[4] == m.get("container") and e[5] == m.get("adjacent") and e[6] == m.get("facet"),
                    "the event's component and nodes are stored intact")
            n = m.get("normal") or (None, None, None)
            H.check(H.And(*[same(a, b) for a, b in zip(n, e[7:10])]), "the event's normal is stored intact")


def same(a, b):
    return a is b or (a is not None and b is not None and not isinstance(b, str) and a == b)


JOBS = []
# histories: one ray, every sequence of event kinds
for n in (2, 3, 4):
    for er in (False, True):
        JOBS.append(Job("history/%d/%s" % (n, "end" if er else "all"), command, lens=(n,), workers=1, end_rays=er, which="any", switches=0,
                        opts={"plain": True}))
JOBS.append(Job("history/3+2/end", command, lens=(3, 2), workers=1, end_rays=True, which="any", switches=0, opts={"plain": True}))
# schedules
for name, lens, wk, sw, er in (("1x3", (2, 1, 2), 1, 1, 0), ("2x1-preempt", (2, 1), 2, 1, 0), ("2x2", (2, 1, 1, 2), 2, 0, 0), ("3x1", (2, 1, 1), 3, 0, 0),
                               ("2+1", (2, 2, 1), 2, 0, 1), ("2x1", (3, 2), 2, 0, 0)):
    JOBS.append(Job("schedule/%s" % name, command, lens=lens, workers=wk, end_rays=bool(er), which="plain", switches=sw, opts={"plain": True}))
for name, lens, wk, sw in (("2x2", (2, 1, 1, 2), 2, 1), ("3x1", (2, 1, 2), 3, 1), ("2x1", (3, 2), 2, 2), ("1x3", (2, 1, 2), 1, 3)):
    JOBS.append(Job("deep/%s" % name, command, lens=lens, workers=wk, end_rays=False, which="plain", switches=sw, tiers=("thorough",), opts={"plain": True}))
