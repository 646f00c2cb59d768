"""Recorder tallies of the pure-Python reference over arbitrary histories."""
import math
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P16"
PRELOAD = ("pvtrace.engine.tally", "pvtrace.engine.recorder", "pvtrace.engine.api", "pvtrace.light.event", "pvtrace.light.ray", "pvtrace.scene.scene",
           "pvtrace.scene.node", "pvtrace.geometry.sphere", "pvtrace.geometry.box", "pvtrace.geometry.utils")
BOUNDS = {"histories": "one or two rays with up to three events after generation, each any of the event kinds on any of three nodes, with any ray position, "
                       "wavelength, time and path length, and directions and normals from listed frames (facet tolerance: any normal)",
          "recorders": "every event kind, with or without facet, one histogram or heatmap of 1 to 3 bins with any range of at least 1e-3, values at least "
                       "1e-9 from bin edges or exactly on the first or last edge"}
ASSUMPTIONS = ["double rounding of the bin computation at inner bin edges is not modelled"]
KINDS = ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit")
D = {"up": (0, 0, 1), "down": (0, 0, -1), "slant": ((3, 5), 0, (4, 5)), "side": (1, 0, 0), "down-slant": (0, (12, 13), (-5, 13))}


def options():
    """(event name, hit, container, adjacent)"""
    out = []
    for hit, other in (("A", "world"), ("B", "A")):
        out.append(("TRANSMIT", hit, other, hit))
        out.append(("TRANSMIT", hit, hit, other))
        out.append(("REFLECT", hit, other, hit))
        out.append(("REFLECT", hit, hit, other))
    for box in ("A", "B", "world"):
        out.append(("NONRADIATIVE", None, box, None))
    out += [("REACT", None, "A", None), ("REACT", None, "B", None), ("KILL", None, "A", None), ("KILL", None, "world", None),
            ("EXIT", "world", "world", None), ("ABSORB", None, "A", None), ("EMIT", None, "A", None), ("SCATTER", None, "A", None),
            ("TRANSMIT", "B", "A", "world")]
    return out


OPTIONS = options()


def matches(kind, node, o):
    """what each kind of recorder is declared to count"""
    ev, hit, con, adj = o
    if kind == "entering":
        return ev == "TRANSMIT" and hit == node and adj == node
    if kind == "escaping":
        return ev == "TRANSMIT" and hit == node and con == node
    if kind == "reflected":
        return ev == "REFLECT" and hit == node and adj == node
    if kind == "exit":
        return ev == "EXIT" and hit == node
    return ev == {"lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}[kind] and con == node


def scene_of(H, frame, recorders, rootshape="sphere"):
    import numpy
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    e = [conv(H, v) for v in FRAMES[frame]]
    loc = H.qv((1, 2), (-1, 4), 1)
    world = Node(name="world", geometry=Sphere(100.0))
    A = Node(name="A", parent=world, geometry=Sphere(5.0))
    B = Node(name="B", parent=A, geometry=Sphere(2.0))
    A.pose = numpy.array([[e[j][i] for j in range(3)] + [loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
    nodes = {"world": world, "A": A, "B": B}
    for nm, recs in recorders.items():
        nodes[nm].recorders = recs

    def local(nm, p):
        if nm == "world":
            return tuple(p)
        rel = [p[i] - loc[i] for i in range(3)]
        return tuple(sum(e[j][i] * rel[i] for i in range(3)) for j in range(3))
    return Scene(world), nodes, local


def make_history(H, tag, picks, dirs, nrm=None):
    """picks: option per event; returns the history and, per event, the facts an oracle needs"""
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    hist, facts = [], []

    def ray(k, d):
        return Ray(position=H.vec3("%sp%d" % (tag, k), -200, 200), direction=H.qv(*D[d]), wavelength=H.real("%sw%d" % (tag, k), 100, 2000),
                   travelled=H.real("%st%d" % (tag, k), 0, 1e4), duration=H.real("%su%d" % (tag, k), 0, 1e3), source="lamp")
    r = ray(0, dirs[0])
    hist.append((r, Event.GENERATE, None))
    for k, o in enumerate(picks):
        ev, hit, con, adj = o
        prev = r
        r = ray(k + 1, dirs[(k + 1) % len(dirs)])
        if ev == "EXIT":
            # the boundary of the world
            p = H.qv(*D[nrm or "up"])
            pos = tuple(100 * x for x in p)
            import dataclasses
            r = dataclasses.replace(r, position=pos)
        md = {"container": con}
        if hit is not None:
            md.update(hit=hit, adjacent=adj)
        if ev in ("TRANSMIT", "REFLECT"):
            md["normal"] = nrm_of(H, nrm)
        if ev in ("ABSORB", "EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            md["component"] = "c"
        hist.append((r, getattr(Event, ev), md))
        normal = None
        if ev in ("TRANSMIT", "REFLECT", "EXIT"):
            normal = H.qv(*D[nrm or "up"]) if ev == "EXIT" or not callable(nrm) else md["normal"]
        inc = r if ev == "EXIT" else prev
        facts.append(dict(o=o, ray=r, normal=normal, incident=inc.direction))
    return hist, facts


def nrm_of(H, nrm):
    return H.qv(*D[nrm or "up"])


def number(H, x):
    return float(H.value(x)) if hasattr(H, "value") else float(x)


def angle(H, f):
    if f["normal"] is None:
        return 0.0
    dot = sum(a * b for a, b in zip(f["incident"], f["normal"]))
    return H.angle_value(dot)


def prop(H, name, f, local, node):
    r = f["ray"]
    if name == "wavelength":
        return r.wavelength
    if name == "duration":
        return r.duration
    if name == "pathlength":
        return r.travelled
    if name == "angle":
        if f["normal"] is None:
            return 0.0
        dot = sum((a * b for a, b in zip(f["incident"], f["normal"])), 0)
        return math.acos(min(abs(float(dot)), 1.0))
    return local(node, r.position)[{"x": 0, "y": 1, "z": 2}[name]]


def bin_of(H, v, lo, hi, n, edges=True):
    """index of the half-open bin holding v, or -1; decided symbolically"""
    w = (hi - lo) / n
    # keep clear of rounding at the inner edges
    for i in range(n + 1):
        e = lo + i * w
        if H.mode == "sym":
            away = H.Or(v - e >= 1e-9, e - v >= 1e-9)
            if i == 0 and edges:
                away = H.Or(away, v == lo)
            if i == n and edges:
                away = H.Or(away, v == hi)
            H.assume(away)
    for i in range(n):
        if bool(H.And(v >= lo + i * w, v < lo + (i + 1) * w)):
            return i
    return -1


def tally(H, kind, node, facet, first, events, hist, frame=0, dirs=("slant", "up"), nrm="up", heat=None, rays=1):
    """all events but the first are free among every option"""
    from pvtrace.engine import tally as T
    from pvtrace.engine.recorder import Recorder, Histogram, Heatmap
    specs, dims = [], []
    names = [hist] if heat is None else [hist, heat]
    for k, nm in enumerate(names):
        lo = H.real("lo%d" % k, -50, 800)
        wd = H.real("wd%d" % k, 1e-3, 500)
        n = H.pick("n%d" % k, [1, 3]) if heat is None else 2
        dims.append((lo, lo + wd, n))
        specs.append((nm, lo, lo + wd, n))
    hs = [Histogram(*specs[0])] if heat is None else [Heatmap(hist, heat, specs[0][1:], specs[1][1:])]
    fac = None if facet is None else H.qv(*D[facet])
    rec = Recorder("rec", event=kind, facet=fac, histograms=hs)
    other = Recorder("other", event="lost")
    scene, nodes, local = scene_of(H, frame, {node: [rec]} if node == "B" else {node: [rec], "B": [other]})
    histories, factss = [], []
    for r in range(rays):
        tag = "" if r == 0 else "r%d" % r
        picks = [OPTIONS[first]] if r == 0 else []
        for k in range(len(picks), events):
            picks.append(OPTIONS[H.pick("%sev%d" % (tag, k), list(range(len(OPTIONS))))])
        h, f = make_history(H, tag, picks, dirs, nrm)
        histories.append(h)
        factss.append(f)
    before = [[(a, b, dict(c) if c else c) for a, b, c in h] for h in histories]
    res = T.tally_histories(scene, histories)["rec"]
    H.check(all(x[0] is y[0] and x[1] is y[1] and x[2] == y[2] for h, g in zip(histories, before) for x, y in zip(h, g)),
            "tallying does not alter the histories")
    nrays = ncross = 0
    sums = [[0.0, 0.0] for _ in range(4)]
    size = dims[0][2] if heat is None else dims[0][2] * dims[1][2]
    bins = [0] * size
    for facts in factss:
        hit = []
        for f in facts:
            if not matches(kind, node, f["o"]):
                continue
            if fac is not None:
                if f["normal"] is None or any(bool(H.abs(a - b) > 1e-6) for a, b in zip(fac, f["normal"])):
                    continue
            hit.append(f)
        ncross += len(hit)
        if not hit:
            continue
        nrays += 1
        f = hit[0]
        for i, p in enumerate(("wavelength", "angle", "duration", "pathlength")):
            v = prop(H, p, f, local, node)
            sums[i][0] = sums[i][0] + v
            sums[i][1] = sums[i][1] + v * v
        idx = [bin_of(H, prop(H, nm, f, local, node), *d, edges=nm not in ("x", "y", "z", "angle")) for nm, d in zip(names, dims)]
        if heat is None:
            if idx[0] >= 0:
                bins[idx[0]] += 1
        elif min(idx) >= 0:
            bins[idx[0] * dims[1][2] + idx[1]] += 1
    H.check(int(res.crossings) == ncross, "every matching interaction is counted once and nothing else")
    H.check(int(res.rays) == nrays, "each ray is counted at most once")
    got = res.histogram(0)[-1]
    H.check([int(x) for x in got.reshape(-1)] == bins, "the value is counted in the bin whose half-open interval holds it")
    for i, p in enumerate(("wavelength", "angle", "duration", "pathlength")):
        if nrays:
            H.check_close(res.mean(p), sums[i][0] / nrays, "the mean is that of the counted rays", tol=1e-6)
            if p != "angle":
                sd = res.std(p)
                var = sums[i][1] / nrays - (sums[i][0] / nrays) * (sums[i][0] / nrays)
                H.check_close(sd * sd, var if nrays > 1 else 0.0, "the spread is that of the counted rays", tol=1e-3)
                H.check_ge(sd, 0.0, "the spread is that of the counted rays")


def facet(H, kind, nrm):
    """a facet recorder compares each component of the normal within its tolerance"""
    from pvtrace.engine import tally as T
    from pvtrace.engine.recorder import Recorder
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    tol = H.real("tol", 1e-8, 0.5)
    f = H.vec3("f", -1, 1)
    n = H.vec3("n", -1, 1)
    for i in range(3):
        d = H.abs(f[i] - n[i])
        H.assume(H.Or(d - tol >= 1e-9, tol - d >= 1e-9))
    rec = Recorder("rec", event=kind, facet=f, atol=tol)
    scene, nodes, local = scene_of(H, 0, {"A": [rec]})
    o = {"entering": ("TRANSMIT", "A", "world", "A"), "escaping": ("TRANSMIT", "A", "A", "world"), "reflected": ("REFLECT", "A", "world", "A")}[kind]
    ray = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=500.0)
    md = {"hit": "A", "container": o[2], "adjacent": o[3], "normal": n}
    import numpy
    res = T.tally_histories(scene, [[(ray, Event.GENERATE, None), (ray, getattr(Event, o[0]), md)]])["rec"]
    want = H.And(*[H.abs(f[i] - n[i]) <= tol for i in range(3)])
    H.check(H.Iff(int(res.crossings) == 1, want), "a facet recorder counts exactly the events on its facet")
    H.check(int(res.rays) == int(res.crossings), "a facet recorder counts exactly the events on its facet")


def declaration(H, what):
    """malformed declarations are refused"""
    from pvtrace.engine.recorder import Recorder, Histogram, Heatmap
    lo, hi = H.real("lo", -10, 10), H.real("hi", -10, 10)
    n = H.pick("n", [-1, 0, 1, 2])
    try:
        if what == "histogram":
            h = Histogram("wavelength", lo, hi, n)
        else:
            h = Heatmap("x", "wavelength", (0.0, 1.0, 2), (lo, hi, n))
        ok = True
    except ValueError:
        ok = False
    H.check(H.Iff(ok, H.And(hi > lo, n >= 1)), "a histogram range must be non-empty and have bins")


def unknown(H):
    from pvtrace.engine.recorder import Recorder, Histogram
    bad = H.pick("bad", [0, 1, 2])
    try:
        if bad == 0:
            Recorder("r", event="unknown")
        elif bad == 1:
            Histogram("colour", 0, 1, 2)
        else:
            Recorder("r", histograms=["wavelength"])
    except ValueError:
        H.check(True, "unknown declarations are refused")
        return
    H.fail("unknown declarations are refused")


JOBS = [Job("declaration/histogram", declaration, what="histogram"), Job("declaration/heatmap", declaration, what="heatmap"), Job("unknown", unknown)]
for kd in ("entering", "escaping", "reflected"):
    JOBS.append(Job("facet/" + kd, facet, kind=kd, nrm=None))


def opt(ev, hit, con):
    return [i for i, o in enumerate(OPTIONS) if o[:3] == (ev, hit, con)][0]


FIRST = {"entering": lambda n, p: opt("TRANSMIT", n, p), "escaping": lambda n, p: opt("TRANSMIT", n, n), "reflected": lambda n, p: opt("REFLECT", n, p),
         "lost": lambda n, p: opt("NONRADIATIVE", None, n), "reacted": lambda n, p: opt("REACT", None, n), "killed": lambda n, p: opt("KILL", None, n),
         "exit": lambda n, p: opt("EXIT", "world", "world")}
PROPS = ("wavelength", "duration", "pathlength", "x", "y", "z", "angle")
i = 0
for kd in KINDS:
    for nd, par in (("A", "world"), ("B", "A"), ("world", None)):
        if nd == "world" and kd not in ("exit", "killed", "lost") or nd != "world" and kd == "exit" or (kd, nd) == ("killed", "B"):
            continue
        for start in ("match", "other"):
            f = FIRST[kd](nd, par) if start == "match" else opt("TRANSMIT", "A", "world") if kd != "entering" else opt("REFLECT", "A", "world")
            pr = PROPS[i % len(PROPS)]
            i += 1
            JOBS.append(Job("%s/%s/%s/%s" % (kd, nd, start, pr), tally, kind=kd, node=nd, facet=None, first=f, events=2, hist=pr, frame=5 if i % 2 else 0))
for kd, nd in (("entering", "A"), ("escaping", "B"), ("reflected", "A"), ("exit", "world"), ("lost", "A"), ("killed", "world")):
    f = FIRST[kd](nd, "world" if nd == "A" else "A")
    for fc in ("up", "slant"):
        JOBS.append(Job("on-facet/%s/%s" % (kd, fc), tally, kind=kd, node=nd, facet=fc, first=f, events=1, hist="angle", dirs=("slant", "down-slant"), nrm="up"))
    JOBS.append(Job("heatmap/%s" % kd, tally, kind=kd, node=nd, facet=None, first=f, events=1, hist="x", heat="wavelength", frame=5))
    JOBS.append(Job("two-rays/%s" % kd, tally, kind=kd, node=nd, facet=None, first=f, events=1, hist="wavelength", rays=2))
    JOBS.append(Job("three-events/%s" % kd, tally, tiers=("thorough",), kind=kd, node=nd, facet=None, first=f, events=3, hist="wavelength"))
for pr in PROPS:
    JOBS.append(Job("property/" + pr, tally, kind="escaping", node="A", facet=None, first=opt("TRANSMIT", "A", "A"), events=1, hist=pr, frame=4, nrm="slant"))
