"""Recorders of the compiled engine: every matching event counted once, in the right bin of the right recorder.

The real kernel runs symbolically on scenes with recorders attached (arbitrary placement offsets, start points, histogram
ranges and draws); an independent oracle recounts from the event log, and the Python tally recounts from the
decoded histories."""
import math
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, dot, REFLECT, TRANSMIT, NONRADIATIVE, EXIT, REACT, KILL
from vlib.frames import FRAMES, conv
from checks.p15 import World

PROPERTY = "P17"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"scenes": "rays along the axis of a world, body and optional core with arbitrary sizes, offsets and start (all kinds of components), and slanted "
          "rays (listed directions, arbitrary start) on a box, sphere or cylinder in listed rotations at arbitrary offsets",
          "recorders": "every kind of event on every node, facet filters on listed normals with arbitrary components and tolerance, one or two histograms "
          "with 1 to 3 bins or one 2x2 heatmap per recorder with arbitrary ranges, several recorders per node",
          "rays": "1 or 2 rays, up to 4 steps, 1 or 2 simulated threads", "outside": "values within 1e-9 of an inner bin edge or of a filter's tolerance"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-6", "the parallel loop runs one ray per chunk"]
SURF = {"entering": TRANSMIT, "escaping": TRANSMIT, "reflected": REFLECT, "exit": EXIT}
VOL = {"lost": NONRADIATIVE, "reacted": REACT, "killed": KILL}


def bin_of(H, v, lo, wd, n):
    """half-open bins; the harness keeps clear of rounding at the edges"""
    for i in range(n + 1):
        e = lo + wd * i / n
        if H.mode == "sym":
            H.assume(H.Or(v - e >= 1e-9, e - v >= 1e-9))
    for i in range(n):
        if bool(H.And(v >= lo + wd * i / n, v < lo + wd * (i + 1) / n)):
            return i
    return -1


class Spec:
    """one recorder and its declared meaning"""

    def __init__(self, H, name, node, event, facet=None, atol=None, hists=(), heat=None):
        from pvtrace.engine.recorder import Recorder, Histogram, Heatmap
        self.name, self.node, self.event, self.facet = name, node, event, facet
        self.atol = 1e-6 if atol is None else atol
        self.hists, hs = [], []
        k = name
        for j, p in enumerate(hists):
            lo, wd, n = H.real("%s-lo%d" % (k, j), -50, 800), H.real("%s-wd%d" % (k, j), 1e-3, 500), (3, 2)[j % 2]
            self.hists.append(((p, lo, wd, n),))
            hs.append(Histogram(p, lo, lo + wd, n))
        if heat:
            a = [(p, H.real("%s-lo%s" % (k, p), -50, 800), H.real("%s-wd%s" % (k, p), 1e-3, 500), 2) for p in heat]
            self.hists.append(tuple(a))
            hs.append(Heatmap(heat[0], heat[1], (a[0][1], a[0][1] + a[0][2], 2), (a[1][1], a[1][1] + a[1][2], 2)))
        kw = {} if atol is None else {"atol": atol}
        self.rec = Recorder(name, event=event, facet=facet, histograms=hs, **kw)
        node.recorders = list(getattr(node, "recorders", [])) + [self.rec]


def matches(H, s, i, e, normal):
    """does event e match the recorder of node number i?"""
    if s.event in VOL:
        return e.kind == VOL[s.event] and e.container == i
    if e.kind != SURF[s.event] or e.hit != i:
        return False
    if s.event == "entering" and not e.adjacent == i:
        return False
    if s.event == "escaping" and not e.container == i:
        return False
    if s.event == "reflected" and not e.adjacent == i:
        return False
    if s.facet is not None:
        for a, b in zip(s.facet, normal):
            if H.mode == "sym":
                H.assume(H.Or(H.abs(a - b) >= s.atol + 1e-9, H.abs(a - b) <= s.atol - 1e-9))
            if bool(H.abs(a - b) > s.atol):
                return False
    return True


def recount(H, specs, nodes, logs, local, exit_normal):
    out = {}
    for s in specs:
        i = nodes.index(s.node)
        rays = crossings = 0
        sums = [[0.0, 0.0] for _ in range(4)]
        bins = [[0] * (h[0][3] if len(h) == 1 else h[0][3] * h[1][3]) for h in s.hists]
        for ev in logs:
            seen = False
            for k, e in enumerate(ev):
                nrm = None
                if s.event == "exit" and e.kind == EXIT:
                    nrm = exit_normal(e)
                elif s.event in SURF:
                    nrm = e.normal
                if not matches(H, s, i, e, nrm):
                    continue
                crossings += 1
                if seen:
                    continue
                seen = True
                rays += 1
                ang = 0.0
                if nrm is not None:
                    inc = (e if e.kind == EXIT else ev[k - 1]).direction
                    k2 = dot(inc, nrm)
                    k2 = H.abs(k2)
                    ang = 0.0 if isinstance(k2, float) and k2 >= 1 else H.acos(k2)
                lp = local(i, e.position)
                v = dict(wavelength=e.wavelength, angle=ang, duration=e.duration, pathlength=e.travelled, x=lp[0], y=lp[1], z=lp[2])
                for j, p in enumerate(("wavelength", "angle", "duration", "pathlength")):
                    sums[j][0] = sums[j][0] + v[p]
                    sums[j][1] = sums[j][1] + v[p] * v[p]
                for h, b in zip(s.hists, bins):
                    idx = [bin_of(H, v[p], lo, wd, n) for p, lo, wd, n in h]
                    if min(idx) >= 0:
                        b[idx[0] if len(h) == 1 else idx[0] * h[1][3] + idx[1]] += 1
        out[s.name] = (rays, crossings, sums, bins)
    return out


def compare(H, K, scene, specs, nodes, starts, local, exit_normal, maxsteps, threads=1, max_events=20, again=True):
    from pvtrace.engine.compiler import compile_scene
    from pvtrace.engine.api import EngineResult
    c = compile_scene(scene)
    out = K.bundle(c, [s[0] for s in starts], [s[1] for s in starts], [s[2] for s in starts], max_events=max_events, maxsteps=maxsteps,
                   emit_method=2, num_threads=threads, tid_of=(lambda i: i % threads) if threads > 1 else None)
    if out is None:
        return
    logs = [kern.events(out, j, max_events) for j in range(len(starts))]
    want = recount(H, specs, nodes, logs, local, exit_normal)
    er = EngineResult(c, out, [None] * len(starts), max_events, 1, 0.0)
    got = er.recorders
    H.check(set(got) == set(want) and len(got) == len(specs), "every recorder reports under its own name")
    for s in specs:
        r = got[s.name]
        rays, crossings, sums, bins = want[s.name]
        H.check(int(r.rays) == rays, "each ray is counted at most once, when one of its events matches")
        H.check(int(r.crossings) == crossings, "every matching interaction is counted once and nothing else")
        for j, p in enumerate(("wavelength", "angle", "duration", "pathlength")):
            for q in range(2):
                x, y = kern.num(r._moments[j][q]), sums[j][q]
                if p == "duration":
                    x, y = x * 1e9 ** (q + 1), y * 1e9 ** (q + 1)
                H.check_close(x, y, "moments sum the recorded values", tol=1e-5)
            if rays:
                x, y = r.mean(p), sums[j][0] / rays
                if p == "duration":
                    x, y = x * 1e9, y * 1e9
                H.check_close(x, y, "the mean is the sum over the distinct rays", tol=1e-6)
        for h in range(len(bins)):
            b = [int(x) for x in r.histogram(h)[-1].reshape(-1)]
            H.check(b == bins[h], "the value is counted in the bin whose half-open interval holds it")
    if again:
        from pvtrace.engine.tally import tally_histories
        py = tally_histories(scene, list(er.histories()))
        for s in specs:
            a, b = py[s.name], got[s.name]
            H.check(int(a.rays) == int(b.rays) and int(a.crossings) == int(b.crossings), "the Python tally of the same events counts the same")
            for h in range(len(s.hists)):
                H.check([int(x) for x in a.histogram(h)[-1].reshape(-1)] == [int(x) for x in b.histogram(h)[-1].reshape(-1)],
                        "the Python tally of the same events fills the same bins")


def axis(H, shape, comps, sg, maxsteps, recs, core=None, corecomps=(), n=1.5, rays=1, threads=1, inside=None, null=False):
    K = Kernel(H)
    W = World(H, shape, comps, core, corecomps, n, 1.25, null=null)
    specs = []
    for nm, i, event, kw in recs:
        specs.append(Spec(H, nm, W.nodes[i], event, **kw))
    xs = [W.start("x%d" % k) for k in range(rays)]
    if inside is not None:
        lo, hi = W.iv[1]
        for x in xs:
            H.assume(H.And(x > lo, x < hi) if inside else (x < lo if sg > 0 else x > hi))
    starts = [((0.0, 0.0, x), (0.0, 0.0, float(sg if k % 2 == 0 else -sg)), H.real("w%d" % k, 300, 800)) for k, x in enumerate(xs)]
    offs = [0.0] + [(a + b) / 2 for a, b in W.iv[1:]]

    def local(i, p):
        return (p[0], p[1], p[2] - offs[i])
    compare(H, K, W.scene, specs, W.nodes, starts, local, lambda e: (0.0, 0.0, 1.0 if bool(e.position[2] > 0) else -1.0), maxsteps, threads)


def slant(H, frame, d, face, event, hists=(), heat=None, facet=None):
    """a listed direction into a placed box through a listed face at an arbitrary point; facet names one of the box's own axes"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    K = Kernel(H)
    size = (6.0, 8.0, 5.0)
    R = [conv(H, v) for v in FRAMES[frame]]
    dd = H.qv(*d)
    wd = tuple(sum(R[j][i] * dd[j] for j in range(3)) for i in range(3))
    far = max(range(3), key=lambda k: abs(float(number(wd[k]))))
    w = Node(name="world", geometry=kern.shape(H, "box", tuple(100.0 if k == far else 3000.0 for k in range(3)), kern.material(2.0)))
    # outside reflection of slanted rays is total
    b = Node(name="body", parent=w, geometry=kern.shape(H, "box", size, kern.material(1.0, null=event != "reflected")))
    off = tuple(H.real("o" + c, -5, 5) for c in "xyz")
    b.pose = kern.pose(H, frame, off)
    specs = []
    fac = atol = None
    if facet is not None:
        ax, s = facet
        fac = tuple(s * R[ax][k] + H.real("f%d" % k, -0.5, 0.5) for k in range(3))
        atol = H.real("atol", 1e-6, 0.6)
    specs.append(Spec(H, "r", b, event, facet=fac, atol=atol, hists=hists, heat=heat))
    specs.append(Spec(H, "all", b, event))
    k, s = face
    q = [H.real("q" + c, -h / 2 + 0.1, h / 2 - 0.1) for c, h in zip("xyz", size)]
    q[k] = s * size[k] / 2
    L = H.real("L", 0.5, 3)
    lp = tuple(q[i] - L * dd[i] for i in range(3))
    p0 = tuple(sum(R[j][i] * lp[j] for j in range(3)) + off[i] for i in range(3))

    def local(i, p):
        if i == 0:
            return tuple(p)
        v = tuple(p[k] - off[k] for k in range(3))
        return tuple(dot(R[j], v) for j in range(3))
    compare(H, K, Scene(w), specs, [w, b], [(p0, wd, H.real("w", 300, 800))], local, None, 1 if event != "escaping" else 2, again=facet is None)


def number(x):
    from fractions import Fraction
    if hasattr(x, "t"):
        from vlib import symx
        return symx.fval(symx.ENG.P.norm(symx.z3.simplify(x.t)))
    return x


JOBS = []
S1 = dict(hists=("wavelength",))
for sg in (1, -1):
    s = "%+d" % sg
    for ev in ("entering", "escaping", "reflected"):
        for p in ("wavelength", "pathlength", "z", "duration"):
            JOBS.append(Job("axis/%s/%s/%s" % (ev, p, s), axis, shape="box", comps=(), sg=sg, maxsteps=3, n=1.5,
                            recs=[("a", 1, ev, dict(hists=(p,))), ("other", 0, "exit", {})],
                            tiers=("quick", "thorough") if (sg > 0) == (p in ("wavelength", "z")) else ("thorough",)))
        JOBS.append(Job("facet/%s/%s" % (ev, s), axis, shape="cylinder", comps=(), sg=sg, maxsteps=3,
                        recs=[("top", 1, ev, dict(facet=(0, 0, 1))), ("bottom", 1, ev, dict(facet=(0, 0, -1))), ("side", 1, ev, dict(facet=(1, 0, 0))),
                              ("any", 1, ev, {})]))
    for ev, comps in (("lost", ("absorber", "slowabsorber")), ("reacted", ("reactor",)), ("killed", ("back",)), ("lost", ("dye",))):
        for p in ("wavelength", "pathlength", "z", "duration", "angle"):
            JOBS.append(Job("volume/%s-%s/%s/%s" % (ev, comps[0], p, s), axis, shape="sphere", comps=comps, sg=sg, maxsteps=2,
                            recs=[("a", 1, ev, dict(hists=(p,))), ("w", 0, ev, {}), ("b", 1, "killed" if ev != "killed" else "lost", {})],
                            tiers=("quick", "thorough") if (sg > 0) == (p in ("wavelength", "duration", "angle")) else ("thorough",)))
    JOBS.append(Job("exit/" + s, axis, shape="box", comps=(), sg=sg, maxsteps=4,
                    recs=[("a", 0, "exit", dict(hists=("z", "wavelength"))), ("top", 0, "exit", dict(facet=(0, 0, 1))), ("b", 1, "exit", {}),
                          ("bottom", 0, "exit", dict(facet=(0, 0, -1)))]))
    JOBS.append(Job("twice/" + s, axis, shape="box", comps=("back",), sg=sg, maxsteps=4, core="sphere", corecomps=(), inside=True,
                    recs=[("in", 2, "entering", {}), ("out", 2, "escaping", {}), ("leave", 1, "escaping", {})], opts=dict(weight=6)))
    JOBS.append(Job("heat/" + s, axis, shape="box", comps=("absorber",), sg=sg, maxsteps=3, null=True,
                    recs=[("a", 1, "lost", dict(heat=("wavelength", "z"))), ("b", 1, "escaping", dict(heat=("pathlength", "wavelength"), hists=("z",)))],
                    tiers=("quick", "thorough") if sg < 0 else ("thorough",)))
JOBS.append(Job("two/1", axis, shape="box", comps=("absorber",), sg=1, maxsteps=2, rays=2, null=True, inside=True,
                recs=[("a", 1, "lost", dict(hists=("wavelength",))), ("b", 1, "escaping", {})], opts=dict(weight=6)))
JOBS.append(Job("two/threads", axis, shape="box", comps=("absorber",), sg=-1, maxsteps=2, rays=2, threads=2, null=True, inside=True,
                recs=[("a", 1, "lost", {}), ("b", 1, "escaping", dict(hists=("wavelength",)))], opts=dict(weight=6)))
DIRS = {"gen": (((2, 3), (1, 3), (-2, 3)), (2, 1)), "gen2": (((-2, 7), (3, 7), (6, 7)), (0, 1)), "plane": ((0, (3, 5), (4, 5)), (1, -1)),
        "axis": ((-1, 0, 0), (0, 1))}
for i, (fr, dn) in enumerate(((1, "gen"), (4, "gen2"), (5, "plane"), (3, "gen"), (5, "axis"))):
    d, face = DIRS[dn]
    for k, ev in enumerate(("entering", "escaping", "reflected")):
        for j, p in enumerate(("angle", "x", "y", "z", "pathlength")):
            JOBS.append(Job("slant/%s/%d-%s/%s" % (ev, fr, dn, p), slant, frame=fr, d=d, face=face, event=ev, hists=(p,), opts=dict(weight=4),
                            tiers=("quick", "thorough") if j == (i + k) % 5 else ("thorough",)))
        JOBS.append(Job("slant/%s/%d-%s/heat" % (ev, fr, dn), slant, frame=fr, d=d, face=face, event=ev, heat=("x", "angle"), opts=dict(weight=4),
                        tiers=("quick", "thorough") if i == k else ("thorough",)))
        for ax in range(3):
            for sd in (1, -1):
                JOBS.append(Job("slant/facet/%s/%d-%s/%d%+d" % (ev, fr, dn, ax, sd), slant, frame=fr, d=d, face=face, event=ev, facet=(ax, sd),
                                opts=dict(weight=4), tiers=("quick", "thorough") if (ax, sd) == face and i in (k, k + 2) else ("thorough",)))
