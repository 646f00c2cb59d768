"""The compiled engine's event log: bounds, grammar, ownership of rows and physical accounting.

Rays run along the axis of a world, a body and an optional core, with arbitrary start, sizes and draws: surfaces
reflect or transmit (normal incidence), media absorb, scatter backwards or forwards, re-emit, lose or react.  Every
log is checked against an independent model of that one-dimensional world, including who owns which row."""
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, GENERATE, REFLECT, TRANSMIT, ABSORB, NONRADIATIVE, SCATTER, EMIT, EXIT, REACT, KILL

PROPERTY = "P15"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"scene": "a world, one body and an optional core along one axis, arbitrary sizes and start, refractive indices listed or arbitrary, "
                   "components of every kind (scattering exactly forwards or backwards)",
          "steps": "up to 4 (quick) or 6 (thorough) steps per ray, log sizes 1 to 9", "rays": "bundles of up to 3 rays",
          "outside": "absorption within 1e-9 of a surface; rays starting outside the world (they log only their generation)"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-6", "the parallel loop runs one ray per chunk, on one or several simulated threads"]
C = 2.99792458e10
TERMINAL = (EXIT, NONRADIATIVE, REACT, KILL)
AFTER_ABSORB = (NONRADIATIVE, SCATTER, EMIT, REACT)


def component(kind, name):
    import numpy as np
    from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
    from pvtrace.material.utils import HenyeyGreenstein, Cone
    if kind == "back":
        return Scatterer(0.5, quantum_yield=0.75, phase_function=HenyeyGreenstein(-1.0), name=name)
    if kind == "forward":
        return Scatterer(0.25, quantum_yield=1.0, phase_function=Cone(0.0), name=name)
    if kind == "dye":
        return Luminophore(0.5, emission=np.array([[600.0, 1.0], [700.0, 1.0]]), quantum_yield=0.5, phase_function=HenyeyGreenstein(-1.0), name=name)
    if kind == "slowdye":
        return Luminophore(0.5, emission=np.array([[600.0, 1.0], [700.0, 1.0]]), tau_rad=2.0, tau_nr=3.0, phase_function=Cone(0.0), name=name)
    if kind == "absorber":
        return Absorber(0.25, name=name)
    if kind == "slowabsorber":
        return Absorber(0.25, tau_nr=4.0, name=name)
    return Reactor(0.125, name=name)


class World:
    """the scene and its one-dimensional model"""

    def __init__(self, H, shape, comps, core=None, corecomps=(), n=1.5, ncore=1.25, recorders=False, null=False):
        from pvtrace.scene.node import Node
        from pvtrace.scene.scene import Scene
        self.H = H
        self.half = 50
        w = Node(name="world", geometry=kern.shape(H, "box", (100.0, 100.0, 100.0), kern.material(1.0)))
        self.n = [1.0, n]
        c, r = H.real("c", -20, 20), H.real("r", 0.5, 20)
        self.iv = [(H.q(-50), H.q(50)), (c - r, c + r)]
        self.comps = [[], [component(k, k) for k in comps]]
        d = {"sphere": r, "box": (7.0, 5.0, 2 * r), "cylinder": (2 * r, 3.0)}
        body = Node(name="body", parent=w, geometry=kern.shape(H, shape, d[shape], kern.material(n, self.comps[1], null=null)), location=(0.0, 0.0, c))
        self.nodes = [w, body]
        if core:
            s = H.real("s", 0.25, 10)
            o = H.real("o", -10, 10)
            H.assume(H.And(s + o <= r - 1e-3, s - o <= r - 1e-3))
            d = {"sphere": s, "box": (2.0, 1.0, 2 * s), "cylinder": (2 * s, 1.0)}
            self.comps.append([component(k, "core-" + k) for k in corecomps])
            k = Node(name="core", parent=body, geometry=kern.shape(H, core, d[core], kern.material(ncore, self.comps[2])), location=(0.0, 0.0, o))
            self.n.append(ncore)
            self.iv.append((c + o - s, c + o + s))
            self.nodes.append(k)
        self.scene = Scene(w)
        if recorders:
            self.add_recorders()
        self.first = [0, 0, len(self.comps[1])]

    def add_recorders(self):
        from pvtrace.engine.recorder import Recorder, Histogram, EVENTS
        for n in self.nodes:
            n.recorders = [Recorder("%s-%s" % (n.name, e), event=e, histograms=[Histogram("wavelength", 300, 800, 3)]) for e in EVENTS]

    def start(self, name, margin=1e-3):
        H = self.H
        x = H.real(name, -49, 49)
        for lo, hi in self.iv[1:]:
            H.assume(H.Or(x >= lo + margin, x <= lo - margin))
            H.assume(H.Or(x >= hi + margin, x <= hi - margin))
        return x

    def inside(self, z):
        k = 0
        for i in range(1, len(self.iv)):
            if bool(self.H.And(z > self.iv[i][0], z < self.iv[i][1])):
                k = i
        return k

    def next_surface(self, z, sg, at=None):
        """(node, position) of the nearest surface ahead (at: the surface just met, as (node, end))"""
        best = None
        for i, iv in enumerate(self.iv):
            for e in (0, 1):
                if at == (i, e):
                    continue
                p = iv[e]
                if bool((p - z) * sg > 0) and (best is None or bool((p - best[2]) * sg < 0)):
                    best = (i, e, p)
        return best


def consistent(H, W, ev, x, sg, wl, max_events, maxsteps, dur0=0.0):
    """one log against the model"""
    H.check(1 <= len(ev) <= max_events, "a ray writes between one and the allowed number of rows")
    e = ev[0]
    H.check(e.kind == GENERATE and e.source == -1 and e.hit == -1 and e.container == -1 and e.adjacent == -1 and e.component == -1,
            "a log begins with generation")
    H.check_close3(e.position, (0.0, 0.0, x), "the generation row holds the initial position")
    H.check_close3(e.direction, (0.0, 0.0, float(sg)), "the generation row holds the initial direction")
    H.check_close(e.travelled, 0.0, "nothing is travelled at generation")
    H.check_close(e.duration, 0.0, "no time has passed at generation")
    H.check_close(e.wavelength, wl, "the generation row holds the initial wavelength")
    if max_events >= 2:
        H.check(ev[-1].kind in TERMINAL and len(ev) >= 2, "a log ends with a terminal event")
    H.check(all(v.kind not in TERMINAL and v.kind != GENERATE for v in ev[1:-1]), "exactly one terminal event")
    at, src, last, steps = None, -1, ev[0], 0
    where = W.inside(x)
    for k in range(1, len(ev)):
        e = ev[k]
        moved = e.kind in (REFLECT, TRANSMIT, ABSORB, EXIT)
        H.check((e.kind in AFTER_ABSORB) == (last.kind == ABSORB) or e.kind == KILL, "absorption is followed by its outcome and only then")
        if not moved:
            H.check_close3(e.position, last.position, "only flights move a ray", tol=1e-9)
            H.check_close(e.travelled, last.travelled, "only flights add distance", tol=1e-9)
        else:
            L = e.travelled - last.travelled
            H.check_ge(L, 0.0, "travelled distance never decreases", tol=1e-9)
            H.check_close3(e.position, (0.0, 0.0, last.position[2] + sg * L), "position advances along the previous direction by the distance travelled", tol=1e-6)
            H.check_close((e.duration - last.duration) * C, L * W.n[where], "flight time is the optical path over the speed of light", tol=1e-4)
            steps += 1
        if e.kind == KILL:
            H.check_close(e.duration, last.duration, "a kill takes no time", tol=1e-12)
            H.check(k >= max_events - 2 or steps >= maxsteps, "rays are only killed when steps or log rows run out")
            H.check(e.component == -1 and e.hit == -1, "a kill names no component or surface")
        if e.kind in (REFLECT, TRANSMIT, EXIT):
            i, end, p = W.next_surface(last.position[2], sg, at)
            H.check_close(e.position[2], p, "the surface met is the nearest one", tol=1e-6)
            H.check(e.hit == i and e.container == where and e.component == -1, "surface events name the surface and the medium before it")
            H.check((e.kind == EXIT) == (i == 0), "rays leave at the world boundary")
            outward = (1 if end else -1)
            if e.kind != EXIT:
                H.check_close3(e.normal, (0.0, 0.0, float(outward)), "the outward normal is logged")
                beyond = i if outward != sg else i - 1
                H.check(e.adjacent == beyond, "surface events name the medium beyond")
                if e.kind == REFLECT:
                    sg = -sg
                else:
                    where = beyond
            at = (i, end)
        else:
            if e.kind == ABSORB:
                at = None
                for lo, hi in W.iv:
                    H.assume(H.And(H.Or(e.position[2] >= lo + 1e-9, e.position[2] <= lo - 1e-9), H.Or(e.position[2] >= hi + 1e-9, e.position[2] <= hi - 1e-9)))
                i, end, p = W.next_surface(last.position[2], sg, at)
                H.check_le((e.position[2] - p) * sg, 0.0, "a ray is absorbed before the next surface", tol=1e-6)
            if e.kind != KILL:
                H.check(e.container == where and e.hit == -1 and e.adjacent == -1, "volume events name the medium")
                j = e.component - W.first[where]
                ok = 0 <= j < len(W.comps[where])
                H.check(ok, "volume events name a component of the medium")
                if ok:
                    cls = type(W.comps[where][j]).__name__
                    legal = {"Absorber": (ABSORB, NONRADIATIVE), "Reactor": (ABSORB, REACT), "Scatterer": (ABSORB, NONRADIATIVE, SCATTER),
                             "Luminophore": (ABSORB, NONRADIATIVE, EMIT)}[cls]
                    H.check(e.kind in legal, "the event matches the kind of component")
                    if e.kind in AFTER_ABSORB:
                        H.check(e.component == last.component, "the outcome belongs to the component that absorbed")
                        c = W.comps[where][j]
                        slow = c.tau_rad if e.kind == EMIT else (c.tau_nr if e.kind == NONRADIATIVE else None)
                        if slow:
                            H.check_ge(e.duration, last.duration, "time never decreases", tol=1e-12)
                        else:
                            H.check_close(e.duration, last.duration, "without a lifetime no time passes", tol=1e-12)
                        if e.kind in (EMIT, SCATTER):
                            src = e.component
                            g = getattr(c.phase_function, "g", 1.0)
                            sg = -1 if g < 0 else 1
            if e.kind == KILL and e.container >= 0:
                H.check(e.container == where, "a kill names the medium")
        if e.kind == EMIT:
            H.check(H.And(e.wavelength >= 600.0 - 1e-9, e.wavelength <= 700.0 + 1e-9), "emission changes the wavelength to one of the spectrum")
        else:
            H.check_close(e.wavelength, last.wavelength, "only emission changes the wavelength")
        H.check(e.source == src, "the source is the last emitting component")
        H.check_close3(e.direction, (0.0, 0.0, float(sg)), "directions stay on the line and unit", tol=1e-6)
        last = e


def unused(H, out, ray, max_events):
    """rows after a ray's last one are blank"""
    n = int(out["counts"][ray])
    for row in range(ray * max_events + n, (ray + 1) * max_events):
        blank = int(out["kind"][row]) == 0 and all(int(out[k][row]) == -1 for k in ("hit", "container", "adjacent", "component", "source"))
        blank = blank and all(kern.num(out[k][row]) == 0 if not hasattr(out[k][row], "t") else False for k in ("wavelength", "travelled", "duration"))
        if not blank:
            H.fail("rows beyond a ray's last event stay blank")
            return
    H.check(True, "rows beyond a ray's last event stay blank")


def log(H, shape, comps, sg, maxsteps, max_events, core=None, corecomps=(), n=1.5, ncore=1.25, inside=None):
    if n is None:
        n = H.real("n", 1.01, 3)
    W = World(H, shape, comps, core, corecomps, n, ncore)
    x = W.start("x")
    if inside is not None:
        lo, hi = W.iv[1]
        H.assume(H.And(x > lo, x < hi) if inside else (x < lo if sg > 0 else x > hi))
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, W.scene, (0.0, 0.0, x), (0.0, 0.0, float(sg)), max_events=max_events, maxsteps=maxsteps, emit_method=2)
    if ev is None:
        return
    consistent(H, W, ev, x, sg, 555.0, max_events, maxsteps)
    unused(H, out, 0, max_events)


def bundle(H, rays, record_every, threads, max_events=4, maxsteps=2):
    """several rays: rows of different rays never mix, only every n-th ray is logged"""
    W = World(H, "box", ["absorber"], None, (), 1.5)
    xs = [W.start("x%d" % i) for i in range(rays)]
    sgs = [1 if i % 2 == 0 else -1 for i in range(rays)]
    wls = [H.real("w%d" % i, 300, 800) for i in range(rays)]
    K = Kernel(H)
    from pvtrace.engine.compiler import compile_scene
    c = compile_scene(W.scene)
    out = K.bundle(c, [(0.0, 0.0, x) for x in xs], [(0.0, 0.0, float(s)) for s in sgs], wls, max_events=max_events, maxsteps=maxsteps,
                   record_every=record_every, num_threads=max(1, threads), tid_of=(lambda i: i % threads) if threads > 1 else None)
    if out is None:
        return
    rec = list(range(0, rays, record_every)) if record_every > 0 else []
    H.check(len(out["counts"]) == len(rec), "every n-th ray is logged")
    H.check(all(len(out[k]) == len(rec) * max_events for k in ("kind", "hit", "position", "wavelength")), "each logged ray has its own rows")
    for j, i in enumerate(rec):
        consistent(H, W, kern.events(out, j, max_events), xs[i], sgs[i], wls[i], max_events, maxsteps)
        unused(H, out, j, max_events)


def quiet(H, shape, comps, sg, maxsteps, core=None, corecomps=()):
    """recorders see the same whether or not events are logged"""
    W = World(H, shape, comps, core, corecomps, 1.5, 1.25, recorders=True)
    x = W.start("x")
    from pvtrace.engine.compiler import compile_scene
    K = Kernel(H)
    c = compile_scene(W.scene)
    outs = []
    for every in (1, 0):
        if H.mode == "sym":
            H.E.draws = 0
        else:
            K.nd = 0
        outs.append(K.bundle(c, [(0.0, 0.0, x)], [(0.0, 0.0, float(sg))], [555.0], max_events=40, maxsteps=maxsteps, emit_method=2, record_every=every))
        if outs[-1] is None:
            return
        outs.append(len(K.draws))
    a, na, b, nb = outs
    H.check(na == nb, "a ray makes the same draws whether or not its events are logged")
    for k in ("rec_distinct", "rec_crossings", "rec_bins"):
        H.check(len(a[k]) == len(b[k]) and all(int(p) == int(q) for p, q in zip(a[k], b[k])), "recorders count the same whether or not events are logged")
    import numpy as np
    p, q = np.ravel(np.array(a["rec_sums"], dtype=object)), np.ravel(np.array(b["rec_sums"], dtype=object))
    H.check(len(p) == len(q), "recorders sum the same whether or not events are logged")
    for u, v in zip(p, q):
        H.check_close(u, v, "recorders sum the same whether or not events are logged", tol=1e-6)


JOBS = []
ALL = ("back", "dye", "absorber", "reactor")
for sg in (1, -1):
    s = "%+d" % sg
    for nm, shape, comps in (("all", "box", ALL), ("scatter", "cylinder", ("back", "forward")), ("slow", "sphere", ("slowdye", "slowabsorber")),
                             ("clear", "box", ())):
        for ins in (True, False):
            JOBS.append(Job("log/%s/%s/%s" % (nm, s, "in" if ins else "out"), log, shape=shape, comps=comps, sg=sg, maxsteps=3, max_events=16, inside=ins,
                            opts=dict(weight=3)))
            JOBS.append(Job("long/%s/%s/%s" % (nm, s, "in" if ins else "out"), log, shape=shape, comps=comps, sg=sg, maxsteps=5, max_events=24, inside=ins,
                            opts=dict(weight=9), tiers=("thorough",)))
    JOBS.append(Job("index/" + s, log, shape="box", comps=(), sg=sg, maxsteps=4, max_events=16, n=None))
    JOBS.append(Job("core/" + s, log, shape="sphere", comps=(), sg=sg, maxsteps=4, max_events=16, core="box", corecomps=("absorber", "dye"), opts=dict(weight=6)))
    JOBS.append(Job("core2/" + s, log, shape="box", comps=("back",), sg=sg, maxsteps=3, max_events=16, core="cylinder", corecomps=("dye",), opts=dict(weight=6)))
for m in range(1, 10):
    JOBS.append(Job("budget/%d" % m, log, shape="box", comps=("dye", "absorber"), sg=1, maxsteps=20 if m < 6 else 6, max_events=m, inside=True, opts=dict(weight=m),
                    tiers=("quick", "thorough") if m <= 6 else ("thorough",)))
for m in range(0, 4):
    JOBS.append(Job("steps/%d" % m, log, shape="box", comps=("forward", "absorber"), sg=-1, maxsteps=m, max_events=16, inside=True, opts=dict(weight=m)))
for rays, every, thr in ((2, 1, 1), (3, 2, 1), (2, 1, 2), (3, 3, 2), (2, 0, 1), (3, 1, 3)):
    JOBS.append(Job("bundle/%d-%d-%d" % (rays, every, thr), bundle, rays=rays, record_every=every, threads=thr, opts=dict(weight=rays * 2)))
JOBS.append(Job("quiet/all", quiet, shape="box", comps=ALL, sg=1, maxsteps=2, opts=dict(weight=5)))
JOBS.append(Job("quiet/core", quiet, shape="sphere", comps=(), sg=-1, maxsteps=4, core="box", corecomps=("absorber",), opts=dict(weight=5)))
