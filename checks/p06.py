"""Nearest surface and the media on both sides, as selected by the compiled engine.

Scenes of a world box and up to three spheres, boxes or cylinders whose centres lie on the ray's axis, with arbitrary
positions and sizes: nested, disjoint or touching, in any tree arrangement.  Surfaces do not bend light, so the
ray's log shows what was selected at the first surface (and, with more steps, at every surface)."""
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, TRANSMIT, EXIT, GENERATE
from vlib.frames import FRAMES, conv
from checks.p05 import expected, arrangement, same, GAP

PROPERTY = "P06"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"objects": "world plus up to three convex objects crossed along an axis of theirs, or missed",
          "positions": "arbitrary centres in [-40,40], extents 0.2..60 along the ray, ray anywhere on the axis, gaps at least 1e-6 "
                       "or exactly zero between touching neighbours", "outside": "coincident faces of nested objects, rays through edges"}
ASSUMPTIONS = ["double rounding not modelled beyond witness replays", "the parallel loop runs one ray per chunk on one thread"]


def scene_of(H, kinds, tree, frame, axis):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    world = Node(name="world", geometry=kern.shape(H, "box", (200.0, 200.0, 200.0), kern.material(1.0, null=True)))
    nodes, iv, pos = [world], [(H.q(-100), H.q(100))], []
    for k, (kind, par) in enumerate(zip(kinds, tree)):
        c = H.real("c%d" % k, -40, 40)
        r = H.real("r%d" % k, 0.1, 30)
        rel = c - (0.0 if par is None else pos[par])
        dims = r if kind == "sphere" else ((7.0, 5.0, 2 * r) if kind == "box" else (2 * r, 3.0))
        g = kern.shape(H, kind, dims, kern.material(1.0, null=True))
        parent = world if par is None else nodes[par + 1]
        n = Node(name="n%d" % k, parent=parent, geometry=g, location=tuple(rel * a for a in axis) if par is None or frame is None else (0.0, 0.0, rel))
        if frame is not None and par is None:
            n.pose = kern.pose(H, frame, tuple(rel * a for a in axis))
        nodes.append(n)
        iv.append((c - r, c + r))
        pos.append(c)
    return Scene(world), nodes, iv


def ids(scene, nodes):
    """engine numbers of the nodes"""
    from anytree import PreOrderIter
    order = [n for n in PreOrderIter(scene.root) if n.geometry is not None]
    return [order.index(n) for n in nodes]


def nearest(H, kinds, tree, frame, sg, start, touching=False, steps=1):
    axis = conv(H, FRAMES[frame][0]) if frame is not None else H.qv(0, 0, 1)
    if frame is not None:
        # the third local axis of the turned objects, in world coordinates
        axis = conv(H, FRAMES[frame][2])
    d = tuple(a * sg for a in axis)
    scene, nodes, iv = scene_of(H, kinds, tree, frame, axis)
    if frame is not None:
        # where this axis leaves the world box
        m = max(abs(float(f)) for f in FRAMES[frame][2])
        f = [x for x in FRAMES[frame][2] if abs(float(x)) == m][0]
        w = H.q(100) / H.q(abs(f.numerator), f.denominator)
        iv[0] = (-w, w)
    arrangement(H, iv, touching)
    if start == "free":
        x = H.real("x", -90, 90)
        for lo, hi in iv[1:]:
            H.assume(H.And(H.Or(x >= lo + GAP, x <= lo - GAP), H.Or(x >= hi + GAP, x <= hi - GAP)))
    else:
        x = iv[1][0] if start == "lo" else iv[1][1]
        for lo, hi in iv[2:]:
            ok, ok2 = [x >= lo + GAP, x <= lo - GAP], [x >= hi + GAP, x <= hi - GAP]
            if touching:
                ok.append(same(H, x, lo))
                ok2.append(same(H, x, hi))
            H.assume(H.And(H.Or(*ok), H.Or(*ok2)))
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, scene, tuple(x * a for a in axis), d, max_events=16, maxsteps=steps)
    if ev is None:
        return
    no = ids(scene, nodes)
    H.check(ev[0].kind == GENERATE and len(ev) >= 2, "a surface ahead is found")
    last = x
    for e in ev[1:1 + steps]:
        t, X, surf, before, after = expected(H, iv, last, sg)
        H.check_close3(e.position, tuple(X * a for a in axis), "position of the nearest surface", tol=1e-6)
        H.check(e.kind == (EXIT if after is None else TRANSMIT), "the ray leaves at the world boundary and only there")
        H.check(any(e.hit == no[k] for k in surf), "the surface hit belongs to the nearest object")
        H.check(e.container == no[before], "medium before the surface")
        if after is None:
            H.check(e.hit == no[0] and e.container == no[0] and e.adjacent == -1, "with nothing else ahead the ray leaves through the world boundary")
            break
        H.check(e.adjacent == no[after], "medium beyond the surface")
        last = X


def missed(H, d, kind):
    """an object the ray does not meet never affects the outcome"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    world = Node(name="world", geometry=kern.shape(H, "box", (200.0, 200.0, 200.0), kern.material(1.0, null=True)))
    r = H.real("r", 0.1, 20)
    loc = H.vec3("c", -30, 30)
    z = H.real("z", -60, 60)
    d = float(d)
    ahead = (loc[2] - z) * d
    if kind == "sphere":
        dims = r
        off = loc[0] * loc[0] + loc[1] * loc[1] - r * r
        H.assume(H.Or(off >= 1e-3, H.And(ahead <= -1e-3, ahead * ahead - r * r >= 1e-2)))
    else:
        s = H.real("s", 0.1, 20)
        dims = (2 * r, 2 * s, 2 * r) if kind == "box" else (2 * r, s)
        if kind == "box":
            off = H.Or(H.abs(loc[0]) >= r + 1e-3, H.abs(loc[1]) >= s + 1e-3)
        else:
            off = loc[0] * loc[0] + loc[1] * loc[1] >= s * s + 1e-3
        H.assume(H.Or(off, ahead <= -r - 1e-3))
    n = Node(name="n", parent=world, geometry=kern.shape(H, kind, dims, kern.material(1.0, null=True)), location=loc)
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, Scene(world), (0.0, 0.0, z), (0.0, 0.0, d), max_events=16, maxsteps=3)
    if ev is None:
        return
    H.check(len(ev) == 2 and ev[1].kind == EXIT and ev[1].hit == 0 and ev[1].container == 0 and ev[1].adjacent == -1,
            "with nothing else ahead the ray leaves through the world boundary")
    H.check_close3(ev[-1].position, (0.0, 0.0, 100.0 * d), "position of the nearest surface", tol=1e-6)


S, B, C = "sphere", "box", "cylinder"
JOBS = []
for nm, kinds, tree in [("one", (S,), (None,)), ("two", (S, B), (None, None)), ("child", (C, S), (None, 0))]:
    for sg in (1, -1):
        for start in ("free", "lo", "hi"):
            JOBS.append(Job("%s/%+d/%s" % (nm, sg, start), nearest, kinds=kinds, tree=tree, frame=None, sg=sg, start=start))
JOBS.append(Job("two-turned", nearest, kinds=(B, C), tree=(None, None), frame=5, sg=1, start="free"))
JOBS.append(Job("child-turned", nearest, kinds=(B, S), tree=(None, 0), frame=4, sg=-1, start="free"))
for sg in (1, -1):
    for start in ("free", "lo", "hi"):
        JOBS.append(Job("touching/%+d/%s" % (sg, start), nearest, kinds=(B, B), tree=(None, None), frame=None, sg=sg, start=start, touching=True))
        for nm, kinds, tree in (("three", (B, S, C), (None, None, None)), ("three-nested", (S, C, B), (None, 0, 1)), ("three-fork", (B, C, S), (None, 0, 0))):
            q = start == "free" and (((nm == "three") == (sg > 0)) if nm != "three-fork" else sg > 0)
            JOBS.append(Job("%s/%+d/%s" % (nm, sg, start), nearest, kinds=kinds, tree=tree, frame=None, sg=sg, start=start, opts=dict(weight=9),
                            tiers=("quick", "thorough") if q else ("thorough",)))
    JOBS.append(Job("touching-three/%+d" % sg, nearest, kinds=(B, C, B), tree=(None, None, None), frame=None, sg=sg, start="free", touching=True, opts=dict(weight=8)))
    for kind in (S, B, C):
        JOBS.append(Job("missed/%s/%+d" % (kind, sg), missed, d=sg, kind=kind))
JOBS.append(Job("walk/two", nearest, kinds=(B, S), tree=(None, None), frame=None, sg=1, start="free", steps=6, opts=dict(weight=6)))
JOBS.append(Job("walk/child", nearest, kinds=(S, B), tree=(None, 0), frame=None, sg=-1, start="free", steps=6, opts=dict(weight=6)))
JOBS.append(Job("walk/three", nearest, kinds=(B, C, S), tree=(None, 0, None), frame=None, sg=1, start="free", steps=8, opts=dict(weight=9), tiers=("thorough",)))
