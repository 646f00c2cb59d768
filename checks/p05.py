"""Nearest surface and the media on both sides, as selected by the Python tracer.

Scenes of a world and up to three real spheres whose centres lie on the ray's axis at arbitrary positions
with arbitrary radii: nested, disjoint or touching, in any tree arrangement.  The axis itself is placed
along listed directions.  The expected answer comes from comparing intervals on the axis."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P05"
PRELOAD = ("pvtrace.scene.scene", "pvtrace.algorithm.photon_tracer", "pvtrace.geometry.sphere", "pvtrace.geometry.utils", "pvtrace.geometry.intersection")
BOUNDS = {"objects": "world plus up to three convex objects (spheres) crossed through their centres, or missed",
          "positions": "arbitrary centres in [-40,40], radii 0.1..30, ray anywhere on the axis, gaps at least 1e-6 or exactly zero between "
                       "touching neighbours", "outside": "coincident faces of nested objects, concave shapes, meshes and boxes (trimesh)"}
ASSUMPTIONS = ["double rounding not modelled beyond witness replays"]
GAP = 1e-6
TOL = 1e-9


def same(H, a, b):
    return H.And(a - b <= TOL, b - a <= TOL)


def scene_of(H, tree, frame, axis):
    """tree: list of parent indices (None = world); returns nodes and the [lo, hi] interval of each on the axis"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    W = 100.0
    world = Node(name="world", geometry=Sphere(W))
    nodes, iv = [world], [(H.q(-100), H.q(100))]
    pos = []
    for k, par in enumerate(tree):
        c = H.real("c%d" % k, -40, 40)
        r = H.real("r%d" % k, 0.1, 30)
        parent = world if par is None else nodes[par + 1]
        off = 0.0 if par is None else pos[par]
        rel = c - off
        if frame is not None and par is None:
            # children of the world are turned; their own children are placed in the turned frame
            n = Node(name="n%d" % k, parent=parent, geometry=Sphere(r), location=tuple(rel * a for a in axis))
            import numpy
            cols = [conv(H, v) for v in FRAMES[frame]]
            n.pose = numpy.array([[cols[j][i] for j in range(3)] + [rel * axis[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
        elif frame is not None:
            cols = [conv(H, v) for v in FRAMES[frame]]
            loc = tuple(rel * sum(cols[i][j] * axis[j] for j in range(3)) for i in range(3))
            n = Node(name="n%d" % k, parent=parent, geometry=Sphere(r), location=loc)
        else:
            n = Node(name="n%d" % k, parent=parent, geometry=Sphere(r), location=tuple(rel * a for a in axis))
        nodes.append(n)
        iv.append((c - r, c + r))
        pos.append(c)
    return Scene(world), nodes, iv


def arrangement(H, iv, touching):
    """assume every pair is nested with a gap, disjoint with a gap, or (where allowed) touching"""
    n = len(iv)
    for i in range(1, n):
        for j in range(i + 1, n):
            a, b = iv[i], iv[j]
            opts = [H.And(a[0] >= b[0] + GAP, a[1] <= b[1] - GAP), H.And(b[0] >= a[0] + GAP, b[1] <= a[1] - GAP),
                    a[1] <= b[0] - GAP, b[1] <= a[0] - GAP]
            if touching and (i, j) == (1, 2):
                # touching up to rounding: the faces may come in either order
                e = H.real("e", -1e-13, 1e-13)
                opts = [a[1] - b[0] == e] if H.mode == "sym" else [H.abs(a[1] - b[0]) < 1e-12]
            H.assume(H.Or(*opts))


def expected(H, iv, x, sg):
    """(crossing position, indices of the surfaces there, medium before, medium after or None)"""
    best = None
    for k, (lo, hi) in enumerate(iv):
        for e in (lo, hi):
            t = (e - x) * sg
            if t > 1e-9:
                if best is None or t < best:
                    best = t
    X = x + sg * best
    surf = [k for k, (lo, hi) in enumerate(iv) if bool(H.Or(same(H, lo, X), same(H, hi, X)))]
    # just before / just after the crossing
    def inside(k, side):
        lo, hi = iv[k]
        if sg * side > 0:
            return H.And(lo <= X + TOL, X < hi - TOL)
        return H.And(lo < X - TOL, X <= hi + TOL)
    def innermost(side):
        cand = [k for k in range(len(iv)) if bool(inside(k, side))]
        best = None
        for k in cand:
            if best is None or iv[k][1] - iv[k][0] < iv[best][1] - iv[best][0]:
                best = k
        return best
    return best, X, surf, innermost(-1), innermost(1)


def nearest(H, tree, frame, sg, start, touching=False):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    axis = conv(H, FRAMES[frame][0]) if frame is not None else H.qv(0, 0, 1)
    world_dir = tuple(a * sg for a in axis)
    if frame is not None:
        axis_w = conv(H, FRAMES[5][1])
        axis = axis_w
        world_dir = tuple(a * sg for a in axis)
    scene, nodes, iv = scene_of(H, tree, frame, axis)
    arrangement(H, iv, touching)
    if start == "free":
        x = H.real("x", -90, 90)
        for lo, hi in iv[1:]:
            H.assume(H.And(H.Or(x >= lo + GAP, x <= lo - GAP), H.Or(x >= hi + GAP, x <= hi - GAP)))
    else:
        x = iv[1][0] if start == "lo" else iv[1][1]
        for lo, hi in iv[2:]:
            ok = [x >= lo + GAP, x <= lo - GAP]
            ok2 = [x >= hi + GAP, x <= hi - GAP]
            if touching:
                ok.append(same(H, x, lo))
                ok2.append(same(H, x, hi))
            H.assume(H.And(H.Or(*ok), H.Or(*ok2)))
    ray = Ray(position=tuple(x * a for a in axis), direction=world_dir, wavelength=555.0)
    t, X, surf, before, after = expected(H, iv, x, sg)
    got = photon_tracer.next_hit(scene, ray)
    if got is None:
        H.fail("a surface ahead is found")
        return
    hit, (container, adjacent), point, dist = got
    H.check(any(hit is nodes[k] for k in surf), "the surface hit belongs to the nearest object")
    H.check_close(dist, t, "distance to the nearest surface", tol=1e-6)
    H.check_close3(point, tuple(X * a for a in axis), "position of the nearest surface", tol=1e-6)
    H.check(container is nodes[before], "medium before the surface")
    if after is None:
        H.check(hit is nodes[0] and container is nodes[0] and adjacent is None, "with nothing else ahead the ray leaves through the world boundary")
    else:
        H.check(adjacent is nodes[after], "medium beyond the surface")


def missed(H, d):
    """an object the ray does not meet never affects the outcome"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    world = Node(name="world", geometry=Sphere(100.0))
    r = H.real("r", 0.1, 20)
    loc = H.vec3("c", -30, 30)
    n = Node(name="n", parent=world, geometry=Sphere(r), location=loc)
    z = H.real("z", -60, 60)
    d = float(d)
    off = loc[0] * loc[0] + loc[1] * loc[1] - r * r
    ahead = (loc[2] - z) * d
    clear = H.Or(off >= 1e-3, H.And(ahead <= -1e-3, ahead * ahead - r * r >= 1e-2))
    H.assume(clear)
    got = photon_tracer.next_hit(Scene(world), Ray(position=(0.0, 0.0, z), direction=(0.0, 0.0, d), wavelength=555.0))
    if got is None:
        H.fail("a surface ahead is found")
        return
    hit, (container, adjacent), point, dist = got
    H.check(hit is world and container is world and adjacent is None, "with nothing else ahead the ray leaves through the world boundary")
    H.check_close(dist, 100 - z * d, "distance to the nearest surface", tol=1e-6)


JOBS = []
for nm, tree in [("one", (None,)), ("two", (None, None)), ("child", (None, 0))]:
    for sg in (1, -1):
        for start in ("free", "lo", "hi"):
            JOBS.append(Job("%s/%+d/%s" % (nm, sg, start), nearest, tree=tree, frame=None, sg=sg, start=start))
JOBS.append(Job("two-turned", nearest, tree=(None, None), frame=5, sg=1, start="free"))
JOBS.append(Job("child-turned", nearest, tree=(None, 0), frame=4, sg=-1, start="free"))
for sg in (1, -1):
    for start in ("free", "lo", "hi"):
        JOBS.append(Job("touching/%+d/%s" % (sg, start), nearest, tree=(None, None), frame=None, sg=sg, start=start, touching=True))
        for nm, tree in (("three", (None, None, None)), ("three-nested", (None, 0, 1))):
            q = start == "free" and ((nm == "three") == (sg > 0))
            JOBS.append(Job("%s/%+d/%s" % (nm, sg, start), nearest, tree=tree, frame=None, sg=sg, start=start, opts=dict(weight=9),
                            tiers=("quick", "thorough") if q else ("thorough",)))
    JOBS.append(Job("touching-three/%+d" % sg, nearest, tree=(None, None, None), frame=None, sg=sg, start="free", touching=True, opts=dict(weight=8)))
    JOBS.append(Job("missed/%+d" % sg, missed, d=sg))
