"""Shape intersections and surface normals of the compiled engine.

A single shape with arbitrary dimensions is crossed by a ray with arbitrary origin.  The shape is either the
whole scene (the first crossing is then where the ray leaves it) or an object whose surface does not bend
light inside a large world box (the ray's log then lists every crossing ahead, with the outward normal).
Expected crossings and normals come from the line equation."""
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, dot, along, TRANSMIT, EXIT, GENERATE
from vlib.frames import FRAMES, conv
from checks.p01 import cyl_expected, HDIRS

PROPERTY = "P03"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"dimensions": "box sides, cylinder lengths and radii 0.05..20, sphere radii 0.01..50", "origins": "coordinates in [-50,50]",
          "directions": "listed rational directions covering axial, planar and generic ones; arbitrary unit directions for spheres from listed origins",
          "outside": "within 1e-4 (relative) of tangency, edges, rims and the surface itself (unless exactly on it)"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-6", "the parallel loop runs one ray per chunk on one thread"]
W = 400.0


def gap(H, a, b, e):
    H.assume(H.Or(a - b >= e, b - a >= e))


def scene_child(H, kind, dims, place=None):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    world = Node(name="world", geometry=kern.shape(H, "box", (W, W, W), kern.material(1.0, null=True)))
    n = Node(name="shape", parent=world, geometry=kern.shape(H, kind, dims, kern.material(1.0, null=True)))
    if place is not None:
        n.pose = place
    return Scene(world)


def scene_root(H, kind, dims):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    return Scene(Node(name="shape", geometry=kern.shape(H, kind, dims, kern.material(1.0, null=True))))


def walk(H, kind, dims, o, d, expect, normals, what, place=None):
    """all crossings ahead with their normals; expect: positions; normals: outward normal of each"""
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, scene_child(H, kind, dims, place), o, d, max_events=8, maxsteps=6)
    if ev is None:
        return
    seen = [e for e in ev if e.kind == TRANSMIT]
    H.check(all(e.hit == 1 for e in seen) and ev[0].kind == GENERATE and ev[-1].kind == EXIT and len(ev) == len(seen) + 2,
            what + ": the ray crosses the shape only, then leaves through the world")
    H.check(len(seen) == len(expect), what + ": number of crossings ahead")
    if len(seen) == len(expect):
        for k, (e, x, n) in enumerate(zip(seen, expect, normals)):
            H.check_close3(e.position, x, what + ": crossing position, nearest first", tol=1e-6)
            H.check_close3(e.normal, n, what + ": outward unit normal of the face crossed", tol=1e-6)
            H.check(e.container == (0 if len(seen) - k == 2 else 1), what + ": inside after entering, outside before")


def leave(H, kind, dims, o, d, expect, what):
    """the shape is the whole scene: the first crossing ahead, if any"""
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, scene_root(H, kind, dims), o, d, max_events=8, maxsteps=6)
    if ev is None:
        return
    if not expect:
        H.check(len(ev) == 1, what + ": nothing ahead, nothing met")
    else:
        H.check(len(ev) == 2 and ev[1].kind == EXIT, what + ": the first crossing ahead is met")
        if len(ev) == 2:
            H.check_close3(ev[1].position, expect[0], what + ": position of the first crossing", tol=1e-6)


# --- sphere ---------------------------------------------------------------------

def sphere(H, f, mode):
    r = H.real("r", 0.01, 50)
    l, p, q = (H.real(n, -50, 50) for n in "lpq")
    d, e1, e2 = (conv(H, v) for v in FRAMES[f])
    o = tuple(l * d[i] + p * e1[i] + q * e2[i] for i in range(3))
    c = l * l + p * p + q * q - r * r
    disc = r * r - p * p - q * q
    m = r * r * 1e-4
    H.assume(H.Or(c >= m, c <= -m))
    H.assume(H.Or(disc >= m, disc <= -m))
    expect = []
    if disc > 0:
        s = H.sqrt(disc)
        if c < 0:
            expect = [along(o, d, -l + s)]
        elif l < 0:
            expect = [along(o, d, -l - s), along(o, d, -l + s)]
    if mode == "root":
        leave(H, "sphere", r, o, d, expect, "sphere")
    else:
        walk(H, "sphere", r, o, d, expect, [tuple(x / r for x in e) for e in expect], "sphere")


def sphere_anydir(H, o):
    r = H.real("r", 0.01, 100)
    d = H.unit3("d")
    o = H.qv(*o)
    b = dot(o, d)
    c = dot(o, o) - r * r
    disc = b * b - c
    m = r * r * 1e-4
    H.assume(H.Or(c >= m, c <= -m))
    H.assume(H.Or(disc >= m, disc <= -m))
    K = Kernel(H)
    cs, ev, out = kern.trace1(H, K, scene_root(H, "sphere", r), o, d, max_events=8, maxsteps=6)
    if ev is None:
        return
    some = bool(c < 0) or (bool(disc > 0) and bool(b < 0))
    H.check(len(ev) == (2 if some else 1), "sphere: something is met exactly when the line crosses ahead")
    if len(ev) == 2:
        h = ev[1].position
        H.check_close(dot(h, h), r * r, "sphere: crossing lies on the surface", tol=1e-6)
        t = dot(tuple(h[i] - o[i] for i in range(3)), d)
        H.check(t >= 0, "sphere: crossing lies ahead")
        H.check(dot(h, d) >= 0 if bool(c < 0) else dot(h, d) <= 0, "sphere: the nearer crossing is met")


def sphere_surface(H, u, d):
    r = H.real("r", 0.01, 50)
    u, d = H.qv(*u), H.qv(*d)
    o = tuple(r * x for x in u)
    t = -2 * dot(o, d)
    leave(H, "sphere", r, o, d, [along(o, d, t)] if dot(u, d) < 0 else [], "sphere, from its surface")


# --- box ------------------------------------------------------------------------

def box_expected(H, S, o, d, on=None):
    """[(t, normal)] of the crossings of the whole line with the box; assumes away edges and grazing faces"""
    lo, hi = None, None
    for k in range(3):
        if d[k] == 0:
            g = S[k] / 2 - H.abs(o[k])
            if on != k:
                H.assume(H.Or(g >= S[k] * 1e-4, g <= -S[k] * 1e-4))
            if not g > 0:
                return []
            continue
        sg = 1 if d[k] > 0 else -1
        a, b = (-sg * S[k] / 2 - o[k]) / d[k], (sg * S[k] / 2 - o[k]) / d[k]
        na = tuple(-sg * 1.0 if i == k else 0.0 for i in range(3))
        nb = tuple(sg * 1.0 if i == k else 0.0 for i in range(3))
        for prev in (lo, hi):
            if prev is not None:
                gap(H, a, prev[0], 1e-5)
                gap(H, b, prev[0], 1e-5)
        if lo is None or a > lo[0]:
            lo = (a, na)
        if hi is None or b < hi[0]:
            hi = (b, nb)
    if lo[0] < hi[0]:
        return [lo, hi]
    return []


def box(H, d, mode):
    S = [H.real("s" + c, 0.05, 20) for c in "xyz"]
    o = tuple(H.real("o" + c, -50, 50) for c in "xyz")
    d = H.qv(*d)
    full = box_expected(H, S, o, d)
    ahead = []
    for t, n in full:
        H.assume(H.Or(t >= 1e-4, t <= -1e-4))
        if t > 0:
            ahead.append((t, n))
    expect = [along(o, d, t) for t, _ in ahead]
    if mode == "root":
        leave(H, "box", S, o, d, expect, "box")
    else:
        walk(H, "box", S, o, d, expect, [n for _, n in ahead], "box")


def box_surface(H, axis, side, d):
    """origin exactly on a face, away from its edges"""
    S = [H.real("s" + c, 0.05, 20) for c in "xyz"]
    o = [H.real("o" + c, -50, 50) for c in "xyz"]
    d = H.qv(*d)
    for k in range(3):
        if k == axis:
            o[k] = side * S[k] / 2
        else:
            H.assume(H.And(o[k] <= S[k] * 0.49, o[k] >= -S[k] * 0.49))
    inward = d[axis] * side < 0
    full = box_expected(H, S, o, d, on=axis)
    leave(H, "box", S, tuple(o), d, [along(o, d, full[1][0])] if inward and full else [], "box, from its surface")


# --- cylinder -------------------------------------------------------------------

def cylinder(H, h, dh, dz, mode):
    L = H.real("L", 0.05, 20)
    R = H.real("R", 0.05, 20)
    p, q, z = (H.real(n, -50, 50) for n in "pqz")
    h, dh, dz = H.qv(*h), H.q(*dh), H.q(*dz)
    o = (p * h[0] - q * h[1], p * h[1] + q * h[0], z)
    d = (dh * h[0], dh * h[1], dz)
    seg = cyl_expected(H, L, R, p, q, z, dh, dz)
    expect, normals = [], []
    if seg is not None:
        for k, t in enumerate(seg):
            H.assume(H.Or(t >= R * 1e-4, t <= -R * 1e-4))
            if t > 0:
                x = along(o, d, t)
                expect.append(x)
                cap = dz != 0 and (dh == 0 or bool(H.abs(H.abs(x[2]) - L / 2) <= 1e-9 * L))
                if cap:
                    normals.append((0.0, 0.0, (1.0 if k == 1 else -1.0) * (1 if dz > 0 else -1)))
                else:
                    # the engine tells caps from the side by distance: keep away from the rim
                    H.assume(H.And(x[2] <= L / 2 * (1 - 1e-3), x[2] >= -L / 2 * (1 - 1e-3)))
                    normals.append((x[0] / R, x[1] / R, 0.0))
    if mode == "root":
        leave(H, "cylinder", (L, R), o, d, expect, "cylinder")
    else:
        walk(H, "cylinder", (L, R), o, d, expect, normals, "cylinder")


def cylinder_surface(H, face, h, dh, dz):
    L = H.real("L", 0.05, 20)
    R = H.real("R", 0.05, 20)
    h, dh, dz = H.qv(*h), H.q(*dh), H.q(*dz)
    if face == "side":
        u = H.qv((3, 5), (-4, 5))
        p, q = R * u[0], R * u[1]
        z = H.real("z", -10, 10)
        H.assume(H.And(z < L * 0.49, z > -L * 0.49))
        out = u[0] * dh
    else:
        sg = 1 if face == "top" else -1
        p, q = H.real("p", -20, 20), H.real("q", -20, 20)
        z = sg * L / 2
        H.assume(p * p + q * q <= R * R * 0.98)
        out = sg * dz
    o = (p * h[0] - q * h[1], p * h[1] + q * h[0], z)
    d = (dh * h[0], dh * h[1], dz)
    seg = cyl_expected(H, L, R, p, q, z, dh, dz)
    leave(H, "cylinder", (L, R), o, d, [along(o, d, seg[1])] if out < 0 and seg is not None else [], "cylinder, from its surface")


def placed(H, kind, frame, d):
    """a turned and shifted object: crossings and normals are those of the shape in its own frame"""
    t = H.vec3("t", -30, 30)
    rows = [conv(H, v) for v in FRAMES[frame]]
    lo = tuple(H.real("o" + c, -50, 50) for c in "xyz")
    ld = H.qv(*d)
    def out(v):
        return tuple(sum(rows[j][i] * v[j] for j in range(3)) for i in range(3))
    if kind == "box":
        dims = [H.real("s" + c, 0.05, 20) for c in "xyz"]
        full = box_expected(H, dims, lo, ld)
    else:
        dims = H.real("r", 0.05, 20)
        b = dot(lo, ld)
        disc = b * b - dot(lo, lo) + dims * dims
        m = dims * dims * 1e-4
        H.assume(H.Or(disc >= m, disc <= -m))
        full = []
        if disc > 0:
            s = H.sqrt(disc)
            full = [(tt, tuple(x / dims for x in along(lo, ld, tt))) for tt in (-b - s, -b + s)]
    ahead = []
    for tt, n in full:
        H.assume(H.Or(tt >= 1e-4, tt <= -1e-4))
        if tt > 0:
            ahead.append((tt, n))
    wo = tuple(a + b for a, b in zip(out(lo), t))
    wd = out(ld)
    walk(H, kind, dims, wo, wd, [along(wo, wd, tt) for tt, _ in ahead], [out(n) for _, n in ahead], kind + ", placed",
         place=kern.pose(H, frame, t))


BDIRS = {"+x": (1, 0, 0), "-z": (0, 0, -1), "yz": (0, (3, 5), (-4, 5)), "gen1": ((2, 3), (1, 3), (-2, 3)), "gen2": ((-2, 7), (-6, 7), (3, 7))}
JOBS = []
for i in range(len(FRAMES)):
    JOBS.append(Job("sphere/root/%d" % i, sphere, f=i, mode="root", tiers=("quick", "thorough") if i in (0, 4, 6) else ("thorough",)))
    if i < 4:
        JOBS.append(Job("sphere/walk/%d" % i, sphere, f=i, mode="walk", tiers=("quick", "thorough") if i in (1, 2) else ("thorough",), opts=dict(weight=3)))
for i, o in enumerate([(0, 0, 0), (2, 0, 0), (0, 0, -7), (3, 0, 0)]):
    JOBS.append(Job("sphere_anydir/%d" % i, sphere_anydir, o=o, opts=dict(weight=3)))
for i, (u, d) in enumerate([((0, 0, 1), ((2, 3), (1, 3), (-2, 3))), (((2, 3), (1, 3), (-2, 3)), (1, 0, 0)), (((3, 5), 0, (4, 5)), (0, 0, -1)),
                            ((0, -1, 0), ((2, 7), (6, 7), (-3, 7)))]):
    JOBS.append(Job("sphere_surface/%d" % i, sphere_surface, u=u, d=d))
for n, d in BDIRS.items():
    JOBS.append(Job("box/root/" + n, box, d=d, mode="root", opts=dict(weight=2)))
    JOBS.append(Job("box/walk/" + n, box, d=d, mode="walk", opts=dict(weight=4)))
for a in range(3):
    for s in (1, -1):
        for n in ("gen1", "gen2", "yz"):
            JOBS.append(Job("box_surface/%d%s/%s" % (a, "+" if s > 0 else "-", n), box_surface, axis=a, side=s, d=BDIRS[n],
                            tiers=("quick", "thorough") if n == "gen1" else ("thorough",)))
for n, (h, dh, dz) in HDIRS.items():
    JOBS.append(Job("cylinder/root/" + n, cylinder, h=h, dh=dh, dz=dz, mode="root", opts=dict(weight=5),
                    tiers=("quick", "thorough") if n in ("+z", "xy", "gen1", "xz") else ("thorough",)))
    JOBS.append(Job("cylinder/walk/" + n, cylinder, h=h, dh=dh, dz=dz, mode="walk", opts=dict(weight=6),
                    tiers=("quick", "thorough") if n in ("-z", "+x", "gen2") else ("thorough",)))
for f, ns in (("top", ("+z", "-z", "xz", "gen1", "gen2")), ("bottom", ("+z", "-z", "xz", "gen1", "gen2")), ("side", ("+x", "xy", "xz", "gen1", "gen2"))):
    for n in ns:
        h, dh, dz = HDIRS[n]
        JOBS.append(Job("cylinder_surface/%s/%s" % (f, n), cylinder_surface, face=f, h=h, dh=dh, dz=dz,
                        tiers=("quick", "thorough") if n in ("gen1", "xz") else ("thorough",)))
JOBS.append(Job("placed/box", placed, kind="box", frame=4, d=BDIRS["gen1"], opts=dict(weight=5), tiers=("thorough",)))
JOBS.append(Job("placed/box2", placed, kind="box", frame=5, d=BDIRS["yz"], opts=dict(weight=5)))
JOBS.append(Job("placed/sphere", placed, kind="sphere", frame=6, d=BDIRS["gen2"], opts=dict(weight=5), tiers=("thorough",)))
JOBS.append(Job("placed/sphere2", placed, kind="sphere", frame=1, d=BDIRS["yz"], opts=dict(weight=5)))
