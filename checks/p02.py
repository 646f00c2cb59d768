"""Membership, surface tests, outward normals and entering tests of spheres, cylinders and boxes.

Dimensions and points are arbitrary; points are given in parametric form (inside, outside, on each
face) so that what the functions must answer is known by construction."""
from vlib.harness import Job

PROPERTY = "P02"
PRELOAD = ("pvtrace.geometry.sphere", "pvtrace.geometry.cylinder", "pvtrace.geometry.box")
BOUNDS = {"dimensions": "1e-2..50", "points": "at least 1e-6 (relative) inside or outside, or exactly on a face away from its edges",
          "outside": "membership of boxes and meshes (trimesh ray casting, compiled library)"}
ASSUMPTIONS = ["double rounding not modelled except that witnesses run on doubles", "trimesh mesh construction replaced by a stub while executing symbolically"]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def check_normal(H, n, expected, what):
    H.check_close3(tuple(n), expected, what + ": unit outward normal of the face", tol=1e-7)


def check_entering(H, shape, p, n, what):
    d = H.vec3("d", -1, 1)
    c = dot(d, n)
    H.assume(H.Or(c >= 1e-6, c <= -1e-6))
    got = shape.is_entering(p, d)
    H.check(H.Iff(got, c < 0), what + ": entering exactly when heading against the outward normal")


def sphere_vol(H):
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.01, 50)
    p = H.vec3("p", -200, 200)
    d2 = dot(p, p)
    s = Sphere(r)
    m = 1e-6
    if H.flag("inside"):
        H.assume(d2 <= r * r * (1 - m))
        H.check(s.contains(p), "sphere: inside point contained")
    else:
        H.assume(d2 >= r * r * (1 + m))
        H.check(H.Not(s.contains(p)), "sphere: outside point not contained")
    H.check(H.Not(s.is_on_surface(p)), "sphere: point off the surface is not on it")


def sphere_surf(H):
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.01, 50)
    u = H.unit3("u")
    p = tuple(r * x for x in u)
    s = Sphere(r)
    H.check(s.is_on_surface(p), "sphere: surface point on the surface")
    check_normal(H, s.normal(p), u, "sphere")


def sphere_enter(H, u):
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.01, 50)
    u = H.qv(*u)
    check_entering(H, Sphere(r), tuple(r * x for x in u), u, "sphere")


def cyl_vol(H, where):
    from pvtrace.geometry.cylinder import Cylinder
    L = H.real("L", 0.01, 50)
    R = H.real("R", 0.01, 50)
    p = H.vec3("p", -200, 200)
    rr = p[0] * p[0] + p[1] * p[1]
    m = 1e-6
    s = Cylinder(L, R)
    hz = L / 2
    if where == "inside":
        H.assume(H.And(rr <= R * R * (1 - m), p[2] <= hz * (1 - m), p[2] >= -hz * (1 - m)))
        H.check(s.contains(p), "cylinder: inside point contained")
    else:
        H.assume({"beside": rr >= R * R * (1 + m), "above": p[2] >= hz * (1 + m), "below": p[2] <= -hz * (1 + m)}[where])
        H.check(H.Not(s.contains(p)), "cylinder: outside point not contained")
    H.check(H.Not(s.is_on_surface(p)), "cylinder: point off the surface is not on it")


def cyl_face(H, face):
    from pvtrace.geometry.cylinder import Cylinder
    L = H.real("L", 0.05, 50)
    R = H.real("R", 0.05, 50)
    if face == "side":
        x, y = H.real("ux", -1, 1), H.real("uy", -1, 1)
        H.assume(x * x + y * y == 1)
        if H.mode == "conc":
            k = H.sqrt(x * x + y * y)
            x, y = x / k, y / k
        f = H.real("f", -0.499, 0.499)
        p = (R * x, R * y, f * L)
        n = (x, y, 0.0)
    else:
        sg = 1.0 if face == "top" else -1.0
        x, y = H.real("px", -50, 50), H.real("py", -50, 50)
        H.assume(x * x + y * y <= R * R * (1 - 1e-4))
        p = (x, y, sg * L / 2)
        n = (0.0, 0.0, sg)
    s = Cylinder(L, R)
    H.check(s.is_on_surface(p), "cylinder: surface point on the surface")
    check_normal(H, s.normal(p), n, "cylinder")


def cyl_enter(H, face):
    from pvtrace.geometry.cylinder import Cylinder
    L = H.real("L", 0.05, 50)
    R = H.real("R", 0.05, 50)
    if face == "side":
        n = H.qv((3, 5), (-4, 5), 0)
        p = (R * n[0], R * n[1], L * 0.3)
    else:
        sg = 1.0 if face == "top" else -1.0
        p = (R * 0.3, R * -0.5, sg * L / 2)
        n = (0.0, 0.0, sg)
    check_entering(H, Cylinder(L, R), p, n, "cylinder")


class _Mesh:
    """stand-in for trimesh.creation.box while executing symbolically"""
    def __init__(self):
        import numpy
        self.vertices = numpy.zeros((1, 3))
        self.center_mass = numpy.zeros(3)


def make_box(H, size):
    from pvtrace.geometry.box import Box
    import trimesh
    if H.mode == "sym":
        trimesh.creation.box = lambda *a, **k: _Mesh()
    return Box(size)


def box_face(H, axis, sg, enter):
    s = H.vec3("s", 0.01, 50)
    f = H.vec3("f", -0.4999, 0.4999)
    p = [f[i] * s[i] for i in range(3)]
    p[axis] = sg * s[axis] / 2
    p = tuple(p)
    n = tuple(float(sg) if i == axis else 0.0 for i in range(3))
    b = make_box(H, s)
    if enter:
        check_entering(H, b, p, n, "box")
        return
    H.check(b.is_on_surface(p), "box: surface point on the surface")
    check_normal(H, b.normal(p), n, "box")


def box_off(H, where):
    s = H.vec3("s", 0.01, 50)
    b = make_box(H, s)
    if where == "inside":
        f = H.vec3("f", -0.49999, 0.49999)
        p = tuple(f[i] * s[i] for i in range(3))
    else:
        p = list(H.vec3("p", -100, 100))
        axis, sg = where
        H.assume(sg * p[axis] >= s[axis] * 0.5001)
        p = tuple(p)
    H.check(H.Not(b.is_on_surface(p)), "box: point off the surface is not on it")


JOBS = [Job("sphere/volume", sphere_vol), Job("sphere/surface", sphere_surf)]
for i, u in enumerate([((2, 3), (1, 3), (-2, 3)), (0, 0, 1), (-1, 0, 0)]):
    JOBS.append(Job("sphere/entering/%d" % i, sphere_enter, u=u))
for w in ("inside", "beside", "above", "below"):
    JOBS.append(Job("cylinder/" + w, cyl_vol, where=w))
for f in ("top", "bottom", "side"):
    JOBS.append(Job("cylinder/face/" + f, cyl_face, face=f))
    JOBS.append(Job("cylinder/entering/" + f, cyl_enter, face=f))
JOBS.append(Job("box/inside", box_off, where="inside"))
for ax in range(3):
    for sg in (1, -1):
        JOBS.append(Job("box/face/%s%s" % ("-+"[sg > 0], "xyz"[ax]), box_face, axis=ax, sg=sg, enter=False))
        JOBS.append(Job("box/entering/%s%s" % ("-+"[sg > 0], "xyz"[ax]), box_face, axis=ax, sg=sg, enter=True))
        JOBS.append(Job("box/outside/%s%s" % ("-+"[sg > 0], "xyz"[ax]), box_off, where=(ax, sg)))
