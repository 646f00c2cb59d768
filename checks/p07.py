"""Fresnel reflectivity, mirror reflection and refraction of the Python tracer.

The optics functions and the default surface delegate run on arbitrary refractive indices and angles;
results are compared with an independent statement of the Fresnel, Snell and mirror laws."""
import math
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P07"
PRELOAD = ("pvtrace.material.utils", "pvtrace.material.surface", "pvtrace.material.material", "pvtrace.scene.node", "pvtrace.scene.scene",
           "pvtrace.geometry.sphere", "pvtrace.geometry.cylinder", "pvtrace.geometry.box")
BOUNDS = {"refractive indices": "any pair in [1, 4]", "angles": "any incidence 0..90 degrees for the functions; for the surface delegate "
          "incidence exactly normal, or at least 1e-2 rad from normal and 1e-3 from grazing", "directions": "arbitrary unit vectors for mirror reflection; for "
          "refraction an arbitrary direction in the plane of incidence of listed and of arbitrarily turned frames"}
ASSUMPTIONS = ["sine, cosine, arccosine and arcsine are related by their defining identities and monotonicity"]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def fresnel_oracle(H, c, s, n1, n2):
    """unpolarised reflectivity from the amplitude ratios, c and s the incident cosine and sine"""
    st = n1 * s / n2
    ct = H.sqrt(1 - st * st)
    rs = (n1 * c - n2 * ct) / (n1 * c + n2 * ct)
    rp = (n2 * c - n1 * ct) / (n2 * c + n1 * ct)
    return (rs * rs + rp * rp) / 2


def indices(H, n1, n2, order):
    if order == "up":
        H.assume(n1 <= n2)
    elif order == "down":
        H.assume(n1 >= n2)


def reflectivity(H, order, what):
    from pvtrace.material.utils import fresnel_reflectivity
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    a = H.angle("a", 0, 1)
    c, s = H.cos(a), H.sin(a)
    if order == "tir":
        H.assume(n1 * s >= n2 + 1e-6)
        R = fresnel_reflectivity(a, n1, n2)
        H.check_close(R, 1.0, "reflectivity beyond the critical angle is one")
        return
    indices(H, n1, n2, order)
    H.assume(n1 * s <= n2 - 1e-6)
    R = fresnel_reflectivity(a, n1, n2)
    if what == "value":
        H.check_close(R, fresnel_oracle(H, c, s, n1, n2), "reflectivity equals the unpolarised Fresnel value", tol=1e-6)
    else:
        H.check_ge(R, 0.0, "reflectivity is at least zero")
        H.check_le(R, 1.0, "reflectivity is at most one")


def normal_incidence(H):
    from pvtrace.material.utils import fresnel_reflectivity
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    q = (n1 - n2) / (n1 + n2)
    H.check_close(fresnel_reflectivity(0.0, n1, n2), q * q, "reflectivity at normal incidence")


def mirror(H, sign):
    from pvtrace.material.utils import specular_reflection
    n = H.unit3("n")
    d = H.vec3("d", -1, 1)
    n = tuple(sign * x for x in n)
    r = tuple(specular_reflection(d, n))
    k = dot(d, n)
    H.check_close(dot(r, r), dot(d, d), "a reflected direction keeps its length")
    H.check_close(dot(r, n), -k, "a reflected direction leaves on the incident side")
    for i in range(3):
        H.check_close(r[i] + k * n[i], d[i] - k * n[i], "reflection leaves the tangential part unchanged")


def frame_of(H, name):
    """(normal, in-plane, out-of-plane) unit vectors"""
    if name == "free-xy":
        a, b = H.unit2("n")
        return (a, b, 0.0), (-b, a, 0.0), (0.0, 0.0, 1.0)
    if name == "side":
        return H.qv((5, 13), (-12, 13), 0), H.qv((36, 65), (15, 65), (52, 65)), H.qv((-48, 65), (-20, 65), (39, 65))
    if name == "free-yz":
        a, b = H.unit2("n")
        return (0.0, a, b), (0.0, -b, a), (1.0, 0.0, 0.0)
    f = [conv(H, v) for v in FRAMES[name]]
    return f[0], f[1], f[2]


def refraction(H, frame, order, flipped):
    from pvtrace.material.utils import fresnel_refraction
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    indices(H, n1, n2, order)
    n, t, b = frame_of(H, frame)
    s, c = H.unit2("d")
    H.assume(c >= 0)
    H.assume(n1 * n1 * s * s <= n2 * n2 - 1e-6)
    d = tuple(c * n[i] + s * t[i] for i in range(3))
    nn = tuple(-x for x in n) if flipped else n
    r = tuple(fresnel_refraction(d, nn, n1, n2))
    H.check_close(dot(r, r), 1.0, "a refracted direction has unit length", tol=1e-6)
    H.check_close(dot(r, b), 0.0, "a refracted direction lies in the plane of incidence")
    H.check_close(n2 * dot(r, t), n1 * s, "refraction obeys Snell's law", tol=1e-6)
    if H.mode == "sym":
        H.check(H.Implies(c > 0, dot(r, n) > 0), "a refracted ray leaves on the far side")
    else:
        H.check(c < 1e-6 or dot(r, n) > 0, "a refracted ray leaves on the far side")


class Flipped:
    """a geometry whose stored normals point the other way"""

    def __init__(self, g):
        self.g = g

    def normal(self, p):
        import numpy as np
        return tuple(-np.array(self.g.normal(p)))

    def __getattr__(self, k):
        return getattr(self.g, k)


def shape_at(H, shape, frame):
    """(geometry, surface point, outward normal, two tangents)"""
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.cylinder import Cylinder
    from pvtrace.geometry.box import Box
    n, t, b = frame_of(H, frame)
    if shape == "sphere":
        return Sphere(2.0), tuple(2 * x for x in n), n, t, b
    if shape == "side":
        z = H.real("z", -0.9, 0.9)
        return Cylinder(2.0, 3.0), (3 * n[0], 3 * n[1], z), n, t, b
    if shape == "cap":
        x, y = H.real("x", -1, 1), H.real("y", -1, 1)
        s = H.pick("cap", [1, -1])
        u, v = (H.q(3, 5), H.q(-4, 5)) if frame == 0 else H.unit2("t")
        return Cylinder(2.0, 3.0), (x, y, 1.0 * s), (0.0, 0.0, 1.0 * s), (u, v, 0.0), (-v, u, 0.0)
    x, y = H.real("x", -1, 1), H.real("y", -1, 1)
    s = H.pick("face", [1, -1])
    k = H.pick("axis", [0, 1, 2])
    size = (4.0, 5.0, 6.0)
    p = [x, y]
    p.insert(k, s * size[k] / 2)
    nn = [0.0, 0.0, 0.0]
    nn[k] = 1.0 * s
    t = [0.0, 0.0, 0.0]
    t[(k + 1) % 3] = 1.0
    b = [0.0, 0.0, 0.0]
    b[(k + 2) % 3] = 1.0
    return Box(size), tuple(p), tuple(nn), tuple(t), tuple(b)


def delegate(H, shape, frame, side, flipped, what):
    """the default surface rule at a point of a real shape, hit from inside or from outside"""
    from pvtrace.material.surface import Surface, FresnelSurfaceDelegate
    from pvtrace.material.material import Material
    from pvtrace.scene.node import Node
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.light.ray import Ray
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    g, p, n, t, b = shape_at(H, shape, frame)
    if flipped:
        g = Flipped(g)
    if what == "normal":
        s, c = 0.0, 1.0
    else:
        s, c = H.unit2("d")
        H.assume(H.And(c >= 1e-3, s >= 1e-2))
    inc = tuple(-side * x for x in n)       # incident side to far side
    d = tuple(c * inc[i] + s * t[i] for i in range(3))
    container = Node(name="c", geometry=Sphere(1.0, material=Material(n1)))
    adjacent = Node(name="a", geometry=Sphere(1.0, material=Material(n2)))
    surface = Surface()
    ray = Ray(position=p, direction=d, wavelength=555.0)
    D = surface.delegate
    args = (surface, ray, g, container, adjacent)
    if what == "mirror":
        r = D.reflected_direction(*args)
        H.check(isinstance(r, tuple) and len(r) == 3, "a direction is a triple")
        H.check_close3(r, tuple(s * t[i] - c * inc[i] for i in range(3)), "a reflected ray is the mirror image about the normal")
        return
    if what == "tir":
        H.assume(n1 * s >= n2 + 1e-5)
        H.check_close(D.reflectivity(*args), 1.0, "reflectivity beyond the critical angle is one")
        return
    H.assume(n1 * s <= n2 - 1e-5)
    st = n1 * s / n2
    ct = H.sqrt(1 - st * st)
    if what == "snell" or what == "normal":
        r = D.transmitted_direction(*args)
        H.check(isinstance(r, tuple) and len(r) == 3, "a direction is a triple")
        H.check_close3(r, tuple(st * t[i] + ct * inc[i] for i in range(3)), "a transmitted ray is refracted by Snell's law to the far side", tol=1e-6)
    if what == "value" or what == "normal":
        H.check_close(D.reflectivity(*args), fresnel_oracle(H, c, s, n1, n2), "reflectivity equals the unpolarised Fresnel value", tol=1e-6)


JOBS = [Job("reflectivity/%s/%s" % (o, w), reflectivity, order=o, what=w) for o in ("up", "down") for w in ("value", "range")]
JOBS.append(Job("reflectivity/tir", reflectivity, order="tir", what="value"))
JOBS.append(Job("reflectivity/normal", normal_incidence))
JOBS += [Job("mirror/%+d" % s, mirror, sign=s) for s in (1, -1)]
for fr in ("free-xy", "free-yz", 0, 3, 5):
    for fl in (False, True):
        for o in ("up", "down"):
            q = ("quick", "thorough") if (fr in ("free-xy", 5) or not fl) else ("thorough",)
            JOBS.append(Job("refraction/%s/%s%s" % (fr, o, "/flipped" if fl else ""), refraction, frame=fr, order=o, flipped=fl, tiers=q))
for shape, fr in (("sphere", 5), ("sphere", 3), ("side", "side"), ("cap", 0), ("box", 0)):
    for side in (1, -1):
        for fl in (False, True):
            for what in ("value", "mirror", "snell", "tir", "normal"):
                q = ("quick", "thorough") if (not fl or shape == "sphere" and fr == 5) else ("thorough",)
                JOBS.append(Job("delegate/%s-%s/%s/%s%s" % (shape, fr, "out" if side > 0 else "in", what, "/flipped" if fl else ""), delegate,
                                shape=shape, frame=fr, side=side, flipped=fl, what=what, tiers=q))
