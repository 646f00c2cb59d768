"""Reflect-or-transmit decisions of the Python tracer.

Surfaces with arbitrary reflectivity and direction rules are asked for decisions with arbitrary random
draws, on their own and inside the tracing loop on nested objects that may be turned and moved."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P08"
PRELOAD = ("pvtrace.material.surface", "pvtrace.material.material", "pvtrace.scene.node", "pvtrace.scene.scene", "pvtrace.light.ray",
           "pvtrace.geometry.sphere", "pvtrace.algorithm.photon_tracer")
BOUNDS = {"reflectivity": "any value in [0,1], the integers 0 and 1, and the default Fresnel rule for indices in [1,4]",
          "directions": "any reflected / transmitted direction returned by a custom rule",
          "tracing": "first and second event of a ray on a sphere (or a sphere nested in another) placed by listed rotations, hit from inside "
                     "or outside at listed incidence angles, from any distance"}
ASSUMPTIONS = ["a uniform random draw is any value in [0,1)"]


def make_delegate(H, r, refl, trans, log):
    from pvtrace.material.surface import SurfaceDelegate

    class Custom(SurfaceDelegate):
        def reflectivity(self, *a):
            log.append(("r", a))
            return r

        def reflected_direction(self, *a):
            log.append(("d", a))
            return refl(a[1]) if callable(refl) else refl

        def transmitted_direction(self, *a):
            log.append(("t", a))
            return trans(a[1]) if callable(trans) else trans
    return Custom()


def some_ray(H):
    from pvtrace.light.ray import Ray
    return Ray(position=H.vec3("p", -1e6, 1e6), direction=H.unit3("d"), wavelength=H.real("nm", 1, 1e5), travelled=H.real("tr", 0, 1e9),
               duration=H.real("du", 0, 1e6), source="lamp")


def setup(H):
    from pvtrace.scene.node import Node
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    g = Sphere(1.0, material=Material(1.5))
    return g, Node(name="c", geometry=Sphere(1.0, material=Material(1.0))), Node(name="a", geometry=g)


def decision(H, kind):
    from pvtrace.material.surface import Surface
    g, c, a = setup(H)
    if kind == "real":
        r = H.real("r", 0, 1)
    elif kind == "int":
        r = H.pick("r", [0, 1])
    else:
        r = H.pick("r", [0.0, 1.0])
    log = []
    s = Surface(delegate=make_delegate(H, r, None, None, log))
    ray = some_ray(H)
    got = s.is_reflected(ray, g, c, a)
    u = H.real("u1", 0, 1, hi_open=True)
    H.check(H.Iff(got, u < r), "a ray is reflected exactly when the draw falls below the reflectivity")
    H.check(len(log) >= 1 and all(x is y for x, y in zip(log[0][1], (s, ray, g, c, a))),
            "the surface rule is asked with this surface, ray, geometry and both media")


def fresnel(H, order, what):
    from pvtrace.material.surface import Surface
    from pvtrace.light.ray import Ray
    from pvtrace.scene.node import Node
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    s, c = H.unit2("d")
    H.assume(H.And(c >= 1e-3, s >= 1e-2))
    n, t, b = [conv(H, v) for v in FRAMES[5]]
    ray = Ray(position=tuple(2 * x for x in n), direction=tuple(c * n[i] + s * t[i] for i in range(3)), wavelength=500.0)
    inner = Node(name="in", geometry=Sphere(2.0, material=Material(n1)))
    outer = Node(name="out", geometry=Sphere(9.0, material=Material(n2)))
    sf = Surface()
    args = (ray, inner.geometry, inner, outer)
    if what == "tir":
        H.assume(n1 * s >= n2 + 1e-5)
        H.check(H.Iff(sf.is_reflected(*args), True), "beyond the critical angle every ray is reflected")
        return
    H.assume(n1 * s <= n2 - 1e-5)
    st = n1 * s / n2
    ct = H.sqrt(1 - st * st)
    rs = (n1 * c - n2 * ct) / (n1 * c + n2 * ct)
    rp = (n2 * c - n1 * ct) / (n2 * c + n1 * ct)
    R = (rs * rs + rp * rp) / 2
    got = sf.is_reflected(*args)
    u = H.real("u1", 0, 1, hi_open=True)
    H.check_iff(got, u, R, "a ray is reflected exactly when the draw falls below the reflectivity")


def same_rest(H, a, b):
    """everything but the direction is unchanged"""
    H.check_close3(tuple(a.position), tuple(b.position), "the position is unchanged at an interface")
    H.check_close(a.wavelength, b.wavelength, "the wavelength is unchanged at an interface")
    H.check_close(a.travelled, b.travelled, "the travelled distance is unchanged at an interface")
    H.check_close(a.duration, b.duration, "the time is unchanged at an interface")
    H.check(a.source == b.source, "the source is unchanged at an interface")


def redirect(H, kind):
    from pvtrace.material.surface import Surface
    g, c, a = setup(H)
    d1, d2 = H.unit3("x"), H.unit3("y")
    log = []
    s = Surface(delegate=make_delegate(H, 0.5, d1, d2, log))
    ray = some_ray(H)
    new = (s.reflect if kind == "d" else s.transmit)(ray, g, c, a)
    H.check_close3(new.direction, d1 if kind == "d" else d2, "the direction is the one the surface rule gave")
    H.check(len(log) == 1 and log[0][0] == kind and all(x is y for x, y in zip(log[0][1], (s, ray, g, c, a))),
            "the surface rule is asked with this surface, ray, geometry and both media")
    same_rest(H, new, ray)


def bad_rule(H, kind, which):
    from pvtrace.material.surface import Surface
    g, c, a = setup(H)
    d = [0.0, 0.0, 1.0] if kind == "list" else (0.0, 1.0)
    s = Surface(delegate=make_delegate(H, "half" if kind == "str" else 0.5, d, d, []))
    ray = some_ray(H)
    try:
        {"r": s.is_reflected, "d": s.reflect, "t": s.transmit}[which](ray, g, c, a)
    except ValueError:
        H.check(True, "a malformed surface rule is refused")
        return
    H.fail("a malformed surface rule is refused")


def null(H):
    from pvtrace.material.surface import Surface, NullSurfaceDelegate
    g, c, a = setup(H)
    s = Surface(delegate=NullSurfaceDelegate())
    ray = some_ray(H)
    H.check(H.Not(s.is_reflected(ray, g, c, a)), "a surface that does not reflect never reflects")
    new = s.transmit(ray, g, c, a)
    H.check_close3(tuple(new.direction), tuple(ray.direction), "a surface that does not reflect transmits straight through")
    same_rest(H, new, ray)


def traced(H, frame, where, nested):
    """first interface event of a traced ray with an arbitrary surface rule on a sphere"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    from pvtrace.material.surface import Surface
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    import numpy
    e = [conv(H, v) for v in FRAMES[frame]]       # pose columns of the node
    R = 2.0
    r = H.real("r", 0, 1)
    # new directions in the local frame: towards the inside (a) and the outside (b)
    angles = [H.qv((3, 5), (4, 5)), H.qv((-12, 13), (5, 13)), H.qv(0, 1)]
    a_s, a_c = H.pick("a", angles)
    b_s, b_c = H.pick("b", angles)
    log = []
    into = (a_s, 0.0, -a_c)         # surface point is the local north pole
    away = (0.0, b_s, b_c)
    delegate = make_delegate(H, r, into if where == "in" else away, away if where == "in" else into, log)
    world = Node(name="world", geometry=Sphere(50.0, material=Material(1.0)))
    parent = world
    if nested:
        parent = Node(name="shell", parent=world, geometry=Sphere(6.0, material=Material(1.2)))
    ball = Node(name="ball", parent=parent, geometry=Sphere(R, material=Material(1.5, surface=Surface(delegate=delegate))))
    loc = H.qv((1, 2), (-1, 3), 1)
    ball.pose = numpy.array([[e[j][i] for j in range(3)] + [loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])

    def w(v, p=0):
        return tuple(sum(e[j][i] * v[j] for j in range(3)) + p * loc[i] for i in range(3))
    s, c = H.pick("c", angles[:2])
    k = H.real("k", 0.01, 2)      # how far the ray starts from the surface
    if where == "in":
        d = (s, 0.0, c)
        H.assume(k <= 2 * R * c - 0.01)      # the start is inside, the ray leaves at the pole
    else:
        d = (s, 0.0, -c)
    o = tuple((0.0, 0.0, R)[i] - k * d[i] for i in range(3))
    ray = Ray(position=w(o, 1), direction=w(d), wavelength=555.0, source="lamp")
    it = photon_tracer.step_forward(Scene(world), ray)
    g0 = next(it)
    H.check(g0[1] is Event.GENERATE, "a history starts with generation")
    new, event, meta = next(it)
    u = H.real("u1", 0, 1, hi_open=True)
    H.check_iff(event is Event.REFLECT, u, r, "a ray is reflected exactly when the draw falls below the reflectivity")
    H.check(event in (Event.REFLECT, Event.TRANSMIT), "an interface either reflects or transmits")
    H.check_close3(tuple(new.position), w((0.0, 0.0, R), 1), "the ray is moved to the surface it hits", tol=1e-6)
    inner, outer = "ball", ("shell" if nested else "world")
    H.check(meta["hit"] == "ball" and (meta["container"], meta["adjacent"]) == ((inner, outer) if where == "in" else (outer, inner)),
            "the event names the surface and both media")
    H.check_close3(tuple(meta["normal"]), w((0.0, 0.0, 1.0)), "the event carries the outward normal", tol=1e-6)
    inside_now = (event is Event.REFLECT) == (where == "in")
    H.check_close3(tuple(new.direction), w(into if inside_now else away), "the direction is the one the surface rule gave", tol=1e-6)
    H.check_close(new.wavelength, 555.0, "the wavelength is unchanged at an interface")
    H.check(new.source == "lamp", "the source is unchanged at an interface")
    H.check_close(new.travelled, k, "the travelled distance is that to the surface", tol=1e-6)
    nxt = photon_tracer.next_hit(Scene(world), new)
    if nxt is None:
        H.fail("a surface ahead is found")
        return
    H.check(nxt[1][0].name == (inner if inside_now else outer), "a reflected ray stays in its medium and a transmitted ray enters the other")


JOBS = [Job("decision/" + k, decision, kind=k) for k in ("real", "int", "ends")]
JOBS += [Job("fresnel/%s" % w, fresnel, order="any", what=w) for w in ("value", "tir")]
JOBS += [Job("redirect/" + k, redirect, kind=k) for k in ("d", "t")]
JOBS += [Job("malformed/%s/%s" % (k, w), bad_rule, kind=k, which=w) for k, w in (("str", "r"), ("list", "d"), ("list", "t"), ("short", "d"), ("short", "t"))]
JOBS.append(Job("null", null))
for fr in (0, 5, 4):
    for wh in ("in", "out"):
        for ne in (False, True):
            JOBS.append(Job("traced/%d/%s%s" % (fr, wh, "/nested" if ne else ""), traced, frame=fr, where=wh, nested=ne,
                            tiers=("quick", "thorough") if fr != 4 else ("thorough",)))
