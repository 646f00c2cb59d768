"""Compiling a scene for the engine: every number reaches the right object, and what cannot be represented is refused.

Scenes of several objects are compiled by the real compiler and traced by the real kernel with arbitrary numbers on every
object; a ray started in (or towards) one object must obey that object's own numbers."""
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, dot, GENERATE, REFLECT, TRANSMIT, ABSORB, NONRADIATIVE, SCATTER, EMIT, REACT, KILL
from vlib.frames import FRAMES, conv

PROPERTY = "P18"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"scenes": "a world with up to four objects (side by side, nested, below a group without geometry), boxes, spheres and cylinders of arbitrary size, "
          "up to three levels of listed rotations with arbitrary offsets",
          "numbers": "any refractive index, coefficient, quantum yield, lifetime, emission and absorption table value on every object at once",
          "refusals": "every unsupported kind of shape, material, surface, delegate, component, phase function, spectrum, placement and recorder"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-6", "the parallel loop runs one ray per chunk on one thread",
               "a recorder on a node without geometry never matches and is not reported"]


def matmul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def placed(H, kind, frames, axis, sign, group, order):
    """a ray inside an object below a chain of placements meets the object's surface where the chain puts it"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    K = Kernel(H)
    w = Node(name="world", geometry=kern.shape(H, "box", (900.0, 910.0, 920.0), kern.material(1.0)))
    sib = kern.shape(H, "sphere", 1.0, kern.material(1.0, null=True))
    if order == "before":
        Node(name="sibling", parent=w, geometry=sib, location=(300.0, 300.0, 300.0))
    top = w
    R, o = [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)], [0.0, 0.0, 0.0]
    for k, f in enumerate(frames):
        off = [H.real("o%d%s" % (k, c), -20, 20) for c in "xyz"]
        last = k == len(frames) - 1
        g = None
        if last:
            d = {"sphere": H.real("r", 0.5, 9), "box": tuple(H.real("s" + c, 1, 18) for c in "xyz"), "cylinder": (H.real("l", 1, 18), H.real("r", 0.5, 9))}[kind]
            g = kern.shape(H, kind, d, kern.material(1.0, null=True))
        elif not group:
            g = kern.shape(H, "sphere", 200.0, kern.material(1.0, null=True))
        nd = Node(name="level%d" % k, parent=top, geometry=g)
        nd.pose = kern.pose(H, f, off)
        F = [conv(H, v) for v in FRAMES[f]]       # axes of the frame
        o = [o[i] + sum(R[i][j] * off[j] for j in range(3)) for i in range(3)]
        R = matmul(R, [[F[j][i] for j in range(3)] for i in range(3)])
        top = nd
    if order == "after":
        Node(name="sibling", parent=w, geometry=sib, location=(300.0, 300.0, 300.0))
    # inside the object, in its own frame
    if kind == "box":
        q = [H.real("q" + c, -9, 9) for c in "xyz"]
        for x, s in zip(q, d):
            H.assume(H.And(x <= s / 2 - 1e-2, x >= 1e-2 - s / 2))
        t = sign * (sign * d[axis] / 2 - q[axis])
    elif kind == "sphere":
        q = [H.q(0), H.q(0), H.q(0)]
        q[axis] = H.real("q", -9, 9)
        H.assume(H.And(q[axis] <= d - 1e-2, q[axis] >= 1e-2 - d))
        t = sign * (sign * d - q[axis])
    else:
        q = [H.q(0), H.q(0), H.real("qz", -9, 9)]
        H.assume(H.And(q[2] <= d[0] / 2 - 1e-2, q[2] >= 1e-2 - d[0] / 2))
        if axis == 2:
            t = sign * (sign * d[0] / 2 - q[2])
        else:
            q[axis] = H.real("q", -9, 9)
            H.assume(H.And(q[axis] <= d[1] - 1e-2, q[axis] >= 1e-2 - d[1]))
            t = sign * (sign * d[1] - q[axis])
    P = tuple(o[i] + sum(R[i][j] * q[j] for j in range(3)) for i in range(3))
    D = tuple(sign * R[i][axis] for i in range(3))
    c, ev, out = kern.trace1(H, K, Scene(w), P, D, max_events=6, maxsteps=1)
    if ev is None:
        return
    H.check(len(ev) >= 2 and ev[1].kind == TRANSMIT and c.node_names[ev[1].hit] == "level%d" % (len(frames) - 1), "the object's own surface is met first")
    if len(ev) >= 2:
        H.check_close(ev[1].travelled, t, "the surface lies where the shape's size puts it", tol=1e-6)
        H.check_close3(ev[1].position, tuple(P[i] + t * D[i] for i in range(3)), "the surface lies where the chain of placements puts it", tol=1e-6)
        H.check_close3(ev[1].normal, D, "the normal is turned by the chain of placements", tol=1e-6)


def several(H, nm):
    """world with three balls A, B, C(in B), each with its own components and index; numbers are all different symbols"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
    from pvtrace.material.utils import HenyeyGreenstein, Cone
    import numpy as np
    dt = object if H.mode == "sym" else float
    a = lambda k: H.real("a%d" % k, 0.25, 4)
    q = lambda k: H.real("q%d" % k, 0, 1)
    ty = [H.real("ty%d" % k, 0.25, 4) for k in range(3)]
    tab = np.array([[300.0, ty[0]], [500.0, ty[1]], [800.0, ty[2]]], dtype=dt)
    tw = lambda w: (ty[0] + (ty[1] - ty[0]) * (w - 300) / 200) if bool(w <= 500) else (ty[1] + (ty[2] - ty[1]) * (w - 500) / 300)
    info = {
        "world": [(Scatterer(a(0), quantum_yield=q(0), phase_function=HenyeyGreenstein(-1.0), name="w0"), lambda w: a(0), q(0), -1, None)],
        "A": [(Absorber(a(1), name="a0"), lambda w: a(1), None, None, None),
              (Scatterer(a(2), quantum_yield=q(2), phase_function=Cone(0.0), name="a1"), lambda w: a(2), q(2), 1, None)],
        "B": [(Luminophore(a(3), emission=np.array([[600.0, 1.0], [700.0, 1.0]]), quantum_yield=q(3), phase_function=HenyeyGreenstein(-1.0), name="b0"),
               lambda w: a(3), q(3), -1, (600, 700)),
              (Luminophore(tab, emission=np.array([[400.0, 1.0], [900.0, 1.0]]), tau_rad=H.real("tr", 1e-2, 10), tau_nr=H.real("tn", 1e-2, 10),
                           phase_function=Cone(0.0), name="b1"), tw, None, 1, (400, 900))],
        "C": [(Reactor(a(4), name="c0"), lambda w: a(4), None, None, None),
              (Absorber(a(5), tau_nr=H.real("tc", 1e-2, 10), name="c1"), lambda w: a(5), None, None, None)],
    }
    n = {k: H.real("n" + k, 1, 4) for k in info}
    m = lambda k: kern.material(n[k], [c[0] for c in info[k]], null=True)
    w = Node(name="world", geometry=kern.shape(H, "sphere", 400.0, m("world")))
    A = Node(name="A", parent=w, geometry=kern.shape(H, "sphere", 90.0, m("A")), location=(0.0, 0.0, -200.0))
    G = Node(name="group", parent=w, location=(0.0, 0.0, 100.0))
    B = Node(name="B", parent=G, geometry=kern.shape(H, "sphere", 190.0, m("B")), location=(0.0, 0.0, 100.0))
    C = Node(name="C", parent=B, geometry=kern.shape(H, "sphere", 90.0, m("C")), location=(0.0, 0.0, 90.0))
    return Scene(w), info, n


START = {"world": (-105.0, 1), "A": (-285.0, 1), "B": (15.0, 1), "C": (210.0, 1)}
# positions on the axis: A spans -290..-110, B 10..390, C 200..380
ROOM = {"world": 115.0, "A": 175.0, "B": 185.0, "C": 170.0}


def attached(H, where):
    sc, info, n = several(H, where)
    K = Kernel(H)
    z, sg = START[where]
    wl = H.real("nm", 300, 800)
    c, ev, out = kern.trace1(H, K, sc, (0.0, 0.0, z), (0.0, 0.0, float(sg)), wavelength=wl, max_events=8, maxsteps=1, emit_method=2)
    if ev is None:
        return
    comps = info[where]
    coef = [f[1](wl) for f in comps]
    tot = sum(coef)
    L = -H.log(1 - H.real("u1", 0, 1, hi_open=True))
    e = ev[1]
    if e.kind == TRANSMIT:
        H.check_ge(L, ROOM[where] * tot, "a ray passes only when the sampled distance exceeds the path", tol=1e-5)
        return
    H.check(e.kind == ABSORB and c.node_names[e.container] == where, "the medium is the object the ray is in")
    if e.kind != ABSORB:
        return
    H.check_close(e.travelled * tot, L, "the object's own coefficients attenuate", tol=1e-6)
    H.check_close(e.duration * 2.99792458e10, e.travelled * n[where], "the object's own refractive index sets the speed", tol=1e-4)
    names = [f[0].name for f in comps]
    nm = c.component_names[e.component]
    H.check(nm in names, "the component is one of the object's own")
    if nm not in names:
        return
    k = names.index(nm)
    u2 = H.real("u2", 0, 1, hi_open=True)
    H.check_le(sum(coef[:k]), u2 * tot, "components are picked by their own coefficients (lower end)", tol=1e-6)
    H.check_ge(sum(coef[:k + 1]), u2 * tot, "components are picked by their own coefficients (upper end)", tol=1e-6)
    b = ev[2]
    comp, _, q, dirn, ems = comps[k]
    H.check(c.component_names[b.component] == nm, "the outcome belongs to the same component")
    cls = type(comp).__name__
    if cls in ("Absorber", "Reactor"):
        H.check(b.kind == (REACT if cls == "Reactor" else NONRADIATIVE), "each kind of component keeps its behaviour")
        if getattr(comp, "tau_nr", None):
            u = H.real("u3", 0, 1, hi_open=True)
            H.check_close(b.duration - e.duration, -H.log(1 - u) * comp.tau_nr, "the component's own lifetime sets the delay", tol=1e-6)
        else:
            H.check_close(b.duration, e.duration, "without a lifetime no time passes", tol=1e-12)
        return
    u3 = H.real("u3", 0, 1, hi_open=True)
    if nm == "b1":
        q = H.real("tn", 1e-2, 10) / (H.real("tr", 1e-2, 10) + H.real("tn", 1e-2, 10))
    rad = b.kind in (SCATTER, EMIT)
    H.check_iff(rad, u3, q, "the component's own quantum yield decides")
    if not rad:
        H.check(b.kind == NONRADIATIVE, "each kind of component keeps its behaviour")
    else:
        H.check(b.kind == (EMIT if cls == "Luminophore" else SCATTER), "each kind of component keeps its behaviour")
        H.check_close3(b.direction, (0.0, 0.0, float(dirn * 1)), "the component's own phase function is used", tol=1e-6)
        if ems:
            u = [H.real("u%d" % i, 0, 1, hi_open=True) for i in range(4, len(K.draws) + 1)]
            H.check(any(close(H, (b.wavelength - ems[0]), x * (ems[1] - ems[0])) for x in u), "the component's own emission table is sampled")
    if nm == "b1":
        u = H.real("u%d" % len(K.draws), 0, 1, hi_open=True)
        tau = H.real("tr", 1e-2, 10) if rad else H.real("tn", 1e-2, 10)
        H.check_close(b.duration - e.duration, -H.log(1 - u) * tau, "the component's own lifetime sets the delay", tol=1e-6)
    else:
        H.check_close(b.duration, e.duration, "without a lifetime no time passes", tol=1e-12)


def close(H, a, b):
    if H.mode != "sym":
        return abs(a - b) <= 1e-5 * (1 + abs(b))
    d = H.abs(a - b) <= 1e-6
    return d if isinstance(d, bool) else H.E.entails(d.t) if hasattr(H.E, "entails") else bool(d)


def surfaces(H, which, sg):
    """each object keeps its own surface rule and index; rays run along the axis through all of them"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    K = Kernel(H)
    n = [H.real("n%d" % k, 1, 4) for k in range(4)]
    null = [k in which for k in range(4)]
    for x, y in ((0, 1), (0, 2), (2, 3)):
        H.assume(H.Or(n[x] - n[y] >= 1e-2, n[y] - n[x] >= 1e-2))
    w = Node(name="world", geometry=kern.shape(H, "sphere", 400.0, kern.material(n[0])))
    A = Node(name="A", parent=w, geometry=kern.shape(H, "box", (20.0, 30.0, 180.0), kern.material(n[1], null=null[1])), location=(0.0, 0.0, -200.0))
    B = Node(name="B", parent=w, geometry=kern.shape(H, "cylinder", (380.0, 10.0), kern.material(n[2], null=null[2])), location=(0.0, 0.0, 200.0))
    C = Node(name="C", parent=B, geometry=kern.shape(H, "sphere", 9.0, kern.material(n[3], null=null[3])), location=(0.0, 0.0, -50.0))
    surf = [(-290, 1), (-110, 1), (10, 2), (141, 3), (159, 3), (390, 2)]
    med = [0, 1, 0, 2, 3, 2, 0]
    z = -395.0 if sg > 0 else 395.0
    seq = surf if sg > 0 else surf[::-1]
    mm = med if sg > 0 else med[::-1]
    c, ev, out = kern.trace1(H, K, Scene(w), (0.0, 0.0, z), (0.0, 0.0, float(sg)), max_events=12, maxsteps=7)
    if ev is None:
        return
    nd = 0
    dur = 0.0
    for k, (p, who) in enumerate(seq):
        if k + 1 >= len(ev):
            H.fail("every surface is met in turn")
            return
        e = ev[k + 1]
        H.check(c.node_names[e.hit] == "?ABC"[who] and e.kind in (TRANSMIT, REFLECT), "every surface is met in turn")
        H.check_close(e.position[2], float(p), "the surface lies where the object is", tol=1e-6)
        a, b = n[mm[k]], n[mm[k + 1]]
        dur = dur + abs(p - z) * a
        z = p
        H.check_close(e.duration * 2.99792458e10, dur, "each object's own refractive index sets the speed", tol=1e-3)
        if null[who]:
            H.check(e.kind == TRANSMIT, "a surface without reflection stays one")
        else:
            r = (a - b) / (a + b)
            nd += 1
            u = H.real("u%d" % nd, 0, 1, hi_open=True)
            H.check_iff(e.kind == REFLECT, u, r * r, "the reflectivity follows from the indices of both sides")
            if e.kind == REFLECT:
                return


KINDS = ["mesh", "no-material", "delegate", "delegate-subclass", "surface", "phase", "phase-subclass", "hist-absorption", "hist-emission", "component",
         "component-subclass", "component-base", "geometry-subclass", "scale", "shear", "recorder-type", "recorder-facet", "recorder-name", "recorder-many",
         "root-empty", "nodes-many"]


def refuse(H, kind):
    """what the engine cannot represent raises instead of being traced differently"""
    import numpy as np
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.mesh import Mesh
    from pvtrace.material.material import Material
    from pvtrace.material.surface import Surface, FresnelSurfaceDelegate, NullSurfaceDelegate
    from pvtrace.material.component import Absorber, Scatterer, Luminophore, Component
    from pvtrace.material import utils
    from pvtrace.engine.recorder import Recorder
    from pvtrace.engine.compiler import compile_scene, UnsupportedSceneError

    def scene(geometry=None, material=None, pose=None, recorders=None, comps=None, surface=None, many=0):
        mat = material
        if mat is None:
            mat = Material(1.5, surface=surface, components=comps)
        w = Node(name="world", geometry=kern.shape(H, "sphere", 50.0, kern.material(1.0)))
        g = geometry if geometry is not None else kern.shape(H, "sphere", 1.0, mat)
        b = Node(name="body", parent=w, geometry=g)
        if pose is not None:
            b.pose = pose
        if recorders is not None:
            b.recorders = recorders
        for k in range(many):
            Node(name="n%d" % k, parent=w, geometry=kern.shape(H, "sphere", 0.1, kern.material(1.0)), location=(0.0, 0.0, 2.0 + k * 0.25))
        return Scene(w)

    tab = np.array([[400.0, 1.0], [600.0, 2.0], [800.0, 1.0]])
    plain = scene(comps=[Absorber(H.real("a", 0, 9))], recorders=[Recorder("one")])
    K = Kernel(H)
    run = lambda s: kern.trace1(H, K, s, (0.0, 0.0, 0.0), (0.0, 0.0, 1.0), max_events=6, maxsteps=2)
    try:
        compile_scene(plain)
        ok = True
    except Exception as e:
        ok = False
    H.check(ok, "a supported scene is accepted")
    if kind == "mesh":
        import trimesh
        s = scene(geometry=Mesh(trimesh.creation.icosahedron(), material=kern.material(1.5)))
    elif kind == "no-material":
        s = scene(geometry=Sphere(1.0, material=None))
    elif kind == "delegate":
        class D(FresnelSurfaceDelegate):
            pass
        from pvtrace.material.surface import SurfaceDelegate

        class E(SurfaceDelegate):
            def reflectivity(self, surface, ray, geometry, container, adjacent):
                return 1.0

            def reflected_direction(self, surface, ray, geometry, container, adjacent):
                return ray.direction

            def transmitted_direction(self, surface, ray, geometry, container, adjacent):
                return ray.direction
        s = scene(surface=Surface(delegate=E()))
    elif kind == "delegate-subclass":
        class D(FresnelSurfaceDelegate):
            def reflectivity(self, surface, ray, geometry, container, adjacent):
                return 1.0
        s = scene(surface=Surface(delegate=D()))
    elif kind == "surface":
        class S(Surface):
            def is_reflected(self, ray, geometry, container, adjacent):
                return True
        s = scene(surface=S())
    elif kind == "phase":
        s = scene(comps=[Scatterer(1.0, phase_function=lambda: (0.0, 0.0, 1.0))])
    elif kind == "phase-subclass":
        class P(utils.HenyeyGreenstein):
            def __call__(self):
                return (0.0, 0.0, 1.0)
        s = scene(comps=[Scatterer(1.0, phase_function=P(0.5))])
    elif kind == "hist-absorption":
        s = scene(comps=[Absorber(tab, hist=True)])
    elif kind == "hist-emission":
        s = scene(comps=[Luminophore(1.0, emission=tab, hist=True)])
    elif kind == "component-base":
        s = scene(comps=[Component()])
    elif kind == "component":
        class C(Component):
            def coefficient(self, wavelength):
                return 1.0
        s = scene(comps=[C()])
    elif kind == "component-subclass":
        class A(Absorber):
            def coefficient(self, wavelength):
                return 0.0
        s = scene(comps=[A(1.0)])
    elif kind == "geometry-subclass":
        class G(Sphere):
            def intersections(self, origin, direction):
                return ()
        s = scene(geometry=G(1.0, material=kern.material(1.5)))
    elif kind in ("scale", "shear"):
        k = H.real("k", 0.5, 2)
        m = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]]
        if kind == "scale":
            H.assume(H.abs(k - 1) >= 1e-4)
            m[1][1] = k
        else:
            m[0][2] = k
        s = scene(pose=np.array(m, dtype=object if H.mode == "sym" else float))
    elif kind == "recorder-type":
        s = scene(recorders=["top"])
    elif kind == "recorder-facet":
        s = scene(recorders=[Recorder("a", event=H.pick("ev", ["lost", "reacted", "killed"]), facet=(0, 0, 1))])
    elif kind == "recorder-name":
        s = scene(recorders=[Recorder("a", event="entering"), Recorder("a", event="escaping")])
    elif kind == "recorder-many":
        s = scene(recorders=[Recorder("r%d" % k) for k in range(257)])
    elif kind == "nodes-many":
        s = scene(many=H.size("many", 127, 129))
    else:
        s = Scene(Node(name="world"))
        Node(name="body", parent=s.root, geometry=kern.shape(H, "sphere", 1.0, kern.material(1.0)))
    try:
        compile_scene(s)
        if kind == "nodes-many":
            run(s)
        raised = None
    except (UnsupportedSceneError, ValueError, AttributeError, TypeError) as e:
        raised = e
    H.check(raised is not None, "what the engine cannot represent is refused")


JOBS = []
for i, (kind, fr, grp, order) in enumerate((("box", (4,), True, "before"), ("box", (1, 5), True, "after"), ("sphere", (5, 3), True, "before"),
                                            ("cylinder", (3, 4), True, "before"), ("cylinder", (6,), True, "after"), ("box", (2, 4, 5), True, "before"),
                                            ("sphere", (1, 2), False, "after"), ("cylinder", (5, 1, 3), True, None))):
    for ax in range(3):
        for sg in (1, -1):
            JOBS.append(Job("placed/%s-%s-%s/%d%+d" % (kind, "".join(map(str, fr)), "group" if grp else "nested", ax, sg), placed, kind=kind, frames=fr, axis=ax, sign=sg,
                            group=grp, order=order, tiers=("quick", "thorough") if (ax * 2 + (sg > 0) + i) % 3 == 0 else ("thorough",)))
JOBS += [Job("attached/" + w, attached, where=w, opts=dict(weight=5)) for w in START]
for wh in ((), (1,), (2,), (3,), (1, 3), (2, 3)):
    for sg in (1, -1):
        JOBS.append(Job("surfaces/%s/%+d" % ("".join(map(str, wh)) or "none", sg), surfaces, which=wh, sg=sg, opts=dict(weight=3)))
JOBS += [Job("refuse/" + k, refuse, kind=k) for k in KINDS]
