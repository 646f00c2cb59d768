"""Event histories produced by the Python tracer, symbolically executed step by step."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P13"
PRELOAD = ("pvtrace.scene.scene", "pvtrace.algorithm.photon_tracer", "pvtrace.geometry.sphere", "pvtrace.material.component", "pvtrace.material.material",
           "pvtrace.material.surface", "pvtrace.light.ray", "pvtrace.light.event")
BOUNDS = {"scene": "world sphere, a ball of any radius in it and optionally a core of any smaller radius, any refractive indices in [1,3], placed by a "
                   "listed rotation; surfaces with any reflectivity; one or two components of any coefficient and quantum yield per object; symbolic draws",
          "rays": "starting anywhere inside the world on the axis, either direction, any initial travel and time; scattering back, forth or sideways",
          "margins": "absorption at least 1e-9 away from every surface (closer, the tracer's own tolerance decides)",
          "limits": "step limits 0 to 4 and any path-length limit",
          "outside": "rays that start outside the world (their history ends without a terminal event), boxes and meshes (trimesh)"}
ASSUMPTIONS = ["a uniform random draw is any value in [0,1)", "the logarithm is an uninterpreted monotone function with its defining sign and bound facts"]
C_CM = 29979245800.0
TERMINAL = ("EXIT", "NONRADIATIVE", "REACT", "KILL")


def flip_delegate(H, r):
    from pvtrace.material.surface import SurfaceDelegate

    class Flip(SurfaceDelegate):
        def reflectivity(self, *a):
            return r

        def reflected_direction(self, surface, ray, *a):
            return tuple(-x for x in ray.direction)

        def transmitted_direction(self, surface, ray, *a):
            return tuple(ray.direction)
    return Flip()


def build(H, kinds, core, frame, fresnel, lifetimes=False):
    """kinds: component kinds in the ball; returns scene, {name: (radius, index)}, world mapping"""
    import numpy
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    from pvtrace.material.surface import Surface
    from pvtrace.material.component import Scatterer, Absorber, Reactor, Luminophore
    W = 64.0
    e = [conv(H, v) for v in FRAMES[frame]]
    loc = tuple(x / 4 for x in e[2]) if frame else H.qv(0, 0, 0)
    n0 = H.real("n0", 1, 3)
    n1 = H.real("n1", 1, 3)
    rb = H.real("rb", 0.5, 20)
    count = [0]

    def phase():
        count[0] += 1
        k = H.pick("ph%d" % count[0], [0, 1])
        return H.qv(0, 0, 1) if k == 0 else H.qv(0, 0, -1)

    def comp(kind, tag):
        a = H.real("a" + tag, 0, 5)
        nm = "comp" + tag
        if kind == "absorber":
            return Absorber(a, name=nm, tau_nr=0.25 if lifetimes else None)
        if kind == "reactor":
            return Reactor(a, name=nm)
        q = H.real("q" + tag, 0, 1)
        k = dict(quantum_yield=q, phase_function=phase, name=nm)
        if lifetimes:
            k.update(quantum_yield=None, tau_rad=0.5, tau_nr=0.25)
        if kind == "scatterer":
            return Scatterer(a, **k)
        return Luminophore(a, emission=numpy.array([[400.0, 1.0], [700.0, 3.0]]), **k)

    def surf(tag):
        return Surface() if fresnel else Surface(delegate=flip_delegate(H, H.real("r" + tag, 0, 1)))
    world = Node(name="world", geometry=Sphere(W, material=Material(n0)))
    ball = Node(name="ball", parent=world, geometry=Sphere(rb, material=Material(n1, surface=surf("b"), components=[comp(k, str(i)) for i, k in enumerate(kinds)])))
    ball.pose = numpy.array([[e[j][i] for j in range(3)] + [loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])
    sizes = {"world": (W, n0), "ball": (rb, n1)}
    if core:
        n2 = H.real("n2", 1, 3)
        rc = H.real("rc", 0.1, 10)
        H.assume(rc <= rb - 1e-3)
        Node(name="core", parent=ball, geometry=Sphere(rc, material=Material(n2, surface=surf("c"))))
        sizes["core"] = (rc, n2)

    def w(v, p=0):
        return tuple(sum(e[j][i] * v[j] for j in range(3)) + p * loc[i] for i in range(3))
    return Scene(world), sizes, w, e, loc


def judge(H, history, first, sizes, maxsteps, maxpath, meta=True, lifetimes=False, axis=None, loc=None):
    names = [h[1].name for h in history]
    H.check(len(history) >= 2 and names[0] == "GENERATE", "a history starts with generation")
    r0 = history[0][0]
    H.check(r0 is first or r0 == first, "generation carries the ray as given")
    H.check("GENERATE" not in names[1:], "generation happens once")
    H.check(names[-1] in TERMINAL and not any(n in TERMINAL for n in names[:-1]), "a history ends in exactly one terminal event")
    if axis is not None:
        # absorption within the tracer's own tolerance of a surface is out of scope
        for h in history[1:]:
            if h[1].name == "ABSORB":
                for nm, (rad, _) in sizes.items():
                    ctr = loc if nm != "world" else (0.0, 0.0, 0.0)
                    rel = sum((h[0].position[i] - ctr[i]) * axis[i] for i in range(3))
                    H.assume(H.And(H.abs(rel - rad) >= 1e-9, H.abs(rel + rad) >= 1e-9))
    steps = 0            # completed interactions
    start = first        # ray at the beginning of the current interaction
    medium = None
    for k in range(1, len(history)):
        ray, name = history[k][0], names[k]
        md = (history[k][2] or {}) if meta else {}
        prev = history[k - 1][0]
        after_absorb = names[k - 1] == "ABSORB"
        if name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT"):
            H.check(after_absorb, "re-emission, loss and reaction follow an absorption")
        else:
            H.check(not after_absorb, "an absorption is followed by re-emission, loss or reaction")
        if not after_absorb:
            start = prev
            # a step begins: it is refused exactly when a limit is exceeded
            over = H.Or(steps >= maxsteps, prev.travelled > maxpath) if maxpath is not None else (steps >= maxsteps)
            H.check(H.Iff(over, name == "KILL"), "a ray is killed exactly when its step or path limit is exceeded")
        d = ray.travelled - prev.travelled
        H.check_ge(d, 0.0, "the travelled distance never decreases")
        # a zero-length part must not move, a moving one must follow the previous direction
        H.check_close3(tuple(ray.position), tuple(prev.position[i] + d * prev.direction[i] for i in range(3)),
                       "position advances along the previous direction by the distance travelled", tol=1e-6)
        if name not in ("EMIT",):
            H.check_close(ray.wavelength, prev.wavelength, "the wavelength changes only at emission")
        if name in ("ABSORB", "KILL", "EXIT", "NONRADIATIVE", "REACT"):
            H.check_close3(tuple(ray.direction), tuple(prev.direction), "the direction changes only at interfaces and emission")
        dd = ray.duration - prev.duration
        H.check_ge(dd, 0.0, "time never decreases")
        if name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "KILL"):
            H.check_close(d, 0.0, "nothing is travelled during re-emission, loss or kill")
            if name == "KILL" or not lifetimes:
                H.check_close(dd, 0.0, "time passes only with distance when no lifetime is set")
        elif meta:
            n = sizes[md["container"]][1]
            H.check_close(dd * C_CM, d * n, "time passed is the optical path over the speed of light", tol=1e-6)
        if meta:
            if medium is not None:
                H.check(md["container"] == medium, "each event happens in the medium the previous one left the ray in")
            medium = md["adjacent"] if name == "TRANSMIT" else md["container"]
            if name in ("REFLECT", "TRANSMIT", "EXIT"):
                rad = sizes[md["hit"]][0]
                ctr = loc if md["hit"] != "world" else (0.0, 0.0, 0.0)
                if axis is not None:
                    rel = sum((ray.position[i] - ctr[i]) * axis[i] for i in range(3))
                    H.check(H.Or(H.abs(rel - rad) <= 1e-6, H.abs(rel + rad) <= 1e-6), "surface events happen on the surface named")
                    if "normal" in md:
                        up = bool(rel > 0)
                        H.check_close3(tuple(md["normal"]), tuple(x if up else -x for x in axis), "surface events carry the outward normal", tol=1e-6)
        if name in ("REFLECT", "TRANSMIT", "EMIT", "SCATTER"):
            steps += 1


def history(H, kinds, core, frame, maxsteps, path, fresnel=False, lifetimes=False, api="step", start="ball", sg=1):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    scene, sizes, w, e, loc = build(H, kinds, core, frame, fresnel, lifetimes)
    z = H.real("z", -20, 20)
    rb = sizes["ball"][0]
    if start == "ball":
        H.assume(H.And(z <= rb - 1e-3, z >= 1e-3 - rb))
    else:
        H.assume(H.Or(z >= rb + 1e-3, z <= -1e-3 - rb))
    if core:
        rc = sizes["core"][0]
        H.assume(H.And(H.Or(z <= rc - 1e-3, z >= rc + 1e-3), H.Or(z <= -rc - 1e-3, z >= -rc + 1e-3)))
    t0, du = H.real("t0", 0, 1e6), H.real("du", 0, 1e3)
    ray = Ray(position=w((0.0, 0.0, z), 1), direction=w((0.0, 0.0, float(sg))), wavelength=H.real("nm", 400, 700), travelled=t0, duration=du, source="lamp")
    mp = H.real("mp", 0, 2e6) if path else None
    kw = dict(maxsteps=maxsteps, emit_method="full")
    if path:
        kw["maxpathlength"] = mp
    f = photon_tracer.step_forward if api == "step" else photon_tracer.follow
    hist = list(f(scene, ray, **kw))
    judge(H, hist, ray, sizes, maxsteps, mp, meta=api == "step", lifetimes=lifetimes, axis=e[2], loc=loc)


def sideways(H, sg):
    """scattering off the axis once, then leaving"""
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    from pvtrace.material.component import Scatterer
    n = H.real("n0", 1, 3)
    a = H.real("a", 0, 5)
    dirs = [H.qv((3, 5), 0, (4, 5)), H.qv((2, 7), (3, 7), (-6, 7)), H.qv(0, 1, 0)]
    k = H.pick("dir", [0, 1, 2])
    world = Node(name="world", geometry=Sphere(10.0, material=Material(n, components=[Scatterer(a, phase_function=lambda: dirs[k], name="s")])))
    z = H.real("z", -9, 9)
    ray = Ray(position=(0.0, 0.0, z), direction=(0.0, 0.0, float(sg)), wavelength=500.0)
    hist = list(photon_tracer.step_forward(Scene(world), ray, maxsteps=2))
    judge(H, hist, ray, {"world": (10.0, n)}, 2, None, axis=None, loc=(0.0, 0.0, 0.0))
    if hist[-1][1].name == "EXIT":
        p = hist[-1][0].position
        H.check_close(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], 100.0, "a ray leaves on the world boundary", tol=1e-5)


def propagate(H):
    from pvtrace.light.ray import Ray
    p, d = H.vec3("p", -1e3, 1e3), H.unit3("d")
    t0, du = H.real("t0", 0, 1e6), H.real("du", 0, 1)
    L = H.real("L", -1e3, 1e3)
    n = H.real("n", 1, 4)
    ray = Ray(position=p, direction=d, wavelength=500.0, travelled=t0, duration=du, source="lamp")
    new = ray.propagate(L, n)
    H.check_close3(tuple(new.position), tuple(p[i] + L * d[i] for i in range(3)), "position advances along the direction by the distance travelled")
    H.check_close(new.travelled, t0 + L, "the travelled distance grows by the distance moved")
    H.check_close((new.duration - du) * C_CM, L * n, "time passed is the optical path over the speed of light", tol=1e-6)
    H.check(new.source == "lamp" and new.wavelength == 500.0 and tuple(new.direction) == tuple(d), "propagation changes nothing else")


JOBS = [Job("propagate", propagate)]
J = lambda name, quick=True, **k: JOBS.append(Job(name, history, tiers=("quick", "thorough") if quick else ("thorough",), **k))
for ms in (0, 1, 2):
    J("surfaces/steps%d" % ms, kinds=(), core=True, frame=0, maxsteps=ms, path=ms == 2, start="free")
    J("ball/scatterer/steps%d" % ms, kinds=("scatterer",), core=False, frame=0, maxsteps=ms, path=ms != 1)
for kd in ("luminophore", "absorber", "reactor"):
    J("ball/%s" % kd, kinds=(kd,), core=False, frame=0, maxsteps=2, path=True, sg=-1)
J("turned/luminophore", kinds=("luminophore",), core=False, frame=5, maxsteps=2, path=True)
J("turned/surfaces", kinds=(), core=True, frame=5, maxsteps=2, path=False, start="free", sg=-1)
J("follow/scatterer", kinds=("scatterer",), core=False, frame=0, maxsteps=2, path=True, api="follow")
J("follow/mixed", kinds=("luminophore", "absorber"), core=False, frame=0, maxsteps=1, path=True, api="follow")
J("mixed/free", kinds=("luminophore", "reactor"), core=False, frame=0, maxsteps=2, path=False, start="free")
J("fresnel", kinds=("scatterer",), core=False, frame=0, maxsteps=1, path=False, fresnel=True)
J("lifetimes/luminophore", kinds=("luminophore",), core=False, frame=0, maxsteps=1, path=True, lifetimes=True)
J("lifetimes/absorber", kinds=("absorber",), core=False, frame=0, maxsteps=1, path=True, lifetimes=True)
for sg in (1, -1):
    JOBS.append(Job("sideways/%+d" % sg, sideways, sg=sg))
    J("deep/scatterer/%+d" % sg, False, kinds=("scatterer",), core=False, frame=0, maxsteps=4, path=True, sg=sg)
    J("deep/surfaces/%+d" % sg, True, kinds=(), core=True, frame=0, maxsteps=4, path=True, start="free", sg=sg)
    J("deep/core/%+d" % sg, True, kinds=("luminophore",), core=True, frame=0, maxsteps=2, path=False, sg=sg)
J("deep/mixed", False, kinds=("luminophore", "reactor"), core=True, frame=5, maxsteps=2, path=True)
