"""Re-emission by the components of the Python tracer: decision, direction, wavelength and delay."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P10"
PRELOAD = ("pvtrace.material.component", "pvtrace.material.distribution", "pvtrace.material.utils", "pvtrace.light.ray", "pvtrace.scene.node",
           "pvtrace.scene.scene", "pvtrace.geometry.sphere", "pvtrace.material.material", "pvtrace.algorithm.photon_tracer")
BOUNDS = {"quantum yield": "any value in [0,1], or any pair of lifetimes", "emission spectrum": "tables of 3 rows with any positive values "
          "(interpolated and histogram), absorbed wavelength anywhere inside the table (and, for the kT rule, still inside after the shift)",
          "random draws": "any values", "outside": "absorbed wavelengths outside the emission table, for which the code raises"}
ASSUMPTIONS = ["a uniform random draw is any value in [0,1)", "the logarithm is an uninterpreted monotone function with its defining sign and bound facts"]
XS = [400.0, 520.0, 700.0]


def ray_of(H, nm=None, frame=None):
    from pvtrace.light.ray import Ray
    return Ray(position=H.vec3("p", -1e6, 1e6), direction=(0.0, 0.0, 1.0), wavelength=H.real("nm", 401, 699) if nm is None else nm,
               travelled=H.real("tr", 0, 1e9), duration=H.real("du", 0, 1e6), source="lamp")


def make(H, kind, **k):
    import numpy as np
    from pvtrace.material.component import Scatterer, Absorber, Reactor, Luminophore
    if kind == "scatterer":
        return Scatterer(1.0, name="s", **k)
    if kind == "absorber":
        return Absorber(1.0, name="s", **{a: b for a, b in k.items() if a == "tau_nr"})
    if kind == "reactor":
        return Reactor(1.0, name="s")
    return Luminophore(1.0, emission=np.array([[400.0, 0.0], [500.0, 1.0], [600.0, 0.0]]), name="s", **k)


def decision(H, kind, by):
    k = {}
    if by == "yield":
        q = H.real("q", 0, 1)
        k = dict(quantum_yield=q)
    else:
        a, b = H.real("ta", 1e-3, 10), H.real("tb", 1e-3, 10)
        k = dict(tau_rad=a, tau_nr=b)
        q = b / (a + b)
    c = make(H, kind, **k)
    got = c.is_radiative(ray_of(H))
    u = H.real("u1", 0, 1, hi_open=True)
    if kind in ("absorber", "reactor"):
        H.check(H.Not(got), "absorbers and reactors never re-emit")
        return
    H.check_iff(got, u, q, "a ray is re-emitted exactly when the draw falls below the quantum yield")


def kept(H, a, b, delay=False):
    H.check_close3(tuple(a.position), tuple(b.position), "a re-emitted ray leaves from the absorption point")
    H.check_close(a.travelled, b.travelled, "re-emission does not change the travelled distance")
    if not delay:
        H.check_close(a.duration, b.duration, "re-emission without a lifetime takes no time")


def unit(H, d):
    H.check(len(d) == 3, "a direction has three components")
    H.check_close(d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1.0, "a re-emitted ray has unit direction", tol=1e-6)


def scatter(H, phase):
    ray = ray_of(H)
    k = {}
    if phase == "custom":
        d = H.unit3("d")
        k["phase_function"] = lambda: d
    if phase == "hg":
        from pvtrace.material.utils import HenyeyGreenstein
        k["phase_function"] = HenyeyGreenstein(0.0)
    if phase == "lifetime":
        k["tau_rad"], k["tau_nr"] = 1.0, 1.0
    c = make(H, "scatterer", **k)
    new = c.emit(ray, method="kT")
    H.check_close(new.wavelength, ray.wavelength, "a scatterer keeps the wavelength")
    H.check(new.source == "s", "a re-emitted ray names the component as its source")
    kept(H, new, ray)
    unit(H, new.direction)
    if phase == "custom":
        H.check_close3(tuple(new.direction), d, "the direction is the one the phase function gave")


def luminophore(H, hist, **k):
    import numpy as np
    from pvtrace.material.component import Luminophore
    ys = [H.real("y%d" % i, 1e-2, 100) for i in range(3)]
    d = (0.6, 0.0, 0.8)
    return Luminophore(1.0, emission=np.array([[x, y] for x, y in zip(XS, ys)]), hist=hist, name="dye", phase_function=lambda: d, **k), ys


def emission(H, hist, method):
    c, ys = luminophore(H, hist)
    if method == "kT":
        nm = H.real("nm", 412, 699)
    elif method == "full":
        nm = H.real("nm", 200, 1000)
    else:
        nm = H.real("nm", 400, 700)
    ray = ray_of(H, nm)
    new = c.emit(ray, method=method)
    w = new.wavelength
    u = H.real("u1", 0, 1, hi_open=True)
    H.check(H.And(w >= 400.0, w <= 700.0), "an emitted wavelength lies in the emission spectrum")
    if method == "redshift":
        H.check_ge(w, nm, "in redshift mode the emitted wavelength is never shorter than the absorbed one", tol=1e-6)
    if method == "kT":
        # energy gain at most 3/2 kT at 300 K
        E = 1240 / nm + 3 / 2 * 1.380649e-23 / 1.60217662e-19 * 300.0
        H.check_ge(w * E, 1240.0, "in kT mode the emitted energy exceeds the absorbed one by at most 3/2 kT", tol=1e-5)
    if method == "full":
        # the emitted wavelength is the inverse of the cumulative spectrum at the draw
        if hist:
            A = [ys[0], ys[0] + ys[1], ys[0] + ys[1] + ys[2]]
            k = [i for i in range(3) if bool(H.abs(w - XS[i]) <= 1e-9)]
            H.check(len(k) == 1, "a histogram emits its abscissae")
            k = k[0]
            lo = A[k - 1] if k else 0.0
            H.check(H.And(lo <= u * A[2] + 1e-6, u * A[2] <= A[k] + 1e-6), "each wavelength is emitted for its share of the draws")
        else:
            a0 = 60 * (ys[0] + ys[1])
            T = a0 + 90 * (ys[1] + ys[2])
            first = bool(w <= XS[1])
            got = a0 * (w - XS[0]) / 120 if first else a0 + (T - a0) * (w - XS[1]) / 180
            H.check_close(got, u * T, "the emitted wavelength inverts the cumulative emission spectrum at the draw", tol=1e-5)
    H.check_close3(tuple(new.direction), (0.6, 0.0, 0.8), "the direction is the one the phase function gave")
    H.check(new.source == "dye", "a re-emitted ray names the component as its source")
    kept(H, new, ray)


def redshift_law(H):
    """in redshift mode the emitted wavelength inverts the spectrum above the absorbed wavelength"""
    c, ys = luminophore(H, False)
    nm = H.real("nm", 400, 700)
    new = c.emit(ray_of(H, nm), method="redshift")
    u = H.real("u1", 0, 1, hi_open=True)
    d = c._ems_dist
    p = d.lookup(nm)
    H.check_close(d.lookup(new.wavelength), p + (1 - p) * u, "the emitted wavelength is drawn uniformly from the part of the spectrum above the absorbed one", tol=1e-6)


def delay(H, kind):
    tr, tn = H.real("ta", 1e-3, 10), H.real("tb", 1e-3, 10)
    if kind == "luminophore":
        c, ys = luminophore(H, False, tau_rad=tr, tau_nr=tn)
        ray = ray_of(H)
        new = c.emit(ray, method="full")
        draw = "u2"
        tau = tr
    else:
        c = make(H, kind, tau_rad=tr, tau_nr=tn)
        ray = ray_of(H)
        new = c.nonradiative_absorb(ray)
        draw = "u1"
        tau = tn
        H.check_close3(tuple(new.direction), tuple(ray.direction), "an absorbed ray keeps its direction")
        H.check_close(new.wavelength, ray.wavelength, "an absorbed ray keeps its wavelength")
    u = H.real(draw, 0, 1, hi_open=True)
    kept(H, new, ray, delay=True)
    d = new.duration - ray.duration
    if kind == "reactor":
        H.check_close(d, 0.0, "a loss without a lifetime takes no time")
        return
    H.check_ge(d, 0.0, "a delay is never negative", tol=1e-12)
    H.check_close(d, -H.log(1 - u) * tau, "a delay is the exponential law at the draw", tol=1e-6)


def isotropic(H, kind):
    """default phase function: unit direction"""
    ray = ray_of(H)
    c = make(H, kind)
    if kind == "luminophore":
        new = c.emit(ray, method="full")
    else:
        new = c.emit(ray)
    unit(H, new.direction)
    kept(H, new, ray)


def traced(H, frame, kind, method):
    """re-emission in the tracing loop, inside a moved and turned object"""
    import numpy
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    from pvtrace.algorithm import photon_tracer
    e = [conv(H, v) for v in FRAMES[frame]]
    q = H.real("q", 0, 1)
    local = H.qv((3, 5), 0, (4, 5))
    c = make(H, kind, quantum_yield=q, phase_function=lambda: local)
    world = Node(name="world", geometry=Sphere(50.0, material=Material(1.0)))
    ball = Node(name="ball", parent=world, geometry=Sphere(2.0, material=Material(1.5, components=[c])))
    loc = H.qv((1, 2), (-1, 3), 1)
    ball.pose = numpy.array([[e[j][i] for j in range(3)] + [loc[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])

    def w(v, p=0):
        return tuple(sum(e[j][i] * v[j] for j in range(3)) + p * loc[i] for i in range(3))
    z = H.real("z", -1.9, 1.9)
    nm = H.real("nm", 400, 600)
    t0 = H.real("t0", 0, 100)
    ray = Ray(position=w((0.0, 0.0, z), 1), direction=w((0.0, 0.0, 1.0)), wavelength=nm, travelled=t0, source="lamp")
    it = photon_tracer.step_forward(Scene(world), ray, emit_method=method)
    next(it)
    new, event, meta = next(it)
    u = H.real("u1", 0, 1, hi_open=True)
    absorbed = event is Event.ABSORB
    L = -H.log(1 - u)
    H.check_iff(absorbed, L, 2 - z, "a ray is absorbed exactly when the sampled distance is shorter than the path")
    if not absorbed:
        return
    H.check(meta["component"] == "s" and meta["container"] == "ball", "the event names the component and its object")
    H.check_close3(tuple(new.position), w((0.0, 0.0, z + L), 1), "a ray is absorbed at the sampled distance", tol=1e-6)
    H.check_close(new.travelled, t0 + L, "the travelled distance grows by the absorption distance", tol=1e-6)
    last, event, meta = next(it)
    # draw 2 picks the component (only one here), draw 3 decides on emission
    u3 = H.real("u3", 0, 1, hi_open=True)
    lost = Event.NONRADIATIVE
    if kind in ("absorber", "reactor"):
        H.check(event is (Event.REACT if kind == "reactor" else lost), "absorbers and reactors never re-emit")
        return
    H.check(event in (lost, Event.SCATTER if kind == "scatterer" else Event.EMIT), "the event matches the kind of component")
    H.check_iff(event is not lost, u3, q, "a ray is re-emitted exactly when the draw falls below the quantum yield")
    H.check_close3(tuple(last.position), tuple(new.position), "a re-emitted ray leaves from the absorption point", tol=1e-6)
    H.check_close(last.travelled, new.travelled, "re-emission does not change the travelled distance")
    if event is lost:
        return
    H.check_close3(tuple(last.direction), w(local), "the emitted direction is turned with the object", tol=1e-6)
    H.check(last.source == "s", "a re-emitted ray names the component as its source")
    if kind == "scatterer":
        H.check_close(last.wavelength, nm, "a scatterer keeps the wavelength")
    elif method == "redshift":
        H.check_ge(last.wavelength, nm, "in redshift mode the emitted wavelength is never shorter than the absorbed one", tol=1e-6)


JOBS = []
for kd in ("scatterer", "luminophore", "absorber", "reactor"):
    for by in ("yield", "lifetimes"):
        JOBS.append(Job("decision/%s/%s" % (kd, by), decision, kind=kd, by=by))
JOBS += [Job("scatter/" + p, scatter, phase=p) for p in ("default", "custom", "hg", "lifetime")]
for hist in (False, True):
    for m in ("full", "redshift", "kT"):
        JOBS.append(Job("emission/%s/%s" % (m, "hist" if hist else "interp"), emission, hist=hist, method=m))
JOBS.append(Job("redshift-law", redshift_law))
JOBS += [Job("delay/" + k, delay, kind=k) for k in ("luminophore", "scatterer", "absorber", "reactor")]
JOBS += [Job("isotropic/" + k, isotropic, kind=k) for k in ("scatterer", "luminophore")]
for kd in ("scatterer", "luminophore", "absorber", "reactor"):
    for fr in (0, 5):
        for m in (("redshift", "full") if kd == "luminophore" else ("kT",)):
            JOBS.append(Job("traced/%s/%d/%s" % (kd, fr, m), traced, frame=fr, kind=kd, method=m))
