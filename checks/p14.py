"""Optics and sampling of the compiled engine, observed in the event log of the real kernel.

One interaction per job: a surface crossed at an arbitrary angle between arbitrary refractive indices, an absorption
under arbitrary coefficient tables, a re-emission by a phase function, an emission table or a lifetime.  Draws are
arbitrary; the expected outcome is stated independently (Fresnel, Snell, mirror, exponential and inverse-table laws)."""
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel, dot, GENERATE, REFLECT, TRANSMIT, ABSORB, NONRADIATIVE, SCATTER, EMIT, REACT
from vlib.frames import FRAMES, conv
from checks.p07 import fresnel_oracle, frame_of
from checks.p12 import Draws, laws, params_of

PROPERTY = "P14"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"refractive indices": "any pair in [1, 4]", "incidence": "exactly normal, or at least 1e-2 rad from normal and 1e-3 from grazing, at listed "
          "points of spheres, cylinder walls and caps and box faces in listed placements, from inside and outside",
          "phase functions": "isotropic; any Henyey-Greenstein factor in [-0.99,0.99] at least 1e-3 from zero or exactly zero; any cone half angle in (1e-3, pi/2]",
          "tables": "constant coefficients and spectra of 2 to 4 rows with any values and any increasing abscissae, any wavelength inside or outside",
          "emission": "tables of 3 rows with any positive values", "draws": "any values of all uniform draws"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-6", "the parallel loop runs one ray per chunk on one thread",
               "sine, cosine, arccosine and arcsine are related by their defining identities and monotonicity"]


def world_with(H, child, n1, place=None, comps=None):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    w = Node(name="world", geometry=kern.shape(H, "sphere", 60.0, kern.material(n1, comps)))
    if child is not None:
        c = Node(name="child", parent=w, geometry=child)
        if place is not None:
            c.pose = place
    return Scene(w)


def point(H, shape, name):
    """(kind, dimensions, surface point, outward normal, tangent, other tangent) in the shape's own frame"""
    n, t, b = frame_of(H, name if isinstance(name, (int, str)) and not str(name).startswith("face") else 0)
    if shape == "sphere":
        return "sphere", 3.0, tuple(3 * x for x in n), n, t, b
    if shape == "side":
        return "cylinder", (6.0, 3.0), (3 * n[0], 3 * n[1], H.q(1, 4)), n, t, b
    if shape == "cap":
        s = name[1]
        u, v = H.q(3, 5), H.q(-4, 5)
        return "cylinder", (6.0, 5.0), (H.q(1, 2), H.q(-1, 4), H.q(3 * s)), (0.0, 0.0, 1.0 * s), (u, v, 0.0), (-v, u, 0.0)
    k, s = name
    size = (6.0, 8.0, 7.0)
    p = [H.q(1, 2), H.q(-1, 4)]
    p.insert(k, H.q(int(s * size[k] * 5), 10))
    nn, t, b = [0.0] * 3, [0.0] * 3, [0.0] * 3
    nn[k] = 1.0 * s
    t[(k + 1) % 3], t[(k + 2) % 3] = H.q(3, 5), H.q(4, 5)
    b[(k + 1) % 3], b[(k + 2) % 3] = H.q(-4, 5), H.q(3, 5)
    return "box", size, tuple(p), tuple(nn), tuple(t), tuple(b)


def surface(H, shape, frame, place, side, what, inci=None):
    """side +1: leaving the shape; -1: entering it"""
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    kind, dims, p, n, t, b = point(H, shape, frame)
    if what == "normal":
        s, c = 0.0, 1.0
    else:
        s, c = H.q(*inci[0]), H.q(*inci[1])
    inc = tuple(side * x for x in n)
    R3 = [conv(H, v) for v in FRAMES[place]] if place is not None else [H.qv(1, 0, 0), H.qv(0, 1, 0), H.qv(0, 0, 1)]
    off = H.qv((1, 2), -1, (3, 4)) if place is not None else H.qv(0, 0, 0)

    def w(v, q=0):
        return tuple(sum(R3[j][i] * v[j] for j in range(3)) + q * off[i] for i in range(3))
    d = w(tuple(c * inc[i] + s * t[i] for i in range(3)))
    L = c * H.q(1, 2)
    P = w(p, 1)
    o = tuple(P[i] - L * d[i] for i in range(3))
    g = kern.shape(H, kind, dims, kern.material(n1 if side > 0 else n2))
    pl = None
    if place is not None:
        pl = kern.pose(H, place, off)
    sc = world_with(H, g, n2 if side > 0 else n1, pl)
    if what == "tir":
        H.assume(n1 * s >= n2 + 1e-5)
    elif what != "normal":
        H.assume(n1 * s <= n2 - 1e-5)
    K = Kernel(H)
    comp, ev, out = kern.trace1(H, K, sc, o, d, max_events=4, maxsteps=3)
    if ev is None:
        return
    H.check(len(ev) >= 2 and ev[0].kind == GENERATE and ev[1].kind in (REFLECT, TRANSMIT), "a surface reflects or transmits")
    if not (len(ev) >= 2 and ev[1].kind in (REFLECT, TRANSMIT)):
        return
    e = ev[1]
    H.check_close3(e.position, P, "the interaction happens on the surface", tol=1e-6)
    H.check(e.hit == 1 and e.container == (1 if side > 0 else 0) and e.adjacent == (0 if side > 0 else 1), "the media on both sides are named")
    H.check_close3(e.normal, w(n), "the normal is the outward normal", tol=1e-6)
    mirror = w(tuple(s * t[i] - c * inc[i] for i in range(3)))
    if what == "tir":
        H.check(e.kind == REFLECT, "beyond the critical angle every ray is reflected")
        H.check_close3(e.direction, mirror, "a reflected ray is the mirror image about the normal", tol=1e-6)
        return
    st = n1 * s / n2
    ct = H.sqrt(1 - st * st)
    R = fresnel_oracle(H, c, s, n1, n2)
    u = H.real("u1", 0, 1, hi_open=True)
    if e.kind == REFLECT:
        H.check_le(u, R, "a ray is reflected only when the draw lies below the Fresnel reflectivity", tol=1e-6)
        H.check_close3(e.direction, mirror, "a reflected ray is the mirror image about the normal", tol=1e-6)
    else:
        H.check_ge(u, R, "a ray is transmitted only when the draw lies above the Fresnel reflectivity", tol=1e-6)
        H.check_close3(e.direction, w(tuple(st * t[i] + ct * inc[i] for i in range(3))), "a transmitted ray is refracted by Snell's law", tol=1e-6)


def functions(H, what, order=None, frame=None):
    """the kernel's optics functions on their own, when they exist under these names"""
    K = Kernel(H)
    n1, n2 = H.real("n1", 1, 4), H.real("n2", 1, 4)
    if what in ("value", "tir", "zero"):
        f = K.func("fresnel_reflectivity", "double", ("double", "double", "double"))
        if f is None:
            H.check(True, "not present as a separate function; the surface jobs decide")
            return
        if what == "zero":
            q = (n1 - n2) / (n1 + n2)
            H.check_close(K.call(f, 0.0, n1, n2)[0], q * q, "reflectivity at normal incidence")
            return
        a = H.angle("a", 0, 1)
        c, s = H.cos(a), H.sin(a)
        if what == "tir":
            H.assume(n1 * s >= n2 + 1e-6)
            H.check_close(K.call(f, a, n1, n2)[0], 1.0, "reflectivity beyond the critical angle is one")
            return
        H.assume(n1 <= n2 if order == "up" else n1 >= n2)
        H.assume(n1 * s <= n2 - 1e-6)
        H.check_close(K.call(f, a, n1, n2)[0], fresnel_oracle(H, c, s, n1, n2), "reflectivity equals the unpolarised Fresnel value", tol=1e-6)
    elif what == "mirror":
        f = K.func("specular_reflect", "void", ("ptr", "ptr", "ptr"))
        if f is None:
            H.check(True, "not present as a separate function; the surface jobs decide")
            return
        n, d = H.unit3("n"), H.vec3("d", -1, 1)
        r = K.call(f, list(d), list(n), [None] * 3)
        if r is None:
            return
        r = r[1][2]
        k = dot(d, n)
        for i in range(3):
            H.check_close(r[i], d[i] - 2 * k * n[i], "a reflected ray is the mirror image about the normal")
    else:
        f = K.func("fresnel_refract", "void", ("ptr", "ptr", "double", "double", "ptr"))
        if f is None:
            H.check(True, "not present as a separate function; the surface jobs decide")
            return
        n, t, b = frame_of(H, frame)
        H.assume(n1 <= n2 if order == "up" else n1 >= n2)
        s, c = H.unit2("d")
        H.assume(c >= 0)
        H.assume(n1 * n1 * s * s <= n2 * n2 - 1e-6)
        d = tuple(c * n[i] + s * t[i] for i in range(3))
        r = K.call(f, list(d), list(n), n1, n2, [None] * 3)
        if r is None:
            return
        r = r[1][2]
        H.check_close(dot(r, r), 1.0, "a refracted direction has unit length", tol=1e-6)
        H.check_close(dot(r, b), 0.0, "a refracted direction lies in the plane of incidence")
        H.check_close(n2 * dot(r, t), n1 * s, "refraction obeys Snell's law", tol=1e-6)
        H.check(H.Implies(c > 1e-9, dot(r, n) > 0) if H.mode == "sym" else (c < 1e-6 or dot(r, n) > 0), "a refracted ray leaves on the far side")


def unchanged(H, n):
    """equal indices and null surfaces leave the ray as it was"""
    d = H.unit3("d")
    H.assume(H.abs(d[2]) >= 0.2)
    k = H.real("n", 1, 4)
    m = H.real("m", 1, 4) if n == "null" else k
    g = kern.shape(H, "sphere", 3.0, kern.material(m, null=(n == "null")))
    K = Kernel(H)
    c, ev, out = kern.trace1(H, K, world_with(H, g, k), (0.0, 0.0, 0.0), d, max_events=4, maxsteps=3)
    if ev is None:
        return
    u = H.real("u1", 0, 1, hi_open=True)
    H.check(len(ev) >= 2 and ev[1].kind == TRANSMIT, "without an index step nothing is reflected")
    H.check_close3(ev[1].direction, d, "without an index step nothing is bent", tol=1e-6)


# --- volume -----------------------------------------------------------------------

def vol(H, n, comps):
    """a ball of radius 60 of the medium inside a world that does nothing (node 1)"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    w = Node(name="world", geometry=kern.shape(H, "sphere", 100.0, kern.material(1.0)))
    Node(name="ball", parent=w, geometry=kern.shape(H, "sphere", 60.0, kern.material(n, comps, null=True)))
    return Scene(w)


def table(H, name, n, lo=300, hi=900, ylo=0.0, yhi=50.0):
    import numpy as np
    xs, ys = [], []
    for i in range(n):
        x = H.real("%sx%d" % (name, i), lo, hi)
        if xs:
            H.assume(x >= xs[-1] + 1e-3)
        xs.append(x)
        ys.append(H.real("%sy%d" % (name, i), ylo, yhi))
    return xs, ys


def lookup(H, xs, ys, x):
    """piecewise linear with edge values beyond the ends"""
    if bool(x <= xs[0]):
        return ys[0]
    for i in range(1, len(xs)):
        if bool(x <= xs[i]):
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    return ys[-1]


def coeff(H, name, n):
    """(constructor argument, function of wavelength)"""
    import numpy as np
    if n == 0:
        a = H.real("%sa" % name, 0, 50)
        return a, lambda w: a
    xs, ys = table(H, name, n)
    return np.array([[x, y] for x, y in zip(xs, ys)], dtype=object if H.mode == "sym" else float), lambda w: lookup(H, xs, ys, w)


def attenuation(H, rows):
    """where a ray is absorbed, and by which of the components"""
    from pvtrace.material.component import Absorber
    comps, laws_ = [], []
    for i, n in enumerate(rows):
        c, f = coeff(H, "c%d" % i, n)
        comps.append(Absorber(c, name="c%d" % i))
        laws_.append(f)
    w = H.real("nm", 200, 1000)
    K = Kernel(H)
    sc = vol(H, 1.0, comps)
    c, ev, out = kern.trace1(H, K, sc, (0.0, 0.0, 0.0), (0.0, 0.0, 1.0), wavelength=w, max_events=5, maxsteps=3)
    if ev is None:
        return
    a = [f(w) for f in laws_]
    tot = sum(a)
    u = H.real("u1", 0, 1, hi_open=True)
    if ev[1].kind == TRANSMIT:
        if len(K.draws):
            H.check_ge(-H.log(1 - u), 60 * tot, "a ray passes only when the sampled distance exceeds the path", tol=1e-6)
        else:
            H.check_le(tot, 1e-8, "absorption is only skipped without attenuation", tol=1e-9)
        return
    H.check([e.kind for e in ev] == [GENERATE, ABSORB, NONRADIATIVE], "an absorber absorbs")
    e = ev[1]
    H.check_close(e.travelled * tot, -H.log(1 - u), "the absorption distance is the exponential law of the total coefficient at the draw", tol=1e-6)
    H.check_close3(e.position, (0.0, 0.0, e.travelled), "the ray is absorbed at that distance")
    H.check(e.container == 1 and ev[2].component == e.component and 0 <= e.component < len(rows), "the component is named")
    if len(rows) > 1:
        u2 = H.real("u2", 0, 1, hi_open=True)
        k = e.component
        H.check_le(sum(a[:k]), u2 * tot, "components are picked in proportion to their coefficients (lower end)", tol=1e-6)
        H.check_ge(sum(a[:k + 1]), u2 * tot, "components are picked in proportion to their coefficients (upper end)", tol=1e-6)


def radiative(H, kind):
    """re-emission decision, kind of event, delay of lost rays"""
    from pvtrace.material.component import Absorber, Scatterer, Luminophore, Reactor
    import numpy as np
    q = H.real("q", 0, 1)
    if kind == "scatterer":
        c = Scatterer(1.0, quantum_yield=q, name="s")
    elif kind == "luminophore":
        c = Luminophore(1.0, emission=np.array([[400.0, 0.0], [500.0, 1.0], [600.0, 0.0]]), quantum_yield=q, name="s")
    elif kind == "absorber":
        c = Absorber(1.0, name="s")
    elif kind == "absorber-lifetime":
        c = Absorber(1.0, name="s", tau_nr=H.real("tn", 1e-3, 10))
    else:
        c = Reactor(1.0, name="s")
    K = Kernel(H)
    z = H.real("z", -50, 50)
    cs, ev, out = kern.trace1(H, K, vol(H, 1.5, [c]), (0.0, 0.0, z), (0.0, 0.0, 1.0), wavelength=450.0, max_events=6, maxsteps=3,
                              emit_method=1)
    if ev is None:
        return
    L = -H.log(1 - H.real("u1", 0, 1, hi_open=True))
    if len(ev) > 1 and ev[1].kind != ABSORB:
        H.check(ev[1].kind == TRANSMIT, "a ray is absorbed or leaves")
        H.check_ge(L, 60 - z, "a ray is absorbed exactly when the sampled distance is shorter than the path", tol=1e-6)
        return
    H.check(len(ev) >= 3, "absorption is followed by its outcome")
    H.check_le(L, 60 - z, "a ray is absorbed exactly when the sampled distance is shorter than the path", tol=1e-6)
    a, b = ev[1], ev[2]
    H.check_close3(a.position, (0.0, 0.0, z + L), "a ray is absorbed at the sampled distance", tol=1e-6)
    H.check_close3(b.position, a.position, "a re-emitted ray leaves from the absorption point")
    H.check_close(b.travelled, a.travelled, "re-emission does not change the travelled distance")
    u3 = H.real("u3", 0, 1, hi_open=True)
    if kind.startswith("absorber") or kind == "reactor":
        H.check(b.kind == (REACT if kind == "reactor" else NONRADIATIVE), "absorbers and reactors never re-emit")
        H.check(b.source == -1, "a lost ray keeps its source")
        if kind == "absorber-lifetime":
            H.check_ge(b.duration, a.duration, "a delay is never negative", tol=1e-12)
        return
    H.check(b.kind in (NONRADIATIVE, SCATTER if kind == "scatterer" else EMIT), "the event matches the kind of component")
    H.check_iff(b.kind != NONRADIATIVE, u3, q, "a ray is re-emitted exactly when the draw falls below the quantum yield")
    if b.kind != NONRADIATIVE:
        H.check(b.source == 0, "a re-emitted ray names the component as its source")
        if kind == "scatterer":
            H.check_close(b.wavelength, 450.0, "a scatterer keeps the wavelength")
        else:
            H.check(H.And(b.wavelength >= 450.0 - 1e-9, b.wavelength <= 600.0 + 1e-9), "in redshift mode the emitted wavelength is never shorter than the absorbed one")


def phase(H, kind, lum):
    from pvtrace.material.component import Scatterer, Luminophore
    from pvtrace.material import utils
    import numpy as np
    p = params_of(H, kind)
    f = {"isotropic": utils.isotropic}.get(kind)
    if f is None:
        f = utils.Cone(p[0]) if kind == "cone" else utils.HenyeyGreenstein(0.0 if kind == "hg0" else p[0])
    if lum:
        c = Luminophore(40.0, emission=np.array([[400.0, 0.0], [500.0, 1.0], [600.0, 0.0]]), quantum_yield=1.0, phase_function=f, name="s")
    else:
        c = Scatterer(40.0, quantum_yield=1.0, phase_function=f, name="s")
    K = Kernel(H)
    cs, ev, out = kern.trace1(H, K, vol(H, 1.5, [c]), (0.0, 0.0, 0.0), (0.0, 0.0, 1.0), max_events=5, maxsteps=2, emit_method=2)
    if ev is None or len(ev) < 3 or ev[1].kind != ABSORB:
        return
    d = ev[2].direction
    H.check(ev[2].kind == (EMIT if lum else SCATTER), "the ray is re-emitted")
    H.check(all(H.finite(x) for x in d), "a sampled direction is finite")
    H.check_close(dot(d, d), 1.0, "a sampled direction has unit length", tol=1e-6)
    D = Draws(H, len(K.draws))
    D.used |= {0, 1}
    if kind == "cone":
        H.check_ge(d[2], H.cos(p[0]), "a cone direction lies inside the stated half angle", tol=1e-9)
    D.match(d, laws(H, {"hg0": "isotropic"}.get(kind, kind), p), "directions follow the stated law of the draws", tol=1e-6)


def emission(H, method):
    import numpy as np
    from pvtrace.material.component import Luminophore
    XS = [400.0, 520.0, 700.0]
    ys = [H.real("y%d" % i, 1e-2, 100) for i in range(3)]
    nm = H.real("nm", *{"kT": (412, 699), "full": (200, 1000), "redshift": (400, 700)}[method])
    c = Luminophore(1.0, emission=np.array([[x, y] for x, y in zip(XS, ys)]), quantum_yield=1.0, name="s")
    from pvtrace.engine.compiler import EMIT_METHODS
    K = Kernel(H)
    cs, ev, out = kern.trace1(H, K, vol(H, 1.5, [c]), (0.0, 0.0, 0.0), (0.0, 0.0, 1.0), wavelength=nm, max_events=5, maxsteps=2,
                              emit_method=EMIT_METHODS[method])
    if ev is None or len(ev) < 3 or ev[1].kind != ABSORB:
        return
    H.check(ev[2].kind == EMIT, "the ray is re-emitted")
    w = ev[2].wavelength
    n = len(K.draws)
    H.check(H.And(w >= 400.0, w <= 700.0), "an emitted wavelength lies in the emission spectrum")
    # cumulative spectrum, in closed form
    a0 = 60 * (ys[0] + ys[1])
    T = a0 + 90 * (ys[1] + ys[2])

    def cdf(x):
        return a0 * (x - XS[0]) / 120 if bool(x <= XS[1]) else a0 + (T - a0) * (x - XS[1]) / 180
    u = H.real("u%d" % n, 0, 1, hi_open=True)
    got = cdf(w)
    if method == "full":
        H.check_close(got, u * T, "the emitted wavelength inverts the cumulative emission spectrum at the draw", tol=1e-5)
        return
    if method == "redshift":
        H.check_ge(w, nm, "in redshift mode the emitted wavelength is never shorter than the absorbed one", tol=1e-6)
        low = cdf(nm)
    else:
        E = 1240 / nm + 3 / 2 * 1.380649e-23 / 1.60217662e-19 * 300.0
        H.check_ge(w * E, 1240.0, "in kT mode the emitted energy exceeds the absorbed one by at most 3/2 kT", tol=1e-5)
        low = cdf(1240 / E)
    H.check_close(got, low + (T - low) * u, "the emitted wavelength is drawn uniformly from the allowed part of the spectrum", tol=1e-4)


def delay(H, kind):
    import numpy as np
    from pvtrace.material.component import Luminophore, Scatterer, Absorber
    tr, tn = H.real("ta", 1e-3, 10), H.real("tb", 1e-3, 10)
    if kind == "luminophore":
        c = Luminophore(1.0, emission=np.array([[400.0, 0.0], [500.0, 1.0], [600.0, 0.0]]), tau_rad=tr, tau_nr=tn, name="s")
    elif kind == "scatterer":
        c = Scatterer(1.0, tau_rad=tr, tau_nr=tn, name="s")
    else:
        c = Absorber(1.0, tau_nr=tn, name="s")
    n = H.real("n", 1, 4)
    K = Kernel(H)
    cs, ev, out = kern.trace1(H, K, vol(H, n, [c]), (0.0, 0.0, 0.0), (0.0, 0.0, 1.0), max_events=5, maxsteps=2, emit_method=2)
    if ev is None or len(ev) < 3 or ev[1].kind != ABSORB:
        return
    L = -H.log(1 - H.real("u1", 0, 1, hi_open=True))
    H.check_close(ev[1].duration * 2.99792458e10, L * n, "travel time is path length times refractive index over the speed of light", tol=1e-6)
    wait = ev[2].duration - ev[1].duration
    H.check_ge(wait, 0.0, "a delay is never negative", tol=1e-12)
    if kind == "scatterer" and ev[2].kind == SCATTER:
        H.check_close(wait, 0.0, "scattering takes no time", tol=1e-12)
        return
    u = H.real("u%d" % len(K.draws), 0, 1, hi_open=True)
    H.check_close(wait, -H.log(1 - u) * (tr if ev[2].kind == EMIT else tn), "a delay is the exponential law at the draw", tol=1e-6)


JOBS = []
PTS = [("sphere", 5, None), ("sphere", 3, 4), ("side", "side", None), ("cap", (2, 1), None), ("cap", (2, -1), 5), ("box", (0, 1), None),
       ("box", (1, -1), 3), ("box", (2, 1), 5)]
# sine and cosine of the listed incidences
INC = [((7, 25), (24, 25)), ((3, 5), (4, 5)), ((4, 5), (3, 5)), ((20, 29), (21, 29)), ((40, 41), (9, 41)), ((9, 41), (40, 41)),
       ((220, 221), (21, 221)), ((21, 221), (220, 221))]
for i, (sh, fr, pl) in enumerate(PTS):
    for k, side in enumerate((1, -1)):
        for what in ("value", "tir", "normal"):
            n = "surface/%s-%s-%s/%s/%s" % (sh, str(fr).replace(" ", ""), pl, "leave" if side > 0 else "enter", what)
            if what == "normal":
                JOBS.append(Job(n, surface, shape=sh, frame=fr, place=pl, side=side, what=what))
                continue
            for m, q in enumerate(INC):
                if what == "tir" and q[0][0] * 4 <= q[0][1]:
                    continue
                JOBS.append(Job("%s/%d" % (n, m), surface, shape=sh, frame=fr, place=pl, side=side, what=what, inci=q,
                                tiers=("quick", "thorough") if m in ((2 * i + k) % 8, (2 * i + k + 3) % 8) else ("thorough",)))
for o in ("up", "down"):
    JOBS.append(Job("function/value/" + o, functions, what="value", order=o))
    for fr in ("free-xy", "free-yz", 0, 3, 5):
        JOBS.append(Job("function/refract/%s/%s" % (fr, o), functions, what="refract", order=o, frame=fr))
JOBS += [Job("function/" + w, functions, what=w) for w in ("tir", "zero", "mirror")]
JOBS += [Job("unchanged/" + n, unchanged, n=n) for n in ("equal", "null")]
for rows in ((0,), (2,), (3,), (4,), (0, 0), (0, 2), (0, 0, 0), (2, 3)):
    JOBS.append(Job("attenuation/" + "-".join(map(str, rows)), attenuation, rows=rows, opts=dict(weight=sum(rows))))
JOBS += [Job("radiative/" + k, radiative, kind=k) for k in ("scatterer", "luminophore", "absorber", "absorber-lifetime", "reactor")]
JOBS += [Job("phase/%s/%s" % (k, "luminophore" if l else "scatterer"), phase, kind=k, lum=l) for k in ("isotropic", "hg+", "hg-", "hg0", "cone") for l in (False, True)]
JOBS += [Job("emission/" + m, emission, method=m) for m in ("full", "redshift", "kT")]
JOBS += [Job("delay/" + k, delay, kind=k) for k in ("luminophore", "scatterer", "absorber")]
