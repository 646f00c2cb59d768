"""Direction samplers, position masks and wavelength masks, one ray at a time and vectorised."""
import math
from vlib.harness import Job

PROPERTY = "P12"
PRELOAD = ("pvtrace.material.utils", "pvtrace.light.light", "pvtrace.engine.emit", "pvtrace.scene.node", "pvtrace.scene.scene",
           "pvtrace.geometry.sphere", "pvtrace.material.distribution")
BOUNDS = {"parameters": "any cone half angle in (1e-3, pi/2], any anisotropy factor in [-0.99, 0.99] at least 1e-3 from zero or exactly zero, any "
                        "rectangle, disc or box size in [1e-3, 1e3]",
          "draws": "any values of all uniform draws; vectorised emission in bundles of one and two rays",
          "outside": "user-supplied delegates"}
ASSUMPTIONS = ["a uniform random draw is any value in [0,1)", "sine and cosine of 2 pi u are any point of the unit circle, one per draw"]


class Draws:
    """matches sampled values against laws of the draws; every draw may serve one ray and one role only"""

    def __init__(self, H, n):
        self.H = H
        self.u = [H.real("u%d" % (k + 1), 0, 1, hi_open=True) for k in range(n)]
        self.used = set()

    def zero(self, d):
        H = self.H
        if H.mode != "sym":
            return abs(d) <= 1e-9 * (1 + abs(d))
        sx = H.sx
        t = H.E.P.norm(sx.z3.simplify(sx.rt(d)))
        return (sx.isval(t) and abs(sx.fval(t)) < 1e-9) or H.E.P.iszero(t)

    def match(self, v, law, label, tol=1e-7):
        """v equals law(u...) for a fresh choice of draws (law takes as many draws as its arity)"""
        k = law.__code__.co_argcount
        free = [i for i in range(len(self.u)) if i not in self.used]
        import itertools
        perms = list(itertools.permutations(free, k))
        for p in perms:
            w = law(*[self.u[i] for i in p])
            if all(self.zero(a - b) for a, b in zip(v, w)):
                self.used |= set(p)
                self.H.check(True, label)
                return
        if not perms:
            self.H.fail(label + " from draws of its own")
            return
        self.H.check_close3(tuple(v), law(*[self.u[i] for i in perms[0]]), label, tol)
        self.used |= set(perms[0])


def sphere(H, s, c, u):
    a = 2 * math.pi * u
    return (s * H.cos(a), s * H.sin(a), c)


def laws(H, kind, params):
    """direction as a function of two draws (polar draw, azimuth draw); two equivalent mirrored forms are accepted"""
    if kind == "isotropic":
        return lambda p, a: sphere(H, H.sqrt(1 - (2 * p - 1) * (2 * p - 1)), 2 * p - 1, a)
    if kind == "cone":
        st = H.sin(params[0])
        return lambda p, a: sphere(H, H.sqrt(p) * st, H.sqrt(1 - p * st * st), a)
    if kind == "lambertian":
        return lambda p, a: sphere(H, H.sqrt(p), H.sqrt(1 - p), a)
    g = params[0]

    def hg(p, a):
        q = (1 - g * g) / (1 + g * (2 * p - 1))
        mu = (1 + g * g - q * q) / (2 * g)
        return sphere(H, H.sqrt(1 - mu * mu), mu, a)
    return hg


def params_of(H, kind):
    if kind == "cone":
        th = H.angle("th", 0, 1)
        H.assume(th >= 1e-3)
        return (th,)
    if kind == "hg+":
        return (H.real("g", 1e-3, 0.99),)
    if kind == "hg-":
        return (H.real("g", -0.99, -1e-3),)
    return ()


def sampler(kind, p):
    from pvtrace.material import utils
    if kind == "isotropic":
        return utils.isotropic
    if kind == "lambertian":
        return utils.lambertian
    if kind == "cone":
        return utils.Cone(p[0])
    if kind == "hg0":
        return utils.HenyeyGreenstein(0.0)
    return utils.HenyeyGreenstein(p[0])


def judge(H, kind, p, d, draws):
    H.check(len(d) == 3, "a direction has three components")
    H.check(all(H.finite(x) for x in d), "a sampled direction is finite")
    if not all(H.finite(x) for x in d):
        return
    H.check_close(d[0] * d[0] + d[1] * d[1] + d[2] * d[2], 1.0, "a sampled direction has unit length", tol=1e-6)
    if kind == "cone":
        H.check_ge(d[2], H.cos(p[0]), "a cone direction lies inside the stated half angle", tol=1e-9)
    if kind == "lambertian":
        H.check_ge(d[2], 0.0, "a Lambertian direction lies in the forward hemisphere", tol=1e-12)
    if kind in ("hg+", "hg-"):
        # the cumulative Henyey-Greenstein law, cleared of its square root
        g, mu = p[0], d[2]
        free = [i for i in range(len(draws.u)) if i not in draws.used]
        ok = False
        for i in free:
            u = draws.u[i]
            w = (1 + g * (2 * u - 1))
            if draws.zero((1 + g * g - 2 * g * mu) * w * w - (1 - g * g) * (1 - g * g)):
                ok = True
                break
        if H.mode == "sym" and not ok:
            u = draws.u[free[0]]
            w = (1 + g * (2 * u - 1))
            H.check_close((1 + g * g - 2 * g * mu) * w * w, (1 - g * g) * (1 - g * g), "directions follow the stated angular law", tol=1e-6)
        else:
            H.check(ok, "directions follow the stated angular law")
    draws.match(d, laws(H, {"hg0": "isotropic"}.get(kind, kind), p), "directions follow the stated law of the draws")


def direction(H, kind):
    p = params_of(H, kind)
    f = sampler(kind, p)
    d = f()
    judge(H, kind, p, tuple(d), Draws(H, 2))


def position_law(H, kind, s):
    if kind == "rectangle":
        return lambda a, b: (s[0] * (2 * a - 1), s[1] * (2 * b - 1), 0.0)
    if kind == "box":
        return lambda a, b, c: (s[0] * (2 * a - 1), s[1] * (2 * b - 1), s[2] * (2 * c - 1))
    return lambda a, b: (H.sqrt(a) * s[0] * H.cos(2 * math.pi * b), H.sqrt(a) * s[0] * H.sin(2 * math.pi * b), 0.0)


def mask(kind, s):
    from pvtrace.light import light
    if kind == "rectangle":
        return light.RectangularMask(s[0], s[1])
    if kind == "box":
        return light.CubeMask(s[0], s[1], s[2])
    return light.CircularMask(s[0])


def judge_position(H, kind, s, v, draws):
    v = tuple(v)
    H.check(len(v) == 3, "a position has three components")
    if kind == "disc":
        H.check_le(v[0] * v[0] + v[1] * v[1], s[0] * s[0], "a disc position lies within the radius", tol=1e-6)
    else:
        for k in range(2 if kind == "rectangle" else 3):
            H.check_le(v[k], s[k], "a position lies within the stated half size", tol=1e-9)
            H.check_ge(v[k], -s[k], "a position lies within the stated half size", tol=1e-9)
    draws.match(v, position_law(H, kind, s), "positions fill the stated shape uniformly in the draws")


def position(H, kind):
    s = [H.real("s%d" % k, 1e-3, 1e3) for k in range(3)]
    judge_position(H, kind, s, mask(kind, s)(), Draws(H, 3 if kind == "box" else 2))


def spectrum(H, table):
    import numpy as np
    from pvtrace.material.distribution import Distribution
    return Distribution(np.array([400.0, 500.0, 700.0]), np.array([1.0, 3.0, 2.0]))


def inverse_spectrum(H, u):
    # total area: 200 + 500
    return H.If(u <= 2.0 / 7, 400 + 350 * u, 500 + (u * 700 - 200) / 500 * 200)


def wavelength(H, kind):
    from pvtrace.light import light
    if kind == "constant":
        nm = H.real("nm", 200, 2000)
        H.check_close(light.ConstantWavelengthMask(nm)(), nm, "a constant source emits its wavelength")
    elif kind == "default":
        H.check_close(light.DefaultWavelength()(), 555.0, "the default wavelength is 555 nm")
        H.check_close3(light.DefaultPosition()(), (0.0, 0.0, 0.0), "the default position is the origin")
        H.check_close3(light.DefaultDirection()(), (0.0, 0.0, 1.0), "the default direction is along z")
    else:
        w = light.SpectrumWavelengthMask(spectrum(H, 0))()
        u = H.real("u1", 0, 1, hi_open=True)
        H.check_close(w, inverse_spectrum(H, u), "a spectrum source emits the inverse of its cumulative spectrum", tol=1e-5)


def light_emit(H):
    """a light asks its three rules once per ray"""
    from pvtrace.light.light import Light
    p, d, nm = H.vec3("p", -5, 5), H.unit3("d"), H.real("nm", 300, 900)
    calls = []
    L = Light(wavelength=lambda: calls.append("w") or nm, position=lambda: calls.append("p") or p, direction=lambda: calls.append("d") or d, name="lamp")
    n = H.pick("n", [1, 2, 5])
    rays = list(L.emit(n))
    H.check(len(rays) == n, "a light emits exactly the number of rays asked for")
    H.check(sorted(calls) == ["d"] * n + ["p"] * n + ["w"] * n, "each ray samples each rule once")
    for r in rays:
        H.check_close3(tuple(r.position), p, "a ray starts at the sampled position")
        H.check_close3(tuple(r.direction), d, "a ray starts in the sampled direction")
        H.check_close(r.wavelength, nm, "a ray has the sampled wavelength")
        H.check(r.source == "lamp" and bool(r.travelled == 0) and bool(r.duration == 0), "a fresh ray carries the light's name and has not travelled")


def invalid_cone(H, how):
    from pvtrace.material.utils import Cone
    th = H.real("th", 1.5708, 7) if H.flag("big") else H.real("tz", -1e-9, 1e-9)
    try:
        if how == "single":
            Cone(th)()
        else:
            bundle(H, None, Cone(th), None, 2)
    except ValueError:
        H.check(True, "a cone angle outside (0, pi/2] is refused")
        return
    H.fail("a cone angle outside (0, pi/2] is refused")


def bundle(H, pos, direction, wav, n):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.light.light import Light
    from pvtrace.engine.emit import emit_bundle
    world = Node(name="world", geometry=Sphere(100.0))
    Node(name="lamp", parent=world, light=Light(position=pos, direction=direction, wavelength=wav, name="lamp"))
    return emit_bundle(Scene(world), n)


def vector(H, kind, n):
    """vectorised emission follows the same laws, each ray from draws of its own"""
    if kind in ("rectangle", "disc", "box"):
        s = [H.real("s%d" % k, 1e-3, 1e3) for k in range(3)]
        P, D, W, src = bundle(H, mask(kind, s), None, None, n)
        dr = Draws(H, n * (3 if kind == "box" else 2))
        H.check(len(P) == n and len(D) == n and len(W) == n and len(src) == n, "a bundle has one row per ray")
        for i in range(n):
            judge_position(H, kind, s, P[i], dr)
            H.check_close3(tuple(D[i]), (0.0, 0.0, 1.0), "the default direction is along z")
            H.check_close(W[i], 555.0, "the default wavelength is 555 nm")
            H.check(src[i] == "lamp", "a fresh ray carries the light's name")
        return
    if kind in ("constant", "spectrum"):
        from pvtrace.light import light
        if kind == "constant":
            nm = H.real("nm", 200, 2000)
            W = bundle(H, None, None, light.ConstantWavelengthMask(nm), n)[2]
            for i in range(n):
                H.check_close(W[i], nm, "a constant source emits its wavelength")
            return
        W = bundle(H, None, None, light.SpectrumWavelengthMask(spectrum(H, 0)), n)[2]
        for i in range(n):
            u = H.real("u%d" % (i + 1), 0, 1, hi_open=True)
            H.check_close(W[i], inverse_spectrum(H, u), "a spectrum source emits the inverse of its cumulative spectrum", tol=1e-5)
        return
    p = params_of(H, kind)
    P, D, W, src = bundle(H, None, sampler(kind, p), None, n)
    dr = Draws(H, 2 * n)
    for i in range(n):
        judge(H, kind, p, tuple(D[i]), dr)
        H.check_close3(tuple(P[i]), (0.0, 0.0, 0.0), "the default position is the origin")


KINDS = ("isotropic", "cone", "lambertian", "hg+", "hg-", "hg0")
JOBS = [Job("direction/" + k, direction, kind=k) for k in KINDS]
JOBS += [Job("position/" + k, position, kind=k) for k in ("rectangle", "disc", "box")]
JOBS += [Job("wavelength/" + k, wavelength, kind=k) for k in ("constant", "default", "spectrum")]
JOBS.append(Job("light", light_emit))
JOBS += [Job("invalid-cone/" + h, invalid_cone, how=h) for h in ("single", "bundle")]
for n in (1, 2):
    for k in KINDS + ("rectangle", "disc", "box", "constant", "spectrum"):
        JOBS.append(Job("bundle/%s/%d" % (k, n), vector, kind=k, n=n))
