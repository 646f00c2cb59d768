"""Absorption distances and the choice of the absorbing component in the Python tracer."""
from vlib.harness import Job

PROPERTY = "P09"
PRELOAD = ("pvtrace.material.material", "pvtrace.material.component", "pvtrace.material.distribution", "pvtrace.light.ray")
BOUNDS = {"components": "up to 4 components of any kind (scatterer, absorber, reactor, luminophore)",
          "coefficients": "any constant in [0,100] or tables of 3 points with any values and any wavelength in range; totals are zero or at least "
                          "1e-6 (smaller totals are treated as zero by the code)",
          "outside": "rounding of draws within a few ulp of a component boundary"}
ASSUMPTIONS = ["a uniform random draw is any value in [0,1)", "the logarithm is an uninterpreted monotone function with its defining sign and bound facts"]

KINDS = ("scatterer", "absorber", "reactor", "luminophore")


def component(H, kind, coef, name):
    import numpy as np
    from pvtrace.material.component import Scatterer, Absorber, Reactor, Luminophore
    if kind == "scatterer":
        return Scatterer(coef, name=name)
    if kind == "absorber":
        return Absorber(coef, name=name)
    if kind == "reactor":
        return Reactor(coef, name=name)
    return Luminophore(coef, emission=np.array([[400.0, 0.0], [500.0, 1.0], [600.0, 0.0]]), name=name)


def coefficients(H, n, form, zeros=()):
    """(constructor arguments, coefficient at the ray's wavelength), wavelength"""
    import numpy as np
    if form == "table":
        nm = H.real("nm", 400, 700)
        xs = [400.0, 520.0, 700.0]
        args, vals = [], []
        for i in range(n):
            ys = [0.0 if i in zeros else H.real("y%d%d" % (i, j), 0, 100) for j in range(3)]
            args.append(np.array([[x, y] for x, y in zip(xs, ys)]))
            v = H.If(nm <= xs[1], ys[0] + (nm - xs[0]) * (ys[1] - ys[0]) / (xs[1] - xs[0]), ys[1] + (nm - xs[1]) * (ys[2] - ys[1]) / (xs[2] - xs[1]))
            vals.append(v)
        return args, vals, nm
    vals = [0.0 if i in zeros else H.real("c%d" % i, 0, 100) for i in range(n)]
    return list(vals), vals, 555.0


def material(H, kinds, form, zeros=()):
    from pvtrace.material.material import Material
    args, vals, nm = coefficients(H, len(kinds), form, zeros)
    comps = [component(H, k, a, "k%d" % i) for i, (k, a) in enumerate(zip(kinds, args))]
    return Material(1.5, components=comps), comps, vals, nm


def depth(H, kinds, form):
    from pvtrace.light.ray import Ray
    m, comps, vals, nm = material(H, kinds, form)
    T = sum(vals)
    H.check_close(m.total_attenutation_coefficient(nm), T, "the attenuation is the sum over all components", tol=1e-6)
    H.assume(T >= 1e-6)
    D = H.real("D", 1e-3, 1000)
    ray = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=nm)
    got, at = m.is_absorbed(ray, D)
    u = H.real("u1", 0, 1, hi_open=True)
    if H.mode == "sym":
        # depth * total = -log(1 - u): survival beyond d has probability exp(-total d)
        H.check(at * T == -H.log(1 - u), "the sampled distance inverts exponential attenuation at the total coefficient")
        H.check(H.Iff(got, at < D), "a ray is absorbed exactly when the sampled distance is shorter than the path")
    else:
        H.check_close(at * T, -H.log(1 - u), "the sampled distance inverts exponential attenuation at the total coefficient", tol=1e-6)
        H.check(bool(got) == bool(at < D), "a ray is absorbed exactly when the sampled distance is shorter than the path")


def transparent(H, kinds, form):
    from pvtrace.light.ray import Ray
    m, comps, vals, nm = material(H, kinds, form, zeros=range(len(kinds)))
    D = H.real("D", 1e-3, 1e6)
    got, at = m.is_absorbed(Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=nm), D)
    H.check(H.Not(got), "a medium with zero coefficient never absorbs")
    H.check(at == float("inf"), "the absorption distance of a transparent medium is infinite")


def choice(H, kinds, form, zeros=()):
    m, comps, vals, nm = material(H, kinds, form, zeros)
    T = sum(vals)
    H.assume(T >= 1e-6)
    got = m.component(nm)
    idx = [i for i, c in enumerate(comps) if c is got]
    H.check(len(idx) == 1, "the chosen component belongs to the material")
    i = idx[0]
    u = H.real("u1", 0, 1, hi_open=True)
    lo = sum(vals[:i]) if i else 0.0
    hi = sum(vals[:i + 1])
    if H.mode == "sym":
        H.check(H.And(lo <= u * T, u * T < hi), "each component is chosen for the share of draws given by its coefficient")
        H.check(vals[i] > 0, "a component with zero coefficient is never chosen")
    else:
        H.check(lo <= u * T + 1e-9 * T and u * T < hi + 1e-9 * T, "each component is chosen for the share of draws given by its coefficient")
        H.check(vals[i] > 0, "a component with zero coefficient is never chosen")


def integer(H, kind):
    """a coefficient given as a whole number is the same as the equal float"""
    from pvtrace.material.material import Material
    k = H.pick("k", [0, 1, 7])
    m = Material(1.5, components=[component(H, kind, k, "c")])
    H.check_close(m.total_attenutation_coefficient(555.0), float(k), "a coefficient given as a whole number is used")


def listed(H):
    """coefficients given as functions with their own wavelengths are summed"""
    import numpy as np
    from pvtrace.material.material import Material
    from pvtrace.material.component import Scatterer, Absorber
    a, b, c = H.real("a", 0, 10), H.real("b", 0, 10), H.real("c", 0, 10)
    xs = [400.0, 500.0, 600.0]
    f = lambda x: np.array([a, b, c])
    g = lambda x: np.array([c, c, c])
    m = Material(1.5, components=[Scatterer([f, g], x=xs), Absorber([g], x=xs)])
    nm = H.real("nm", 400, 500)
    H.check_close(m.total_attenutation_coefficient(nm), a + (b - a) * (nm - 400) / 100 + 2 * c, "the attenuation is the sum over all components", tol=1e-6)


JOBS = []
for ks in (("absorber",), ("scatterer",), ("luminophore",), ("reactor", "luminophore"), ("scatterer", "absorber", "luminophore"), KINDS):
    for form in ("const", "table"):
        nm = "+".join(k[0] for k in ks) + "/" + form
        JOBS.append(Job("depth/" + nm, depth, kinds=ks, form=form, tiers=("thorough",) if form == "table" and len(ks) > 3 else ("quick", "thorough")))
        if len(ks) > 1 or form == "const":
            JOBS.append(Job("choice/" + nm, choice, kinds=ks, form=form, tiers=("thorough",) if form == "table" and len(ks) > 2 else ("quick", "thorough")))
        if len(ks) < 3:
            JOBS.append(Job("transparent/" + nm, transparent, kinds=ks, form=form))
for z in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 2)):
    JOBS.append(Job("choice/zero-" + "".join(map(str, z)), choice, kinds=("scatterer", "absorber", "luminophore"), form="const", zeros=z))
JOBS += [Job("integer/" + k, integer, kind=k) for k in KINDS]
JOBS.append(Job("listed", listed))
