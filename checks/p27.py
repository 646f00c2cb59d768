"""The concentrator device: what it is built of, which facets mirrors and cells act on, and what it counts."""
import contextlib, io
import numpy as np
from vlib.harness import Job
from vlib import kern

PROPERTY = "P27"
PRELOAD = kern.PRELOAD + ("pvtrace.device.lsc", "pvtrace.light.event", "pvtrace.light.ray", "pvtrace.algorithm.photon_tracer", "pandas")
BOUNDS = {"counting": "slabs with any edge lengths from 0.1 to 100, 1 or 2 rays at once or one after another, each with one of 11 fates through any facets, anywhere on the "
                      "facet (not within 0.2% of its rim) and with any wavelength",
          "facets": "any set of cells and mirrors; a ray anywhere on any facet, from inside or outside at listed incidence angles, listed indices",
          "construction": "any edge lengths, indices, coefficients, quantum yield, and light location; default and own components and lights",
          "outside": "how rays travel inside the slab (P05, P08 to P10, P13); lambertian air gap mirrors hit from their sides; simulating no rays"}
ASSUMPTIONS = ["ray histories of the counting jobs are given to the device instead of traced ones (the box's ray intersection is trimesh's)",
               "box construction is replaced by a stand-in for symbolic sizes"]
FACETS = {"left": (0, -1), "right": (0, 1), "near": (1, -1), "far": (1, 1), "bottom": (2, -1), "top": (2, 1)}
CELLS = ["left", "right", "near", "far"]


class Device:
    """an LSC whose rays have the given histories"""

    def __init__(self, H, size, **kw):
        from pvtrace.device.lsc import LSC
        kern.fake_trimesh(H)
        self.H, self.histories, self.scene = H, [], None
        self.lsc = LSC(tuple(size), **kw)

    def simulate(self, n, make=None):
        import pvtrace.algorithm.photon_tracer as pt
        import pvtrace.device.lsc as ml
        k = [0]

        def follow(scene, ray, *a, **kw):
            self.scene = scene
            k[0] += 1
            return make(k[0] - 1, ray) if make else nothing(ray)
        old, own = pt.follow, getattr(ml, "follow", None)
        pt.follow = follow
        if own is not None:
            ml.follow = follow
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.lsc.simulate(n)
        finally:
            pt.follow = old
            if own is not None:
                ml.follow = own
        return k[0]

    def nodes(self):
        from anytree import LevelOrderIter
        return {n.name: n for n in LevelOrderIter(self.scene.root)}


def edges(box):
    return list(box.size if hasattr(box, "size") else box._size)


def nothing(ray):
    """a ray which leaves at once"""
    from pvtrace.light.event import Event
    from dataclasses import replace
    ray = replace(ray, position=(300.0, 310.0, 320.0), direction=(0.0, 0.0, 1.0))
    return [(ray, Event.GENERATE), (ray.propagate(10.0, 1.0), Event.EXIT)]


# ---- counting ------------------------------------------------------------------
# events after generation: kind and place (a, b: facets; i: inside; m: beside the slab; s: same ray as before)
FATES = {"missed": "EXIT:m", "reflected": "REFLECT:a EXIT:m", "through": "TRANSMIT:a TRANSMIT:b EXIT:m", "lost": "TRANSMIT:a ABSORB:i NONRADIATIVE:s",
         "glow": "TRANSMIT:a ABSORB:i EMIT:s TRANSMIT:b EXIT:m", "haze": "TRANSMIT:a ABSORB:i SCATTER:s REFLECT:a TRANSMIT:b EXIT:m",
         "lost later": "TRANSMIT:a ABSORB:i EMIT:s REFLECT:b ABSORB:i NONRADIATIVE:s", "killed": "TRANSMIT:a ABSORB:i EMIT:s KILL:s",
         "killed at facet": "TRANSMIT:a REFLECT:b KILL:s", "inside": "ABSORB:i EMIT:s TRANSMIT:b EXIT:m", "beside": "EXIT:m"}


class Rays:
    def __init__(self, H, size):
        self.H, self.size, self.k = H, size, 0

    def place(self, f):
        """anywhere on a facet"""
        H = self.H
        self.k += 1
        axis, sign = FACETS[f]
        p = [H.real("p%d%s" % (self.k, c), -50, 50) for c in "xyz"]
        for j in range(3):
            if j == axis:
                p[j] = sign * self.size[j] / 2
            else:
                H.assume(p[j] < self.size[j] * 0.498)
                H.assume(p[j] > -self.size[j] * 0.498)
        return tuple(p)

    def inner(self):
        H = self.H
        self.k += 1
        p = tuple(H.real("p%d%s" % (self.k, c), -50, 50) for c in "xyz")
        for j in range(3):
            H.assume(p[j] < self.size[j] * 0.498)
            H.assume(p[j] > -self.size[j] * 0.498)
        return p

    def history(self, ray, fate, a, b, nm, glow, beside=None):
        from pvtrace.light.event import Event
        from dataclasses import replace
        if fate == "beside":
            # it starts in the plane of a facet but not on the facet
            axis, sign = FACETS[a]
            p = [0.0, 0.0, 0.0]
            p[axis], p[(axis + 1) % 3] = sign * self.size[axis] / 2, self.size[(axis + 1) % 3] * 3
            ray = replace(ray, position=tuple(p))
        if fate == "inside":
            ray = replace(ray, position=self.inner())
        out = [(replace(ray, wavelength=nm), Event.GENERATE)]
        for step in FATES[fate].split():
            e, where = step.split(":")
            r = out[-1][0]
            if where != "s":
                p = self.place(a) if where == "a" else self.place(b) if where == "b" else self.inner() if where == "i" else tuple(300.0 + 10 * j for j in range(3))
                r = replace(r, position=p, travelled=r.travelled + 1.0)
            if e == "EMIT":
                r = replace(r, wavelength=glow, source="Dye")
            if e == "SCATTER":
                r = replace(r, source="Haze")
            out.append((r, getattr(Event, e)))
        return out


def device(H, size, cells=(), light=True):
    D = Device(H, size, wavelength_range=np.arange(400.0, 500.0, 20.0), n0=1.0, n1=1.5)
    x = np.arange(400.0, 500.0, 20.0)
    D.lsc.add_luminophore("Dye", np.column_stack((x, x * 0 + 1.0)), np.column_stack((x, x * 0 + 1.0)), 0.9)
    D.lsc.add_absorber("Background", 0.1)
    D.lsc.add_scatterer("Haze", 0.2)
    D.lsc.add_light("Lamp", (0.25, 0.5, 400.0))
    D.lsc.add_light("Sun", (0.25, 0.5, 500.0))
    if cells:
        D.lsc.add_solar_cell(cells)
    return D


def counting(H, fates, facets, parts, cells):
    """fates of the rays, the facets each uses, the rays of each simulation"""
    size = [H.real("s" + c, 0.1, 100) for c in "xyz"]
    D = device(H, size, cells)
    R = Rays(H, size)
    seen = []
    for part in parts:
        base = len(seen)

        def make(i, ray):
            k = base + i
            fate = fates[k]
            uses = FATES[fate] + (":a" if fate == "beside" else "")
            a = H.pick("a%d" % k, facets) if ":a" in uses else facets[0]
            b = H.pick("b%d" % k, list(FACETS)[k % 2::2]) if ":b" in uses else "top"
            nm, glow = H.real("nm%d" % k, 300, 900), H.real("glow%d" % k, 300, 900)
            h = R.history(ray, fate, a, b, nm, glow)
            seen.append((fate, a, b, nm, glow, ray.source))
            return h
        n = D.simulate(part, make)
        H.check(n == part, "as many rays are traced as asked for")
        judge(H, D, seen, size, cells)


def judge(H, D, seen, size, cells):
    lsc = D.lsc
    zero = lambda: {f: [] for f in FACETS}
    sin, sout, lin, lout = zero(), zero(), zero(), zero()
    lost, killed, missed = [], [], []
    for fate, a, b, nm, glow, src in seen:
        if fate not in ("missed", "beside", "inside"):
            sin[a].append(nm)
        if fate == "reflected":
            sout[a].append(nm)
        elif fate == "through":
            sout[b].append(nm)
        elif fate in ("glow", "inside"):
            lout[b].append(glow)
        elif fate == "haze":
            lout[b].append(nm)
        elif fate == "lost":
            lost.append(nm)
        elif fate == "lost later":
            lost.append(glow)
        elif fate in ("killed", "killed at facet"):
            killed.append(nm if fate == "killed at facet" else glow)
        else:
            missed.append(nm)
    c = lsc.counts()
    for f in FACETS:
        H.check(c["Solar In"][f] == len(sin[f]), "rays from lights are counted at the facet they meet first")
        H.check(c["Solar Out"][f] == len(sout[f]), "rays from lights are counted at the facet they leave through or are reflected at")
        H.check(c["Luminescent Out"][f] == len(lout[f]), "emitted rays are counted at the facet they leave through")
        H.check(c["Luminescent In"][f] == 0, "no ray comes from a component at first")
    gone = [lsc.spectrum(events={e}, kind="last") for e in ("nonradiative", "kill")]
    total = sum(int(c[k][f]) for k in ("Solar Out", "Luminescent Out") for f in FACETS)
    H.check(len(gone[0]) == len(lost), "each ray lost in the slab is counted")
    H.check(len(gone[1]) == len(killed), "each killed ray is counted")
    H.check(total + len(gone[0]) + len(gone[1]) + len(missed) == len(seen), "every ray has exactly one fate")
    for got, want in zip(gone, (lost, killed)):
        spectra(H, got, want)
    lights, comps = {"Lamp", "Sun"}, {"Dye", "Haze", "Background"}
    surf = {"reflect", "transmit"}
    for f in FACETS:
        spectra(H, lsc.spectrum(facets={f}, source=lights, kind="first", events=surf), sin[f])
        spectra(H, lsc.spectrum(facets={f}, source=lights, kind="last", events=surf), sout[f])
        spectra(H, lsc.spectrum(facets=[f], source=comps, events=surf), lout[f])
    for l in sorted(lights):
        want = [nm for (fate, a, b, nm, glow, src) in seen if src == l]
        spectra(H, lsc.spectrum(source=l, kind="first"), want)
    s = lsc.summary()
    got = sum(len(lout[f]) for f in cells)
    esc = sum(len(lout[f]) for f in FACETS if f not in cells)
    inc = sum(len(sin[f]) for f in FACETS)
    H.check(s["Incident"] == inc, "the incident rays are those that meet the slab from outside")
    if inc:
        H.check_close(float(s["Optical Efficiency"]), got / inc, "efficiencies are the ratios of the counts")
        H.check_close(float(s["Non-radiative Loss (fraction):"]), len(lost) / inc, "efficiencies are the ratios of the counts")
    if got + esc:
        H.check_close(float(s["Waveguide Efficiency"]), got / (got + esc), "efficiencies are the ratios of the counts")
    area = (size[0] * size[1], 2 * size[2] * (size[0] + size[1]))
    H.check_close(s["Geometric Concentration"] * area[1], area[0], "the geometric gain is the ratio of top area to edge area")
    H.check_close(s["Waveguide Efficiency (Thermodynamic Prediction)"] * (s["Geometric Concentration"] + 2.25), 2.25, "the predicted efficiency follows its formula")
    H.check(set(s["Cell Surfaces"]) == set(cells), "the summary names the cells")


def spectra(H, got, want):
    got = list(got)
    H.check(len(got) == len(want), "spectra hold the rays of their filter")
    if len(got) == len(want):
        for x, y in zip(got, want):
            H.check_close(x, y, "spectra hold the wavelengths of their rays")


# ---- facets --------------------------------------------------------------------
SLANT = [(0.0, 0.0, 1.0), (0.6, 0.0, 0.8), (0.0, -0.96, 0.28), (0.48, 0.64, 0.6)]


INDICES = [(1.0, 1.5), (1.0, 2.25), (1.33, 1.6), (1.5, 1.0), (1.0, 1.0), (1.0, 1.7)]


def facet(H, label, out, n):
    """decisions on one facet, for any attachments"""
    from pvtrace.light.ray import Ray
    from pvtrace.material.surface import FresnelSurfaceDelegate
    size = [H.real("s" + c, 0.1, 100) for c in "xyz"]
    n0, n1 = n
    D = Device(H, size, n0=n0, n1=n1)
    cells = [c for c in CELLS if H.flag("cell " + c)]
    mirror = H.flag("mirror")
    if cells:
        # in one call or several
        D.lsc.add_solar_cell(tuple(cells[:1]))
        if cells[1:]:
            D.lsc.add_solar_cell(set(cells[1:]))
    if mirror:
        D.lsc.add_back_surface_mirror()
    D.lsc.add_absorber("none", 0.0)
    D.lsc.add_light("Lamp", (0.0, 0.0, 60.0))
    D.simulate(1)
    t = D.nodes()
    world, slab = t["World"], t["LSC"]
    g = slab.geometry
    pos = Rays(H, size).place(label)
    axis, sign = FACETS[label]
    s = H.pick("slant", SLANT)
    d = [0.0, 0.0, 0.0]
    d[axis], d[(axis + 1) % 3], d[(axis + 2) % 3] = (sign if out else -sign) * s[2], s[0], s[1]
    d = tuple(d)
    ray = Ray(position=pos, direction=d, wavelength=555.0)
    inner, outer = (slab, world) if out else (world, slab)
    surf = g.material.surface
    args = (ray, g, inner, outer)
    r = surf.delegate.reflectivity(surf, *args)
    plain = FresnelSurfaceDelegate()
    if mirror and label == "bottom":
        H.check_close(r, 1.0, "a mirror on the bottom reflects everything")
    elif label in cells:
        H.check_close(r, 0.0, "solar cells reflect nothing")
        H.check(tuple(surf.delegate.transmitted_direction(surf, *args)) == d, "rays enter solar cells undisturbed")
    else:
        H.check_close(r, plain.reflectivity(surf, *args), "other facets are plain interfaces")
        total = r == 1.0
        if not total:
            for x, y in zip(surf.delegate.transmitted_direction(surf, *args), plain.transmitted_direction(surf, *args)):
                H.check_close(x, y, "other facets are plain interfaces")
    if label not in cells:
        back = surf.delegate.reflected_direction(surf, *args)
        for j in range(3):
            H.check_close(back[j], -d[j] if j == axis else d[j], "reflection is the mirror image")


def gap(H, lamb):
    """the sheet below the slab"""
    from pvtrace.light.ray import Ray
    size = [H.real("s" + c, 0.1, 100) for c in "xyz"]
    D = Device(H, size)
    D.lsc.add_air_gap_mirror(lambertian=lamb)
    D.lsc.add_absorber("none", 0.0)
    D.lsc.add_light("Lamp", (0.0, 0.0, 60.0))
    D.simulate(1)
    t = D.nodes()
    world, sheet = t["World"], t["Air Gap Mirror"]
    H.check(sheet.parent is world, "the mirror is beside the slab")
    g = sheet.geometry
    top = sheet.point_to_node((0.0, 0.0, 0.0), world)
    sz = edges(g)
    H.check(top[2] + sz[2] / 2 < -size[2] / 2, "the mirror is below the slab, with a gap")
    H.check(H.And(sz[0] == size[0], sz[1] == size[1]), "the mirror covers the bottom of the slab")
    for j in (0, 1):
        H.check_close(top[j], 0.0, "the mirror covers the bottom of the slab")
    surf = g.material.surface
    s = H.pick("slant", SLANT)
    d = (s[0], s[1], -s[2])
    u, v = H.real("u", -50, 50), H.real("v", -50, 50)
    for x, l in ((u, size[0]), (v, size[1])):
        H.assume(x < l * 0.498)
        H.assume(x > -l * 0.498)
    ray = Ray(position=(u, v, sz[2] / 2), direction=d, wavelength=555.0)
    args = (ray, g, world, sheet)
    H.check_close(surf.delegate.reflectivity(surf, *args), 1.0, "the mirror reflects everything")
    back = surf.delegate.reflected_direction(surf, *args)
    if lamb:
        H.check_close(sum(x * x for x in back), 1, "rays leave a lambertian mirror in unit directions")
        H.check(back[2] >= 0, "rays leave a lambertian mirror upwards")
    else:
        for x, y in zip(back, (d[0], d[1], -d[2])):
            H.check_close(x, y, "reflection is the mirror image")


# ---- construction --------------------------------------------------------------
def build(H, own, given):
    from pvtrace.material.component import Absorber, Luminophore, Scatterer
    from pvtrace.geometry.box import Box
    size = [H.real("s" + c, 0.1, 100) for c in "xyz"]
    n0, n1 = H.real("n0", 1, 4), H.real("n1", 1, 4)
    x = np.arange(450.0, 700.0, 50.0)
    kw = {"wavelength_range": x} if given else {}
    D = Device(H, size, n0=n0, n1=n1, **kw)
    q, a, sc, c = H.real("q", 0, 1), H.real("a", 0, 100), H.real("sc", 0, 100), H.real("c", 0, 10)
    loc = tuple(H.real("l" + k, -100, 100) for k in "xyz")
    marks = [lambda: (0.0, 0.6, 0.8), lambda: 432.0, lambda: (0.1, 0.2, 0.0), lambda: (0.0, 0.0, 1.0)]
    if own:
        D.lsc.add_luminophore("Dye", np.column_stack((x, x * 0 + c)) if H.mode == "sym" else np.column_stack((x, x * 0 + float(c))),
                              np.column_stack((x, x - 400.0)), q, phase_function=marks[3])
        D.lsc.add_absorber("Background", a)
        D.lsc.add_scatterer("Haze", sc)
        D.lsc.add_light("Lamp", loc, rotation=(np.pi / 2, (1, 0, 0)), direction=marks[0], wavelength=marks[1], position=marks[2])
        D.lsc.add_light("Sun", loc)
    D.simulate(2)
    t = D.nodes()
    H.check(D.lsc.spectrum(kind="last").shape[0] == 2, "every ray has exactly one fate")
    lights = {"Lamp", "Sun"} if own else {"Light"}
    H.check(set(t) == {"World", "LSC"} | lights, "the scene holds the world, the slab and the lights")
    for name in ("World", "LSC"):
        g = t[name].geometry
        H.check(isinstance(g, Box), "the slab is a box")
        for k in range(3):
            H.check_close(edges(g)[k], size[k] * (100 if name == "World" else 1), "the slab has the given size")
        H.check_close(g.material.refractive_index, n0 if name == "World" else n1, "the slab and its surroundings have the given indices")
    H.check(t["LSC"].parent is t["World"] and not list(t["World"].geometry.material.components), "only the slab has components")
    p = t["LSC"].point_to_node((0.0, 0.0, 0.0), t["World"])
    H.check(H.And(*[v == 0 for v in p]), "the slab is in the middle")
    comps = {k.name: k for k in t["LSC"].geometry.material.components}
    if not own:
        H.check(set(comps) == {"Lumogen F Red 305", "Background"}, "default components")
        H.check_close(comps["Background"].coefficient(500.0), 0.1, "default components")
        dye = comps["Lumogen F Red 305"]
        from pvtrace.data import lumogen_f_red_305
        r = x if given else np.arange(400, 800)
        want = np.asarray(lumogen_f_red_305.absorption(np.asarray(r, dtype=float))) * 10.0
        for k in (0, 1, -1):
            H.check_close(float(dye.coefficient(float(r[k]))), float(want[k]), "default components")
        H.check(D.lsc.component_names() == {"Lumogen F Red 305", "Background"} and D.lsc.light_names() == {"Light"}, "names are those of the device")
        p = t["Light"].point_to_node((0.0, 0.0, 0.0), t["World"])
        H.check_close3(p, (0.0, 0.0, size[2] * 5), "the default light is above the slab")
        v = t["Light"].vector_to_node((0.0, 0.0, 1.0), t["World"])
        H.check_close3(v, (0.0, 0.0, -1.0), "the default light shines down")
        return
    H.check(D.lsc.component_names() == {"Dye", "Background", "Haze"} and D.lsc.light_names() == lights, "names are those of the device")
    H.check([k.name for k in t["LSC"].geometry.material.components] == ["Dye", "Background", "Haze"], "the slab has the given components, in order")
    d, b, h = comps["Dye"], comps["Background"], comps["Haze"]
    H.check(type(d) is Luminophore and type(b) is Absorber and type(h) is Scatterer, "components are of their kind")
    for k, v in ((d, c), (b, a), (h, sc)):
        H.check_close(k.coefficient(525.0), v, "components have their coefficients")
    H.check_close(d.quantum_yield, q, "components have their quantum yields")
    H.check(tuple(d.phase_function()) == (0.0, 0.0, 1.0), "components have their phase functions")
    for name in lights:
        p = t[name].point_to_node((0.0, 0.0, 0.0), t["World"])
        H.check_close3(p, loc, "lights are where they were put")
        ray = next(iter(t[name].light.emit(1)))
        if name == "Lamp":
            H.check(tuple(ray.direction) == (0.0, 0.6, 0.8) and ray.wavelength == 432.0 and tuple(ray.position) == (0.1, 0.2, 0.0), "lights have their rules")
            v = t[name].vector_to_node((0.0, 0.0, 1.0), t["World"])
            H.check_close3(v, (0.0, -1.0, 0.0), "lights are turned as asked")
        H.check(ray.source == name, "rays carry their light's name")


def refused(H):
    from pvtrace.device.lsc import LSC
    kern.fake_trimesh(H)
    lsc = LSC((H.real("s", 0.1, 10), 1.0, 1.0))
    for bad in ({"top"}, ["left", "back"], "left", {"bottom"}):
        try:
            lsc.add_solar_cell(bad)
            ok = False
        except ValueError:
            ok = True
        H.check(ok, "cells on facets which cannot have one are refused")
    for call in (lsc.component_names, lsc.light_names, lsc.spectrum):
        try:
            call()
            ok = False
        except ValueError:
            ok = True
        H.check(ok, "results before a simulation are refused")


JOBS = [Job("refused", refused)] + [Job("build/%s/%s" % (("default", "own")[o], ("plain", "range")[g]), build, own=o, given=g) for o in (0, 1) for g in (0, 1)]
JOBS += [Job("gap/%s" % ("lambertian" if l else "specular"), gap, lamb=bool(l)) for l in (0, 1)]
for f in FACETS:
    for o in (0, 1):
        JOBS.append(Job("facet/%s/%s" % (f, ("inwards", "outwards")[o]), facet, label=f, out=bool(o), n=INDICES[(list(FACETS).index(f) + 3 * o) % 6]))
names = list(FATES)
for i, f in enumerate(names):
    JOBS.append(Job("counting/one/%s" % f, counting, fates=[f], facets=list(FACETS), parts=[1], cells=(("left",), ("near", "far"), ("right", "near"), ())[i % 4]))
for i, f in enumerate(names):
    for j, g in enumerate(names):
        quick = (i * 3 + j) % 5 == 0
        JOBS.append(Job("counting/two/%s/%s" % (f, g), counting, fates=[f, g], facets=[list(FACETS)[(i + j) % 6], list(FACETS)[(i + j + 3) % 6]], parts=[1, 1] if (i + j) % 2 else [2],
                        cells=(("left", "right"), ("near",), ("far",), ("left", "right", "near", "far"))[(i + 2 * j) % 4], tiers=("quick", "thorough") if quick else ("thorough",)))
