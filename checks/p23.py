"""Scene files: every number in the file is an arbitrary value, the parsed scene is compared with what the file says."""
from vlib.harness import Job
from vlib import kern
from vlib.frames import FRAMES, conv
from vlib.docs import Doc, Draws, tree
import os

PROPERTY = "P23"
PRELOAD = kern.PRELOAD + ("jsonschema", "yaml", "pvtrace.light.light", "pvtrace.cli.parse")
BOUNDS = {"numbers": "every number of a document is an arbitrary value of its range (sizes, refractive indices, coefficients, spectra, quantum yields, mask "
                     "parameters, wavelengths, places, lengths of directions, facets, tolerances, histogram ranges), decided for all of them",
          "shape of documents": "all combinations of optional fields listed per job; up to 5 nodes, 3 components, 3 recorders, 4 point spectra; directions from a "
                                "list of 9 with any length; random draws of light and scattering rules arbitrary (Henyey-Greenstein: listed draws and asymmetries)",
          "outside": "the YAML reader, pandas' CSV reader and jsonschema are the installed libraries, run as they are (numbers are put in behind the "
                     "readers); YAML tags and repeated keys; files named by absolute path; the triangles of meshes"}
ASSUMPTIONS = ["a number written in a file is read back as that number (the job's files hold place holders which are replaced after reading)"]


WORLD = {"sphere": {"radius": 1000.0, "material": {"refractive-index": 1.0}}}


def same_names(H, scene, names):
    from anytree import PreOrderIter
    got = [n.name for n in PreOrderIter(scene.root)]
    H.check(sorted(got) == sorted(names), "the scene has one node per entry")
    return sorted(got) == sorted(names)


def shapes(H, kind, order):
    from pvtrace import Sphere, Box, Cylinder, Material
    with Doc(H) as D:
        kern.fake_trimesh(H)
        n = H.real("n", 1, 5)
        nw = H.real("nw", 1, 5)
        keep = H.pick("components", [None, [], ["b"], ["c", "a"], ["a", "a", "b"]])
        mat = {"refractive-index": n}
        if keep is not None:
            mat["components"] = keep
        R = H.real("R", 0, 1e6)
        name = H.pick("name", ["thing", "a.b-c_1"])
        if kind == "box":
            dims = [H.real("s" + c, 1e-3, 1e3) for c in "xyz"]
            spec = {"box": {"size": dims, "material": mat}}
        elif kind == "cylinder":
            dims = [H.real("L", 0, 1e3), H.real("r", 0, 1e3)]
            spec = {"cylinder": {"length": dims[0], "radius": dims[1], "material": mat}}
        else:
            dims = [H.real("r", 0, 1e3)]
            spec = {"sphere": {"radius": dims[0], "material": mat}}
        world = {"sphere": {"radius": R, "material": {"refractive-index": nw}}}
        nodes = {"world": world, name: spec} if order == "first" else {name: spec, "world": world}
        cs = {k: {"absorber": {"coefficient": H.real("c" + k, 0, 100)}} for k in "abc"}
        scene = D.parse({"version": "1.0", "nodes": nodes, "components": cs})
        if not same_names(H, scene, ["world", name]):
            return
        t = tree(scene)
        w, node = t["world"], t[name]
        H.check(node.parent is w and w.parent is None and scene.root is w, "nodes without a parent are the world's children")
        H.check(type(w.geometry) is Sphere and type(node.geometry) is {"box": Box, "cylinder": Cylinder, "sphere": Sphere}[kind], "nodes have the shape the file says")
        H.check_close(w.geometry.radius, R, "sizes are those in the file")
        H.check_close(w.geometry.material.refractive_index, nw, "refractive indices are those in the file")
        H.check(len(w.geometry.material.components) == 0, "materials have the components they name")
        g = node.geometry
        if kind == "box":
            for v, s in zip(g._size, dims):
                H.check_close(v, s, "sizes are those in the file")
        elif kind == "cylinder":
            H.check_close(g.length, dims[0], "sizes are those in the file")
            H.check_close(g.radius, dims[1], "sizes are those in the file")
        else:
            H.check_close(g.radius, dims[0], "sizes are those in the file")
        H.check_close(g.material.refractive_index, n, "refractive indices are those in the file")
        H.check([c.name for c in g.material.components] == (keep or []), "materials have the components they name, in that order")
        for c in g.material.components:
            H.check_close(c.coefficient(500.0), cs[c.name]["absorber"]["coefficient"], "components have the coefficient in the file")
        ref = Material(1.0)
        H.check(type(g.material.surface) is type(ref.surface) and type(g.material.surface.delegate) is type(ref.surface.delegate), "surfaces are the default ones")
        H.check(node.light is None and w.light is None, "only lights are lights")
        H.check(not node.recorders and not w.recorders, "only recorders in the file are there")


def mesh(H):
    from pvtrace import Mesh
    import trimesh
    with Doc(H) as D:
        n = H.real("n", 1, 5)
        seen = []
        real = trimesh.creation.icosphere(subdivisions=0)
        saved = {"load": trimesh.load, "load_mesh": trimesh.load_mesh}
        inner = {k: getattr(trimesh.exchange.load, k) for k in ("load", "load_mesh")}

        def load(where, *a, **k):
            seen.append(os.path.realpath(str(where)))
            return real.copy()
        where = H.pick("folder", ["part.stl", "sub/part.stl"])
        os.makedirs(os.path.join(D.folder, "sub"))
        real.export(os.path.join(D.folder, where))
        for k in saved:
            setattr(trimesh, k, load)
            setattr(trimesh.exchange.load, k, load)
        try:
            scene = D.parse({"version": "1.0", "nodes": {"world": WORLD, "part": {"mesh": {"file": where, "material": {"refractive-index": n}}}}})
        finally:
            for k in saved:
                setattr(trimesh, k, saved[k])
                setattr(trimesh.exchange.load, k, inner[k])
        g = tree(scene)["part"].geometry
        H.check(type(g) is Mesh, "nodes have the shape the file says")
        H.check(seen == [os.path.realpath(os.path.join(D.folder, where))], "meshes are read from the file's own folder")
        H.check_close(g.material.refractive_index, n, "refractive indices are those in the file")


WAYS = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 2, 2), (-2, 1, -2), (2, 3, -6), (0, 3, 4), (-1, 0, 0)]


def placement(H, parent):
    """places are relative to the parent, directions turn the node's face"""
    with Doc(H) as D:
        specs, says = {}, {}
        names = ["mid", "leaf", "far"]
        way = H.pick("way", WAYS)
        given = H.pick("given", ["both", "place", "way", "none"])
        for k, name in enumerate(names):
            s = {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5}}} if k != 1 else {"light": {}}
            loc = [H.real("l%d%s" % (k, c), -1e3, 1e3) for c in "xyz"]
            m = H.real("m%d" % k, 1e-2, 1e2)
            d = [m * x for x in (way if k == 1 else WAYS[(3 * k + WAYS.index(way)) % 9])]
            if k == 1 and given in ("both", "place") or k != 1:
                s["location"] = loc
            else:
                loc = [0.0, 0.0, 0.0]
            if k == 1 and given in ("both", "way") or k != 1:
                s["direction"] = d
            else:
                d = [0.0, 0.0, 1.0]
            specs[name], says[name] = s, (loc, d)
        up = {"mid": "world", "leaf": "world", "far": "world"}
        if parent == "named world":
            specs["leaf"]["parent"] = "world"
        elif parent == "null":
            specs["leaf"]["parent"] = None
        elif parent == "later":
            specs["leaf"]["parent"] = up["leaf"] = "far"
        elif parent == "earlier":
            specs["leaf"]["parent"] = up["leaf"] = "mid"
        elif parent == "chain":
            specs["mid"]["parent"] = up["mid"] = "far"
            specs["leaf"]["parent"] = up["leaf"] = "mid"
        order = H.pick("order", ["world first", "world last"])
        nodes = dict(specs)
        nodes = {"world": WORLD, **nodes} if order == "world first" else {**nodes, "world": WORLD}
        scene = D.parse({"version": "1.0", "nodes": nodes})
        if not same_names(H, scene, ["world"] + names):
            return
        t = tree(scene)
        for name in names:
            node = t[name]
            H.check(node.parent is t[up[name]], "nodes have the parent the file names")
            if node.parent is not t[up[name]]:
                return
            loc, d = says[name]
            H.check_close3(tuple(node.point_to_node((0.0, 0.0, 0.0), node.parent)), loc, "nodes are placed where the file says, in their parent's frame", tol=1e-6)
            size = sum(float(x) ** 2 for x in (0.0, 0.0, 1.0))
            f = tuple(node.vector_to_node((0.0, 0.0, 1.0), node.parent))
            k = WAYS[(3 * names.index(name) + WAYS.index(way)) % 9] if name != "leaf" else way
            if name == "leaf" and given in ("place", "none"):
                k = (0, 0, 1)
            L = sum(x * x for x in k) ** 0.5
            H.check_close3(f, tuple(x / L for x in k), "nodes face where the file says", tol=1e-6)


def spectrum(H, D, kind, key):
    """(part of the document, x, y) for a spectrum in a file or by name"""
    import numpy as np
    if kind == "none":
        return None, None, None
    if kind == "named":
        from pvtrace.data import lumogen_f_red_305, fluro_red
        name, mod = H.pick("name" + key, [("lumogen-f-red-305", lumogen_f_red_305), ("fluro-red", fluro_red)])
        lo, hi, sp = 400.0, 700.0, 100.0
        x = np.arange(lo, hi + sp, sp)
        return {"name": name, "range": {"min": lo, "max": hi, "spacing": sp}}, list(x), list((mod.emission if key == "ems" else mod.absorption)(x))
    if kind == "fixed":
        xs, ys = [400.0, 500.0, 600.0], [0.5, 2.0, 1.0]
        return {"file": D.csv(key + ".csv", xs, ys)}, xs, ys
    if kind == "whole":
        xs = [400, 500, 700]
        ys = [H.int("y%s%d" % (key, k), 1, 50) for k in range(3)]
    else:
        xs = [400.5, 500.25, 700.0]
        ys = [H.real("y%s%d" % (key, k), 1e-3, 50) for k in range(3)]
    return {"file": D.csv(H.pick("where" + key, [key + ".csv", "data/" + key + ".csv"]), xs, ys, kind == "whole")}, xs, ys


def largest(H, ys):
    m = ys[0]
    for y in ys[1:]:
        m = H.If(y > m, y, m)
    return m


RULES = ["absent", "isotropic", "lambertian", "cone", "henyey-greenstein"]


def rule(H, kind, key=""):
    """(part of the document, reference) for a rule of directions"""
    from pvtrace.material import utils
    if kind == "absent":
        return None, utils.isotropic
    if kind in ("isotropic", "lambertian"):
        return {kind: None}, getattr(utils, kind)
    if kind == "cone":
        import numpy as np
        a = H.real("angle", 1, 89) if H.flag("number") else "35.5"
        return {"cone": {"half-angle": a}}, utils.Cone(np.radians(float(a) if isinstance(a, str) else a))
    g = H.pick("g" + key, [-0.9, -0.5, 0.0, 0.25, 0.95])
    return {"henyey-greenstein": {"g": g}}, utils.HenyeyGreenstein(g)


def same_rule(H, draws, got, ref, label):
    if hasattr(ref, "g"):
        # arc cosines of quotients of the draws: listed draws
        draws = Draws(H)
        draws.us = [H.pick("listed", [0.15, 0.5, 0.85]), 0.3, 0.7, 0.6]
    a, b = draws.run(got), draws.run(ref)
    H.check_close3(tuple(a), tuple(b), label, tol=1e-6)


def component(H, kind, source, phase):
    """one component of every kind, with every combination of its optional fields"""
    import numpy as np
    from pvtrace import Absorber, Scatterer, Luminophore
    with Doc(H) as D:
        spec = {}
        part, xs, ys = spectrum(H, D, source, "abs")
        both = source != "none" and H.flag("scaled")
        coef = H.real("coef", 0, 100) if both or source == "none" else None
        hist = H.flag("hist") if source in ("file", "named") or kind == "luminophore" and phase == "absent" else False
        if hist:
            spec["hist"] = True
        if part is not None:
            spec["spectrum"] = part
        if coef is not None:
            spec["coefficient"] = coef
        qy = 0.0 if kind == "absorber" else 1.0
        if kind != "absorber" and H.flag("yield"):
            qy = H.real("qy", 0, 1)
        doc = dict(spec)
        fn = None
        if kind == "scatterer":
            if phase != "absent":
                doc["phase-function"], fn = rule(H, phase)
            else:
                fn = rule(H, phase)[1]
            if not (isinstance(qy, float) and qy == 1.0):
                doc["quantum-yield"] = qy
        ems = None
        if kind == "luminophore":
            doc = {"absorption": {k: v for k, v in spec.items() if k != "hist"}}
            if hist:
                doc["hist"] = True
            e, ex, ey = spectrum(H, D, "file" if source == "none" and phase == "absent" else ("named" if source == "named" else "fixed"), "ems")
            doc["emission"] = {"spectrum": e}
            ems = np.array([[float(x), y] for x, y in zip(ex, ey)])
            if phase != "absent":
                doc["emission"]["phase-function"], fn = rule(H, phase)
            else:
                fn = rule(H, phase)[1]
            if not (isinstance(qy, float) and qy == 1.0):
                doc["emission"]["quantum-yield"] = qy
        box = {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5, "components": ["dye", "other"]}}}
        other = H.real("other", 0, 10)
        scene = D.parse({"version": "1.0", "nodes": {"world": WORLD, "ball": box},
                         "components": {"other": {"absorber": {"coefficient": other}}, "dye": {kind: doc}}})
        got = tree(scene)["ball"].geometry.material.components
        H.check(len(got) == 2, "materials have the components they name")
        c, o = got
        H.check(type(c) is {"absorber": Absorber, "scatterer": Scatterer, "luminophore": Luminophore}[kind], "components are of the kind the file says")
        H.check(c.name == "dye" and o.name == "other", "components have the name in the file")
        H.check_close(o.coefficient(555.0), other, "components have the coefficient in the file")
        if source == "none":
            for nm in (300.0, 555.0):
                H.check_close(c.coefficient(nm), coef, "components have the coefficient in the file")
        else:
            top = largest(H, ys) if both else None
            want = [y * coef / top if both else y for y in ys]
            ref = Absorber(np.array([[float(x), y] for x, y in zip(xs, want)]), hist=hist)
            for nm in xs[:-1] + [0.5 * (xs[0] + xs[1]), 0.25 * xs[1] + 0.75 * xs[2]]:
                H.check_close(c.coefficient(float(nm)), ref.coefficient(float(nm)), "components have the spectrum in the file, scaled to the coefficient at its peak", tol=1e-6)
        H.check_close(c.quantum_yield, qy, "components have the quantum yield in the file")
        if kind == "absorber":
            return
        draws = Draws(H)
        same_rule(H, draws, c.phase_function, fn, "components send light where the file says")
        if kind == "luminophore":
            from pvtrace.light.ray import Ray
            ref = Luminophore(1.0, emission=ems, hist=hist)
            ray = Ray(position=(0.0, 0.0, 0.0), direction=(0.0, 0.0, 1.0), wavelength=500.0)
            ref.phase_function = c.phase_function = lambda: (0.0, 0.0, 1.0)
            a = draws.run(lambda: c.emit(ray, method="full"))
            b = draws.run(lambda: ref.emit(ray, method="full"))
            H.check_close(a.wavelength, b.wavelength, "luminophores emit the spectrum in the file", tol=1e-5)


def light(H, what):
    from pvtrace.light import light as ml
    import numpy as np
    with Doc(H) as D:
        spec, mask = {}, {}
        nm = 555.0
        if H.flag("plain"):
            spec["wavelength"] = nm = H.real("nm", 0, 5000)
        wl = (lambda v: (lambda: v))(nm)
        position = ml.default_position
        direction = ml.default_direction
        if what.startswith("wavelength"):
            k = what.split()[1]
            if k == "number":
                v = H.real("mnm", 1, 5000)
                mask["wavelength"] = v
                wl = lambda: v
            elif k == "nanometers":
                v = H.real("mnm", 0, 5000)
                mask["wavelength"] = {"nanometers": v}
                wl = lambda: v
            else:
                from pvtrace.material.distribution import Distribution
                part, xs, ys = spectrum(H, D, k, "abs")
                mask["wavelength"] = {"spectrum": part}
                d = Distribution(np.array([float(x) for x in xs]), np.array(ys))
                wl = lambda: d.sample(np.random.uniform(0, 1))
        elif what.startswith("position"):
            k = what.split()[1]
            v = [H.real("p" + c, 0, 100) for c in "xyz"]
            if k == "point":
                mask["position"] = v
                position = lambda: tuple(v)
            elif k == "rect":
                mask["position"] = {"rect": v[:2]}
                position = ml.RectangularMask(*v[:2])
            elif k == "cube":
                mask["position"] = {"cube": v}
                position = ml.CubeMask(*v)
            else:
                mask["position"] = {"circle": v[0]}
                position = ml.CircularMask(v[0])
        elif what.startswith("direction"):
            k = what.split()[1]
            if k == "vector":
                w = H.pick("way", WAYS)
                m = H.real("m", 1e-2, 1e2)
                mask["direction"] = [m * x for x in w]
                size = sum(x * x for x in w) ** 0.5
                direction = lambda: tuple(x / size for x in w)
            else:
                mask["direction"], direction = rule(H, k)
        elif what == "all":
            a, b, c = (H.real("p" + x, 0, 100) for x in "abc")
            mask = {"position": {"rect": [a, b]}, "wavelength": {"nanometers": c}}
            position = ml.RectangularMask(a, b)
            wl = lambda: c
            mask["direction"], direction = rule(H, "cone")
        if mask or H.flag("empty mask"):
            spec["mask"] = mask
        scene = D.parse({"version": "1.0", "nodes": {"world": WORLD, "lamp": {"light": spec}}})
        if not same_names(H, scene, ["world", "lamp"]):
            return
        node = tree(scene)["lamp"]
        H.check(node.geometry is None and node.light is not None, "lights are lights")
        L = node.light
        H.check(L.name == "lamp", "lights have the name in the file")
        draws = Draws(H)
        ray = draws.run(lambda: next(iter(L.emit(1))))
        for part, ref, got in (("wavelength", wl, L.wavelength), ("position", position, L.position), ("direction", direction, L.direction)):
            a, b = draws.run(got), draws.run(ref)
            if part == "wavelength":
                H.check_close(a, b, "lights have the wavelength in the file", tol=1e-5)
                if not what.startswith("wavelength"):
                    H.check_close(ray.wavelength, b, "lights emit the wavelength in the file", tol=1e-5)
            else:
                same_rule(H, draws, got, ref, "lights have the %s rule in the file" % part)
        H.check(list(ray.source if isinstance(ray.source, list) else [ray.source]) == ["lamp"], "rays carry the light's name")


def recorders(H, event):
    from pvtrace.engine.recorder import Histogram, Heatmap
    with Doc(H) as D:
        spec = {"node": "ball", "event": event}
        facet = None
        if H.flag("facet"):
            facet = spec["facet"] = [H.real("f" + c, -1, 1) for c in "xyz"]
        atol = 1e-6
        if H.flag("atol"):
            atol = spec["atol"] = H.real("atol", 0, 1)
        a = H.real("start", -100, 100)
        b = a + H.real("span", 1e-3, 100)
        c = H.real("start2", -100, 100)
        d = c + H.real("span2", 1e-3, 100)
        hs = {"wavelength": [a, b, 7], "position": ["y", "x", [a, b, 3], [c, d, 4]], "angle": [c, d, 5]}
        keep = H.pick("histograms", [None, [], ["wavelength"], ["position", "angle"], ["angle", "wavelength", "position"]])
        if keep is not None:
            spec["histograms"] = {k: hs[k] for k in keep}
        names = ["first", "second", "on world"]
        recs = {"first": {"node": "ball", "event": "lost"}, "second": spec, "on world": {"node": "world", "event": "exit"}}
        recs = {k.replace(" ", "-"): v for k, v in recs.items()}
        ball = {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5}}}
        scene = D.parse({"version": "1.0", "recorders": recs, "nodes": {"world": WORLD, "ball": ball}})
        t = tree(scene)
        H.check([r.name for r in t["ball"].recorders] == ["first", "second"] and [r.name for r in t["world"].recorders] == ["on-world"], "recorders are on the node they name")
        r = t["ball"].recorders[1]
        H.check(r.event == event, "recorders count the event in the file")
        H.check((r.facet is None) == (facet is None), "recorders have the facet in the file")
        if facet is not None and r.facet is not None:
            H.check_close3(tuple(r.facet), tuple(facet), "recorders have the facet in the file")
        H.check_close(r.atol, atol, "recorders have the tolerance in the file", tol=1e-12)
        H.check(len(r.histograms) == len(keep or []), "recorders have the histograms in the file")
        for h, k in zip(r.histograms, keep or []):
            if k == "position":
                H.check(type(h) is Heatmap and (h.a.prop, h.b.prop) == ("y", "x") and (h.a.bins, h.b.bins) == (3, 4), "heatmaps are those in the file")
                ends = ((h.a, a, b), (h.b, c, d))
            else:
                H.check(type(h) is Histogram and h.prop == k and h.bins == hs[k][2], "histograms are those in the file")
                ends = ((h, hs[k][0], hs[k][1]),)
            for x, lo, hi in ends:
                H.check_close(x.start, lo, "histograms have the range in the file")
                H.check_close(x.stop, hi, "histograms have the range in the file")


def full(H):
    """a document with one valid instance of everything"""
    r = H.real
    return {
        "version": "1.0",
        "nodes": {
            "world": {"sphere": {"radius": r("R", 0, 1e3), "material": {"refractive-index": r("n0", 1, 5)}}},
            "rod": {"parent": "ball", "location": [r("x", -9, 9), r("y", -9, 9), r("z", -9, 9)], "direction": [0.0, r("d", 0.1, 9), 0.0],
                    "cylinder": {"length": r("L", 0, 9), "radius": r("r", 0, 9), "material": {"refractive-index": r("n1", 1, 5), "components": ["a", "s"]}}},
            "ball": {"sphere": {"radius": r("rb", 0, 9), "material": {"refractive-index": r("n2", 1, 5), "components": ["l"]}}},
            "lamp": {"light": {"wavelength": r("nm", 0, 999), "mask": {"position": {"rect": [r("a", 0, 9), r("b", 0, 9)]},
                                                                      "direction": {"henyey-greenstein": {"g": r("g", -1, 1)}},
                                                                      "wavelength": {"nanometers": r("nm2", 0, 999)}}}}},
        "components": {
            "a": {"absorber": {"coefficient": r("ca", 0, 9)}},
            "s": {"scatterer": {"coefficient": r("cs", 0, 9), "quantum-yield": r("qs", 0, 1), "phase-function": {"isotropic": None}}},
            "l": {"luminophore": {"absorption": {"coefficient": r("cl", 0, 9), "spectrum": {"file": "abs.csv"}},
                                  "emission": {"quantum-yield": r("ql", 0, 1), "spectrum": {"file": "ems.csv"}}}}},
        "recorders": {"rec": {"node": "rod", "event": "escaping", "facet": [r("fx", -1, 1), 0.0, 1.0], "atol": r("t", 0, 1),
                              "histograms": {"wavelength": [r("h0", 0, 10), r("h1", 11, 20), 5],
                                             "position": ["x", "y", [-1.0, r("h2", 0, 9), 4], [r("h3", -9, 0), 1.0, 4]]}}}}


def put(spec, path, value):
    for k in path[:-1]:
        spec = spec[k]
    if value is DEL:
        del spec[path[-1]]
    else:
        spec[path[-1]] = value


DEL = object()
ROD = ("nodes", "rod")
RANGES = [(("nodes", "world", "sphere", "radius"), 0, None), (("nodes", "world", "sphere", "material", "refractive-index"), 1, None),
          (ROD + ("cylinder", "length"), 0, None), (ROD + ("cylinder", "radius"), 0, None), (ROD + ("cylinder", "material", "refractive-index"), 1, None),
          (("nodes", "lamp", "light", "mask", "direction", "henyey-greenstein", "g"), -1, 1),
          (("components", "a", "absorber", "coefficient"), 0, None), (("components", "s", "scatterer", "coefficient"), 0, None),
          (("components", "s", "scatterer", "quantum-yield"), 0, 1), (("components", "l", "luminophore", "absorption", "coefficient"), 0, None),
          (("components", "l", "luminophore", "emission", "quantum-yield"), 0, 1),
          (("recorders", "rec", "histograms", "wavelength", 1), None, None)]
NUMBERS = [p for p, lo, hi in RANGES] + [ROD + ("location", 1), ROD + ("direction", 1), ("nodes", "lamp", "light", "wavelength"),
                                         ("nodes", "lamp", "light", "mask", "position", "rect", 0), ("nodes", "lamp", "light", "mask", "wavelength", "nanometers"),
                                         ("recorders", "rec", "facet", 0), ("recorders", "rec", "atol"), ("recorders", "rec", "histograms", "wavelength", 0),
                                         ("recorders", "rec", "histograms", "position", 2, 1)]
WRONG = [(("version",), DEL), (("version",), "2.0"), (("version",), "1"), (("version",), 1.0), (("nodes",), DEL), (("nodes", "world"), DEL),
         (ROD + ("cylinder",), DEL), (ROD + ("sphere",), {"radius": 1.0, "material": {"refractive-index": 1.0}}), (ROD + ("light",), {}), (ROD + ("size",), 1.0),
         (ROD + ("cylinder", "length"), DEL), (ROD + ("cylinder", "radius"), DEL), (ROD + ("cylinder", "material"), DEL), (ROD + ("cylinder", "length"), "long"),
         (ROD + ("cylinder", "length"), None), (ROD + ("cylinder", "radius"), [1.0]), (ROD + ("cylinder", "material", "refractive-index"), DEL),
         (ROD + ("cylinder", "material", "components"), "a"), (ROD + ("cylinder", "material", "components", 1), "b"), (ROD + ("cylinder", "material", "components", 0), "rod"),
         (ROD + ("parent",), "cube"), (ROD + ("parent",), "rod"), (ROD + ("parent",), 3), (ROD + ("location",), [1.0, 2.0]), (ROD + ("location",), [1.0, 2.0, 3.0, 4.0]),
         (ROD + ("location", 2), "up"), (ROD + ("direction",), [1.0, 2.0]), (ROD + ("direction",), [0.0, 0.0, 0.0]), (ROD + ("direction",), "up"),
         (("nodes", "ball", "parent"), "rod"), (("nodes", "two words"), {"light": {}}),
         (("nodes", "ball", "sphere", "radius"), DEL), (("nodes", "ball", "sphere", "material"), DEL), (("nodes", "ball", "box"), {"size": [1.0, 1.0, 1.0], "material": {"refractive-index": 1.0}}),
         (("nodes", "lamp", "light", "wavelength"), "red"), (("nodes", "lamp", "light", "mask", "position", "rect"), [1.0]), (("nodes", "lamp", "light", "mask", "position", "rect"), [1.0, 2.0, 3.0]),
         (("nodes", "lamp", "light", "mask", "position", "circle"), 1.0), (("nodes", "lamp", "light", "mask", "position"), {}), (("nodes", "lamp", "light", "mask", "position"), [1.0, 2.0]),
         (("nodes", "lamp", "light", "mask", "direction"), {"gaussian": None}), (("nodes", "lamp", "light", "mask", "direction", "cone"), {"half-angle": 3.0}),
         (("nodes", "lamp", "light", "mask", "direction"), {"cone": {}}), (("nodes", "lamp", "light", "mask", "direction"), {"cone": {"half-angle": "wide"}}),
         (("nodes", "lamp", "light", "mask", "direction"), [0.0, 0.0, 0.0]), (("nodes", "lamp", "light", "mask", "wavelength"), {"name": "lumogen-f-red-305"}),
         (("nodes", "lamp", "light", "mask", "wavelength"), {"spectrum": {"name": "sunlight", "range": {"min": 300.0, "max": 500.0, "spacing": 1.0}}}),
         (("nodes", "lamp", "light", "mask", "wavelength"), {"spectrum": {"name": "lumogen-f-red-305"}}), (("nodes", "lamp", "light", "mask", "wavelength"), {"spectrum": {"file": "none.csv"}}),
         (("components", "a", "absorber"), {}), (("components", "a"), {}), (("components", "a"), {"paint": {}}), (("components", "a", "scatterer"), {"coefficient": 1.0}),
         (("components", "a", "absorber", "quantum-yield"), 0.5), (("components", "a", "absorber", "coefficient"), "much"), (("components", "a", "absorber", "hist"), 3),
         (("components", "s", "scatterer"), {}), (("components", "s", "scatterer", "phase-function"), {"cone": {}}), (("components", "s", "scatterer", "phase-function"), {}),
         (("components", "l", "luminophore", "absorption"), DEL), (("components", "l", "luminophore", "absorption"), {}), (("components", "l", "luminophore", "emission"), DEL),
         (("components", "l", "luminophore", "emission", "spectrum"), DEL), (("components", "l", "luminophore", "emission", "spectrum"), {"file": "none.csv"}),
         (("components", "l", "luminophore", "absorption", "spectrum"), {"file": "abs.csv", "name": "fluro-red", "range": {"min": 400.0, "max": 500.0, "spacing": 10.0}}), (("components", "l"), DEL), (("components",), DEL),
         (("recorders", "rec", "node"), DEL), (("recorders", "rec", "node"), "cube"), (("recorders", "rec", "node"), "a"), (("recorders", "rec", "event"), DEL), (("recorders", "rec", "event"), "escape"),
         (("recorders", "rec", "facet"), [1.0, 0.0]), (("recorders", "rec", "facet"), 1.0), (("recorders", "rec", "colour"), "red"),
         (("recorders", "rec", "histograms", "wavelength"), [1.0, 2.0]), (("recorders", "rec", "histograms", "wavelength"), [1.0, 2.0, 0]), (("recorders", "rec", "histograms", "wavelength"), [2.0, 1.0, 3]),
         (("recorders", "rec", "histograms", "size"), [1.0, 2.0, 3]), (("recorders", "rec", "histograms", "position", 0), "w"), (("recorders", "rec", "histograms", "position"), [1.0, 2.0, 3])]


def attempt(H, D, spec):
    D.csv("abs.csv", [400.5, 500.0, 600.0], [H.real("a%d" % k, 0.1, 9) for k in range(3)])
    D.csv("ems.csv", [400.5, 500.0, 600.0], [H.real("e%d" % k, 0.1, 9) for k in range(3)])
    try:
        D.parse(spec)
    except Exception:
        return False
    return True


def valid(H):
    with Doc(H) as D:
        H.check(attempt(H, D, full(H)), "valid descriptions are accepted")


def ranges(H, k):
    """numbers outside their range are rejected, whatever the others are"""
    path, lo, hi = RANGES[k]
    with Doc(H) as D:
        spec = full(H)
        if lo is None:
            v = H.real("bad", -100, 100)
            H.assume(v <= spec["recorders"]["rec"]["histograms"]["wavelength"][0])
        elif hi is not None and H.flag("above"):
            v = hi + H.real("bad", 0, 1e6, lo_open=True)
        else:
            v = lo - H.real("bad", 0, 1e6, lo_open=True)
        put(spec, path, v)
        H.check(not attempt(H, D, spec), "numbers outside their range are rejected")


def infinite(H):
    path = H.pick("which", NUMBERS)
    v = H.pick("value", [float("nan"), float("inf"), float("-inf")])
    with Doc(H) as D:
        spec = full(H)
        put(spec, path, v)
        H.check(not attempt(H, D, spec), "numbers which are not finite are rejected")


def wrong(H, part):
    n = 8
    path, v = H.pick("which", WRONG[part::n])
    with Doc(H) as D:
        import copy
        spec = full(H)
        put(spec, path, v if v is DEL else copy.deepcopy(v))
        H.check(not attempt(H, D, spec), "invalid descriptions are rejected")


JOBS = [Job("shape/%s/world %s" % (k, o), shapes, kind=k, order=o) for k in ("box", "cylinder", "sphere") for o in ("first", "last")]
JOBS += [Job("mesh", mesh), Job("valid", valid), Job("not finite", infinite)]
JOBS += [Job("place/" + p, placement, parent=p) for p in ("default", "named world", "null", "later", "earlier", "chain")]
JOBS += [Job("component/%s/%s/%s" % (k, s, ph), component, kind=k, source=s, phase=ph) for k in ("absorber", "scatterer", "luminophore")
         for s in ("none", "file", "named", "whole") for ph in (RULES if k != "absorber" and s == "none" else ["absent"])]
JOBS += [Job("light/" + w, light, what=w) for w in ("plain", "wavelength number", "wavelength nanometers", "wavelength file", "wavelength named", "wavelength whole",
                                                    "position point", "position rect", "position cube", "position circle", "direction vector", "direction isotropic",
                                                    "direction lambertian", "direction cone", "direction henyey-greenstein", "all")]
JOBS += [Job("recorder/" + e, recorders, event=e) for e in ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit")]
JOBS += [Job("range/%d" % k, ranges, k=k) for k in range(len(RANGES))]
JOBS += [Job("invalid/%d" % k, wrong, part=k) for k in range(8)]
