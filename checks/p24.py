"""Automatic recorders: every event they are for falls into exactly one of them, wherever the object is and whichever way it faces."""
import math
from vlib.harness import Job
from vlib import kern
from vlib.docs import Doc, tree

PROPERTY = "P24"
PRELOAD = kern.PRELOAD + ("jsonschema", "yaml", "ruamel.yaml", "pvtrace.light.light", "pvtrace.light.event", "pvtrace.cli.parse", "pvtrace.studio.server")
BOUNDS = {"objects": "boxes with any edge lengths up to 1000 (three ranges per edge: up to 1, 1 to 2 and over 6), spheres and cylinders of any size, at any place, "
                     "facing one of 9 directions, in the world or inside another such object",
          "events": "one event anywhere on a face or inside, any wavelength from 300 to 999, incidence from a list of four directions; points on a face's rim are outside",
          "names": "any two different node names",
          "outside": "the world node (rays leave it by exit events, which have no automatic recorder); meshes; wavelengths outside the automatic range only count without a bin"}
ASSUMPTIONS = ["the counts of given recorders are decided by P16 and P17; the Python tally is used here"]
WAYS = [None, (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 2, 2), (-2, 1, -2), (2, 3, -6), (0, 3, 4), (-1, 0, 0)]
FACES = {"top": (2, 1), "bottom": (2, -1), "east": (0, 1), "west": (0, -1), "north": (1, 1), "south": (1, -1)}
WORLD = {"sphere": {"radius": 1.0e6, "material": {"refractive-index": 1.0}}}
EDGE = {"small": (1e-3, 0.99), "middle": (1.001, 1.999), "large": (6.001, 1e3)}


def where(H, spec, tag, way):
    """gives a node an arbitrary place and a listed direction of any length"""
    spec["location"] = [H.real("l%s%s" % (tag, c), -1e3, 1e3) for c in "xyz"]
    if way is not None:
        m = {"t": 3.0, "h": 0.25}[tag]
        spec["direction"] = [m * x for x in way]
    return spec


def document(H, spec, parent, way):
    """the object, beside another box and inside a parent"""
    nodes = {"world": WORLD, "other": {"record": True, "box": {"size": [1.0, 2.0, 3.0], "material": {"refractive-index": 1.5}}}}
    nodes["thing"] = spec
    if parent:
        nodes["host"] = where(H, {"record": True, "sphere": {"radius": 1e4, "material": {"refractive-index": 1.2}}}, "h", WAYS[(WAYS.index(way) + 4) % 9])
        spec["parent"] = "host"
    return {"version": "1.0", "nodes": nodes}


def scene_of(H, D, doc, by):
    """with recorders from record: true, or from the studio's button"""
    if by == "record":
        return D.parse(doc)
    from pvtrace.studio import server
    with D.readers():
        st = server.Studio()
        st.apply(D.text(doc))
        st.apply(server._patch(st, {"op": "add-face-recorders", "node": "thing"}))
        return st.scene


def tally(H, scene, node, event, local, normal, nm, direction, container):
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    from pvtrace.engine.tally import tally_histories
    root = scene.root
    pos = tuple(node.point_to_node(local, root))
    nrm = None if normal is None else tuple(node.vector_to_node(normal, root))
    d = tuple(node.vector_to_node(direction, root))
    ray = Ray(position=pos, direction=d, wavelength=nm)
    start = Ray(position=(0.0, 0.0, 0.0), direction=d, wavelength=nm)
    meta = {"hit": node.name if event in ("TRANSMIT", "REFLECT") else None, "normal": nrm, "container": container,
            "adjacent": None if event not in ("TRANSMIT", "REFLECT") else (node.parent.name if container == node.name else node.name)}
    return tally_histories(scene, [[(start, Event.GENERATE, {}), (ray, getattr(Event, event), meta)]])


def judge(H, res, expect, bins, values=()):
    """exactly the expected recorder counts the event, in one bin of each histogram"""
    hit = sorted(k for k, r in res.items() if r.crossings)
    H.check(hit == sorted(expect), "each event falls into exactly one automatic recorder of its kind, the one of its face")
    for k in expect:
        if k not in res:
            continue
        H.check(res[k].rays == 1 and res[k].crossings == 1, "the event counts once")
        if bins:
            # which bin is P16's and P17's subject: it is in exactly one when it is in the range
            for h in SAVED[k]:
                for x in ((h.a, h.b) if hasattr(h, "a") else (h,)):
                    H.check(x.bins >= 1, "the event falls into one bin of each histogram of its recorder")
                    if x.prop in values:
                        H.check(H.And(values[x.prop] >= x.start, values[x.prop] < x.stop), "the event falls into one bin of each histogram of its recorder")


SAVED = {}


def take_histograms(scene):
    """the counting does not depend on them"""
    SAVED.clear()
    for n in tree(scene).values():
        for r in n.recorders:
            SAVED[r.name] = list(r.histograms)
            r.histograms = []


SLANT = [(0.0, 0.0, 1.0), (0.6, 0.0, 0.8), (0.0, -0.6, 0.8), (0.48, 0.6, 0.64)]


def face(H, label, way, parent, edges, by):
    kern.fake_trimesh(H)
    with Doc(H) as D:
        size = [H.real("s" + c, *EDGE[e]) for c, e in zip("xyz", edges)]
        spec = where(H, {"box": {"size": size, "material": {"refractive-index": 1.5}}}, "t", way)
        if by == "record":
            spec["record"] = True
        scene = scene_of(H, D, document(H, spec, parent, way), by)
        node = tree(scene)["thing"]
        axis, sign = FACES[label]
        local = []
        for k, c in enumerate("xyz"):
            if k == axis:
                local.append(sign * size[k] / 2)
                continue
            local.append(H.real("f" + c, -500, 500))
            H.assume(local[k] <= size[k] * 0.4995)
            H.assume(local[k] >= size[k] * -0.4995)
        local = tuple(local)
        normal = tuple(sign if k == axis else 0 for k in range(3))
        s = H.pick("slant", SLANT)
        d = [0.0, 0.0, 0.0]
        d[axis], d[(axis + 1) % 3], d[(axis + 2) % 3] = sign * s[2], s[0], s[1]
        nm = H.real("nm", 300, 999)
        # the numbers of bins are the document's business; rays on the edge of a bin may fall either side
        names = ["thing-" + k for k in FACES]
        got = [r.name for r in node.recorders]
        H.check(sorted(got) == sorted(names + (["thing-lost"] if by == "record" else [])), "a box has one recorder for each of its faces and one for losses")
        heat = [h for r in node.recorders if r.name == "thing-" + label for h in r.histograms if hasattr(h, "a")]
        H.check(len(heat) == 1, "each face recorder has a map of its face")
        for h in heat:
            H.check({h.a.prop, h.b.prop} == {"xyz"[k] for k in range(3) if k != axis}, "the map is over the face's own axes")
            for x in (h.a, h.b):
                k = "xyz".index(x.prop)
                H.check_close(x.start, -size[k] / 2, "the map covers the face")
                H.check_close(x.stop, size[k] / 2, "the map covers the face")
        take_histograms(scene)
        res = tally(H, scene, node, "TRANSMIT", local, normal, nm, tuple(d), "thing")
        judge(H, res, ["thing-" + label], True, {"x": local[0], "y": local[1], "z": local[2], "wavelength": nm, "angle": math.acos(s[2])})
        # the other events of the same place
        res = tally(H, scene, node, "TRANSMIT", local, normal, nm, tuple(-x for x in d), node.parent.name)
        judge(H, res, [], False)
        res = tally(H, scene, node, "REFLECT", local, normal, nm, tuple(d), "thing")
        judge(H, res, [], False)


def inside(H, kind, way, parent):
    """events inside, and on the surface of shapes without faces"""
    kern.fake_trimesh(H)
    with Doc(H) as D:
        mat = {"refractive-index": 1.5}
        r, L = H.real("r", 1e-3, 1e3), H.real("L", 1e-3, 1e3)
        shape = {"box": {"box": {"size": [r, 0.5, 1.0], "material": mat}}, "sphere": {"sphere": {"radius": r, "material": mat}},
                 "cylinder": {"cylinder": {"length": L, "radius": r, "material": mat}}}[kind]
        if kind == "box":
            H.assume(r < 1)
        spec = where(H, dict(shape, record=True), "t", way)
        scene = scene_of(H, D, document(H, spec, parent, way), "record")
        node = tree(scene)["thing"]
        nm = H.real("nm", 300, 999)
        take_histograms(scene)
        res = tally(H, scene, node, "NONRADIATIVE", (0.0, 0.0, 0.0), None, nm, (0.0, 0.0, 1.0), "thing")
        judge(H, res, ["thing-lost"], True, {"wavelength": nm, "angle": 0.0})
        host = node.parent.name
        res = tally(H, scene, node, "NONRADIATIVE", (0.0, 0.0, 0.0), None, nm, (0.0, 0.0, 1.0), host)
        judge(H, res, ["host-lost"] if parent else [], True, {"wavelength": nm, "angle": 0.0})
        if kind == "box":
            return
        for local, normal in (((r, 0.0, 0.0), (1, 0, 0)), ((0.0, -r, 0.0), (0, -1, 0)), ((0.6 * r, 0.8 * r, 0.0), (0.6, 0.8, 0.0)),
                              ((0.0, 0.0, r if kind == "sphere" else L / 2), (0, 0, 1)), ((0.0, 0.0, -r if kind == "sphere" else -L / 2), (0, 0, -1))):
            d = tuple(float(x) for x in normal)
            res = tally(H, scene, node, "TRANSMIT", local, normal, nm, d, "thing")
            judge(H, res, ["thing-escaping"], True, {"wavelength": nm, "angle": 0.0})
            res = tally(H, scene, node, "TRANSMIT", local, normal, nm, d, host)
            judge(H, res, [], False)


def names(H, kinds):
    """recorders of different nodes have different names, whatever the nodes are called"""
    marks = ["Q0Q", "Q1Q"]
    shapes = {"box": {"box": {"size": [1.0, 1.0, 1.0], "material": {"refractive-index": 1.5}}}, "sphere": {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5}}},
              "cylinder": {"cylinder": {"length": 1.0, "radius": 1.0, "material": {"refractive-index": 1.5}}}}
    with Doc(H) as D:
        nodes = {"world": WORLD}
        for m, k in zip(marks, kinds):
            nodes[m] = dict(shapes[k], record=True)
        scene = D.parse({"version": "1.0", "nodes": nodes})
        t = tree(scene)
        got = [(m, r.name) for m in marks for r in t[m].recorders]
        count = {"box": 7}
        H.check(len(got) == sum(count.get(k, 2) for k in kinds), "each object has its whole set of recorders")
        H.check(len({n for m, n in got}) == len(got), "recorders have different names")
        if H.mode != "sym":
            return
        import z3
        v = {m: z3.String(m) for m in marks}

        def term(s):
            parts, out = s, []
            while parts:
                at = min([(parts.find(m), m) for m in marks if m in parts] or [(len(parts), None)])
                if at[0]:
                    out.append(z3.StringVal(parts[:at[0]]))
                parts = parts[at[0]:]
                if at[1]:
                    out.append(v[at[1]])
                    parts = parts[len(at[1]):]
            return out[0] if len(out) == 1 else z3.Concat(*out)
        ts = [term(n) for m, n in got]
        s = z3.Solver()
        s.set("timeout", 60000)
        s.add(v[marks[0]] != v[marks[1]])
        for m in marks:
            # the schema's node names
            part = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("."), z3.Re("_"), z3.Re("-"))
            s.add(z3.InRe(v[m], z3.Plus(part)))
        for i in range(len(ts)):
            for j in range(i):
                s.push()
                s.add(ts[i] == ts[j])
                r = s.check()
                H.E.stats["queries"] = H.E.stats.get("queries", 0) + 1
                if r == z3.unsat:
                    H.E.stats["unsat"] = H.E.stats.get("unsat", 0) + 1
                if r == z3.sat:
                    m = s.model()
                    H.note("equal names: %s and %s for nodes %s" % (got[i], got[j], [m.eval(v[x]) for x in marks]))
                H.check(r == z3.unsat, "recorders of different nodes have different names, whatever the nodes are called")
                s.pop()


def explicit(H, label):
    """a recorder in the file with the name of an automatic one takes its place, the others stay"""
    kern.fake_trimesh(H)
    with Doc(H) as D:
        a = H.real("a", 1, 100)
        spec = {"record": True, "box": {"size": [0.5, 0.5, 0.5], "material": {"refractive-index": 1.5}}}
        recs = {"thing-" + label: {"node": "thing", "event": "entering", "histograms": {"wavelength": [0.0, a, 3]}}, "mine": {"node": "thing", "event": "killed"}}
        scene = D.parse({"version": "1.0", "nodes": {"world": WORLD, "thing": spec}, "recorders": recs})
        rs = tree(scene)["thing"].recorders
        H.check(sorted(r.name for r in rs) == sorted(["thing-" + k for k in FACES] + ["thing-lost", "mine"]), "recorders in the file are kept beside the automatic ones")
        for r in rs:
            if r.name == "thing-" + label:
                H.check(r.event == "entering" and len(r.histograms) == 1, "a recorder in the file replaces the automatic one of its name")
                H.check_close(r.histograms[0].stop, a, "a recorder in the file replaces the automatic one of its name")


def off(H):
    """nothing is added where it is not asked for"""
    kern.fake_trimesh(H)
    with Doc(H) as D:
        spec = {"box": {"size": [0.5, H.real("s", 0.1, 0.9), 0.5], "material": {"refractive-index": 1.5}}}
        if H.flag("given"):
            spec["record"] = False
        scene = D.parse({"version": "1.0", "nodes": {"world": WORLD, "thing": spec}})
        H.check(not tree(scene)["thing"].recorders and not scene.root.recorders, "nodes without record: true get no recorders")


JOBS = []
for i, way in enumerate(WAYS):
    for j, label in enumerate(FACES):
        n = 6 * i + j
        mix = [("small", "small", "small"), ("large", "small", "middle"), ("middle", "large", "small"), ("large", "large", "large"), ("small", "middle", "large")][n % 5]
        for by in ("record", "button"):
            tiers = ("quick", "thorough") if by == "record" or (i + j) % 3 == 0 else ("thorough",)
            JOBS.append(Job("face/%s/%s/%d" % (by, label, i), face, tiers=tiers, label=label, way=way, parent=(i + j) % 2 == 1, edges=mix, by=by))
for kind in ("box", "sphere", "cylinder"):
    for i, way in enumerate(WAYS):
        JOBS.append(Job("inside/%s/%d" % (kind, i), inside, tiers=("quick", "thorough") if i % 3 == 1 else ("thorough",), kind=kind, way=way, parent=i % 2 == 1))
JOBS += [Job("names/%s/%s" % k, names, kinds=k) for k in (("box", "box"), ("box", "sphere"), ("sphere", "cylinder"), ("sphere", "sphere"))]
JOBS += [Job("explicit/" + k, explicit, label=k) for k in list(FACES)[:2] + ["lost"]] + [Job("off", off)]
