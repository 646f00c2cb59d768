"""Drawing: wavelength colours, ray histories with a bounded number of drawn ones, and the objects of a scene."""
import numpy as np
from vlib.harness import Job
from vlib import kern
from vlib.frames import FRAMES, conv

PROPERTY = "P26"
PRELOAD = kern.PRELOAD + ("pvtrace.scene.renderer", "pvtrace.light.utils", "pvtrace.light.ray", "pvtrace.light.event")
BOUNDS = {"colours": "any wavelength between -10^6 and 10^6 nm; any three integers between -300 and 5000 as channels",
          "histories": "5 histories one after another, each one of 6 kinds (up to 5 events) with arbitrary positions, directions from a list and wavelengths from a list, "
                       "maximum 1 to 4, with and without baubles and world segments",
          "scene": "boxes, spheres and cylinders of any size (boxes: listed sizes) in a tree up to three deep with listed rotations and arbitrary offsets",
          "outside": "what the browser does with the objects it is sent; add_path; a maximum of 0 or none"}
ASSUMPTIONS = ["the visualiser is a stand-in with meshcat's tree: setting and deleting objects by path"]
EVENTS = ["GENERATE", "TRANSMIT", "REFLECT", "ABSORB", "EMIT", "SCATTER", "NONRADIATIVE", "KILL", "EXIT"]
# (events, number of the place each happens at)
KINDS = {"through": ("GENERATE TRANSMIT TRANSMIT EXIT", "0123"), "past": ("GENERATE EXIT", "01"), "lost": ("GENERATE TRANSMIT ABSORB NONRADIATIVE", "0122"),
         "killed": ("GENERATE REFLECT TRANSMIT KILL", "0122"), "glow": ("GENERATE ABSORB EMIT TRANSMIT EXIT", "01123"), "mirror": ("GENERATE REFLECT EXIT", "012")}
WAYS = [(0.0, 0.0, 1.0), (0.6, 0.0, -0.8), (0.0, 0.28, 0.96), (-1.0, 0.0, 0.0), (0.36, 0.48, 0.8)]


class Vis:
    """meshcat's tree of objects"""
    store = None

    def __init__(self, *a, path=(), store=None, **k):
        self.path = path
        self.store = {} if store is None else store

    def __getitem__(self, p):
        path = self.path
        for x in p.split("/"):
            path = path + (x,) if x else ()
        return Vis(path=path, store=self.store)

    def set_object(self, geometry, material=None):
        # the newest object is last
        self.store.pop(self.path, None)
        self.store[self.path] = [geometry, material, None]

    def set_transform(self, matrix):
        self.store.setdefault(self.path, [None, None, None])[2] = matrix

    def set_property(self, *a):
        pass

    def delete(self):
        for p in [p for p in self.store if p[:len(self.path)] == self.path]:
            del self.store[p]

    def open(self):
        return self


class Screen:
    def __init__(self, H, **kw):
        import meshcat
        import pvtrace.scene.renderer as mr
        old, meshcat.Visualizer = meshcat.Visualizer, Vis
        own = getattr(mr, "Visualizer", None)
        if own is not None:
            mr.Visualizer = Vis
        try:
            self.r = mr.MeshcatRenderer(**kw)
        finally:
            meshcat.Visualizer = old
            if own is not None:
                mr.Visualizer = own
        self.vis = self.r.vis

    def drawn(self):
        """(lines, other objects)"""
        import meshcat.geometry as g
        lines, rest = [], []
        for path, (geo, mat, tr) in self.vis.store.items():
            if isinstance(geo, g.Line):
                pts = geo.geometry.position
                assert pts.shape[0] == 3
                lines.append(([tuple(pts[i][j] for i in range(3)) for j in range(pts.shape[1])], geo.material.color))
            else:
                rest.append((path, geo, mat, tr))
        return lines, rest


def same(H, got, want, label):
    for a, b in zip(got, want):
        H.check_close(a, b, label)


def history(H, k, kind, places):
    """one ray's history, and the segments it travels"""
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    events, at = KINDS[kind]
    events, nm, out = events.split(), [405.0, 532.0, 600.0, 655.0, 320.0][k % 5], []
    for i, (e, p) in enumerate(zip(events, at)):
        if e == "EMIT":
            nm += 70.0
        out.append((Ray(position=places[k][int(p)], direction=WAYS[(k + int(p)) % 5], wavelength=nm), getattr(Event, e)))
    # as the tracer does, a ray that is lost or killed ends as it was
    if events[-1] in ("NONRADIATIVE", "KILL"):
        out[-1] = (out[-2][0], out[-1][1])
    return out


def expect(H, hist, mode, short):
    from pvtrace.light.event import Event
    from pvtrace.light.utils import wavelength_to_hex_int
    if mode == "exclude":
        hist = [x for x in hist if x[1] != Event.EXIT]
    segs, dots = [], []
    for (a, ea), (b, eb) in zip(hist[:-1], hist[1:]):
        end = b.position
        if mode == "short" and eb == Event.EXIT:
            end = tuple(p + short * d for p, d in zip(a.position, a.direction))
        segs.append((a.position, end, wavelength_to_hex_int(a.wavelength)))
        if ea == Event.TRANSMIT:
            dots.append((a.position, segs[-1][2]))
    return segs, dots


def histories(H, mode, baubles, first):
    n = 5
    limit = H.pick("max", [1, 2, 3, 4])
    kinds = [first] + [H.pick("kind%d" % k, list(KINDS)[(k % 2)::2] if k < 3 else ["lost"] if k == 3 else ["through"]) for k in range(1, n)]
    places = [[tuple(H.real("p%d-%d%s" % (k, i, c), -100, 100) for c in "xyz") for i in range(4)] for k in range(n)]
    short, radius = H.real("short", 0.01, 10), H.real("radius", 1e-3, 1)
    S = Screen(H, max_histories=limit)
    done = []
    for k in range(n):
        h = history(H, k, kinds[k], places)
        segs, dots = expect(H, h, mode, short)
        before = S.drawn()
        ids = S.r.add_history(tuple(h) if k % 2 else h, baubles=baubles, world_segment=mode, short_length=short, bauble_radius=radius)
        lines, rest = S.drawn()
        if not segs:
            H.check(len(lines) == len(before[0]) and len(rest) == len(before[1]), "a history without segments draws and removes nothing")
            continue
        done.append((segs, dots if baubles else []))
        # what is drawn is the newest histories, whole
        shown = None
        for m in range(1, len(done) + 1):
            if sum(len(s) for s, d in done[-m:]) == len(lines):
                shown = m
        H.check(shown is not None, "the lines drawn are those of the newest histories")
        if shown is None:
            return
        H.check(shown <= limit, "no more than the maximum number of histories is drawn")
        H.check(shown >= min(len(done), limit), "histories are removed only when there are more than the maximum")
        want = [x for s, d in done[-shown:] for x in s]
        for (pts, colour), (a, b, c) in zip(lines, want):
            H.check(len(pts) == 2, "each segment is one line")
            same(H, pts[0], a, "each line begins where the segment begins")
            same(H, pts[-1], b, "each line ends where the segment ends")
            H.check(colour == c, "each line has the colour of its ray's wavelength")
        want = [x for s, d in done[-shown:] for x in d]
        H.check(len(rest) == len(want), "objects of old histories are removed, the others kept")
        for (path, geo, mat, tr), (p, c) in zip(rest, want):
            H.check(tr is not None, "marks are where rays cross a surface")
            if tr is not None:
                same(H, [tr[i][3] for i in range(3)], p, "marks are where rays cross a surface")
            H.check(mat.color == c, "marks have the colour of their ray")
            H.check_close(geo.radius, radius, "marks have the size asked for")
        H.check(ids is not None and len(ids) == len(segs) + (len(dots) if baubles else 0), "each drawn object has an identifier")
    # identifiers remove what they name
    before = len(S.vis.store)
    if ids:
        for i in ids:
            S.r.remove_object(i)
        H.check(len(S.vis.store) == before - len(ids), "removing the objects of a history by their identifiers removes all of them")


def path(H):
    """rays drawn one by one and as a path"""
    places = [[tuple(H.real("p%d%s" % (i, c), -100, 100) for c in "xyz") for i in range(4)]]
    S = Screen(H)
    rays = [r for r, e in history(H, 0, H.pick("kind", list(KINDS)), places)]
    ids = S.r.add_ray_path(rays)
    from pvtrace.light.utils import wavelength_to_hex_int
    length = H.real("length", 0.01, 100)
    one = S.r.add_ray(rays[0], length)
    lines, rest = S.drawn()
    want = [(a.position, b.position, a.wavelength) for a, b in zip(rays[:-1], rays[1:])]
    want.append((rays[0].position, tuple(p + length * d for p, d in zip(rays[0].position, rays[0].direction)), rays[0].wavelength))
    H.check(len(lines) == len(want) and not rest, "each segment is one line")
    for (pts, colour), (a, b, nm) in zip(lines, want):
        same(H, pts[0], a, "each line begins where the segment begins")
        same(H, pts[-1], b, "each line ends where the segment ends")
        H.check(colour == wavelength_to_hex_int(nm), "each line has the colour of its ray's wavelength")
    for i in list(ids) + [one]:
        S.r.remove_object(i)
    H.check(not S.vis.store, "removing objects by their identifiers removes all of them")


def colour(H):
    from pvtrace.light.utils import wavelength_to_rgb, rgb_to_hex_int, wavelength_to_hex_int
    nm = H.real("nm", -1e6, 1e6)
    rgb = wavelength_to_rgb(nm)
    H.check(len(rgb) == 3, "a colour has three channels")
    for c in rgb:
        H.check(H.And(c >= 0, c <= 255), "colour channels are between 0 and 255")
        H.check(type(c).__name__ in ("int", "SymInt"), "colour channels are whole numbers")
    h = wavelength_to_hex_int(nm)
    H.check(h == (rgb[0] * 256 + rgb[1]) * 256 + rgb[2], "the colour number has the channels' digits")
    dark = H.Or(nm < 380, nm >= 781)
    H.check(H.Implies(dark, h == 0), "wavelengths outside the visible range are black")
    H.check(H.Implies(H.Not(dark), h > 0), "wavelengths in the visible range are not black")
    # the published approximation: which channels are lit
    H.check(H.Implies(H.And(nm >= 381, nm < 440), H.And(rgb[0] > 0, rgb[1] == 0, rgb[2] > 0)), "the hue follows the spectrum")
    H.check(H.Implies(H.And(nm >= 441, nm < 490), H.And(rgb[0] == 0, rgb[1] > 0, rgb[2] == 255)), "the hue follows the spectrum")
    H.check(H.Implies(H.And(nm >= 490, nm < 510), H.And(rgb[0] == 0, rgb[1] == 255)), "the hue follows the spectrum")
    H.check(H.Implies(H.And(nm >= 510, nm < 580), H.And(rgb[1] == 255, rgb[2] == 0)), "the hue follows the spectrum")
    H.check(H.Implies(H.And(nm >= 580, nm < 645), H.And(rgb[0] == 255, rgb[1] > 0, rgb[2] == 0)), "the hue follows the spectrum")
    H.check(H.Implies(H.And(nm >= 645, nm <= 780), H.And(rgb[0] > 0, rgb[1] == 0, rgb[2] == 0)), "the hue follows the spectrum")


def channels(H):
    from pvtrace.light.utils import rgb_to_hex_int
    rgb = [H.int(c, -300, 5000) for c in "rgb"]
    h = rgb_to_hex_int(tuple(rgb))
    cl = [H.If(c < 0, 0, H.If(c > 255, 255, c)) for c in rgb]
    H.check(h == (cl[0] * 256 + cl[1]) * 256 + cl[2], "channels outside 0 to 255 are limited to it")


def extent(geo):
    """edge lengths of a drawn box (a box, or triangles in STL form)"""
    import struct
    if hasattr(geo, "lengths"):
        return [float(x) for x in geo.lengths]
    data = bytes(geo.contents.data)
    n, = struct.unpack("<I", data[80:84])
    pts = [struct.unpack("<12f", data[84 + 50 * i:132 + 50 * i])[3:] for i in range(n)]
    pts = [p[k:k + 3] for p in pts for k in (0, 3, 6)]
    return [2 * max(abs(p[i]) for p in pts) for i in range(3)]


def objects(H, frames):
    """the objects of a scene, at their places in the world"""
    import meshcat.geometry as g
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.cylinder import Cylinder
    mat = kern.material(1.0)
    root = Node(name="world", geometry=Sphere(1000.0, material=mat))
    R, T, made = [], [], []
    specs = [("ball", None), ("slab", 0), ("rod", 1), ("bare", 0), ("ball", 3), ("rod", None)]
    want = []
    for k, (kind, par) in enumerate(specs):
        n = Node(name="%s %d" % (kind, k), parent=root if par is None else made[par])
        off = [H.real("o%d%s" % (k, c), -20, 20) for c in "xyz"]
        f = frames[k % len(frames)]
        n.pose = kern.pose(H, f, off)
        cols = [conv(H, v) for v in FRAMES[f]]
        r = [[cols[j][i] for j in range(3)] for i in range(3)]
        if par is not None:
            t = [sum(R[par][i][j] * off[j] for j in range(3)) + T[par][i] for i in range(3)]
            r = [[sum(R[par][i][m] * r[m][j] for m in range(3)) for j in range(3)] for i in range(3)]
        else:
            t = off
        R.append(r)
        T.append(t)
        made.append(n)
        if kind == "ball":
            dims = (H.real("r%d" % k, 0.01, 100),)
            n.geometry = Sphere(dims[0], material=mat)
        elif kind == "rod":
            dims = (H.real("L%d" % k, 0.01, 100), H.real("r%d" % k, 0.01, 100))
            n.geometry = Cylinder(dims[0], dims[1], material=mat)
        elif kind == "slab":
            dims = (1.0, 2.0, 3.0)
            n.geometry = Box(dims, material=mat)
        else:
            continue
        want.append((n, kind, dims, r, t))
    S = Screen(H)
    S.r.render(Scene(root))
    lines, rest = S.drawn()
    H.check(len(rest) == len(want) and not lines, "each object but the world is drawn once")
    for n, kind, dims, r, t in want:
        mine = [x for x in rest if x[0][-1].endswith(n.name)]
        H.check(len(mine) == 1, "each object but the world is drawn once")
        for path, geo, mt, tr in mine:
            H.check(tr is not None, "objects are drawn at their place in the world")
            if tr is None:
                continue
            same(H, [tr[i][3] for i in range(3)], t, "objects are drawn at their place in the world")
            cols = [[tr[i][j] for i in range(3)] for j in range(3)]
            want_cols = [[r[i][j] for i in range(3)] for j in range(3)]
            if kind == "ball":
                H.check_close(geo.radius, dims[0], "objects are drawn with their own dimensions")
            elif kind == "rod":
                # the viewer's cylinders lie along y
                H.check_close(geo.height, dims[0], "objects are drawn with their own dimensions")
                H.check_close(geo.radiusTop, dims[1], "objects are drawn with their own dimensions")
                H.check_close(geo.radiusBottom, dims[1], "objects are drawn with their own dimensions")
                d = sum(a * b for a, b in zip(cols[1], want_cols[2]))
                H.check_close(d * d, 1, "cylinders are drawn along their own axis")
                for a in (cols[0], cols[2]):
                    H.check_close(sum(x * y for x, y in zip(a, want_cols[2])), 0, "cylinders are drawn along their own axis")
            else:
                for a, b in zip(extent(geo), dims):
                    H.check_close(a, b, "objects are drawn with their own dimensions")
                for a, b in zip(cols, want_cols):
                    same(H, a, b, "objects are drawn turned as they are in the world")
    S.r.remove(Scene(root))
    H.check(not S.vis.store, "removing the scene removes everything")


JOBS = [Job("colour", colour), Job("channels", channels), Job("path", path)]
for i, k in enumerate(KINDS):
    for mode in ("short", "exclude"):
        for b in (True, False):
            quick = (b and (i + (mode == "short")) % 2 == 0) or (not b and i % 6 == (3 if mode == "short" else 0))
            JOBS.append(Job("histories/%s/%s/%s" % (k, mode, "marks" if b else "plain"), histories, mode=mode, baubles=b, first=k,
                            tiers=("quick", "thorough") if quick else ("thorough",)))
JOBS += [Job("objects/%d" % i, objects, frames=f, tiers=("quick", "thorough") if i < 2 else ("thorough",)) for i, f in enumerate([(1, 4, 0), (5, 2, 3), (6, 1, 5, 2), (0,)])]
