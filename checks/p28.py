"""Emission from scenes: which light each ray comes from, in world coordinates, ray by ray and in bundles."""
from vlib.harness import Job
from vlib import kern
from vlib.frames import FRAMES, conv

PROPERTY = "P28"
PRELOAD = kern.PRELOAD + ("pvtrace.light.light", "pvtrace.light.ray")
BOUNDS = {"lights": "1 to 4 lights on nodes of a tree up to three deep, each node with a listed rotation and an arbitrary offset; any sampled position, "
                    "direction and wavelength per ray (custom rules), or built-in rules with arbitrary parameters and draws",
          "rays": "0 to 7 rays, bundles of 1 to 4 rays; stream bookkeeping for any ray count and bundle size making up to 5 bundles, any seed",
          "outside": "lights whose emit() does not return the number of rays it is asked for"}
ASSUMPTIONS = ["the native kernel is replaced by a recorder of its arguments in the stream jobs (the kernel itself is P03 to P19's subject)"]
SHAPES = {"one": ((1, None),), "two": ((1, None), (2, None)), "nested": ((1, None), (4, 0), (5, 1)), "deep": ((5, None), (0, 0), (3, 1), (6, 0))}


class Lamp:
    """one light with recorded, arbitrary samples"""

    def __init__(self, H, k, node, R, t):
        self.H, self.k, self.node, self.R, self.t = H, k, node, R, t
        self.samples = {"p": [], "d": [], "w": []}
        self.d0 = (conv(H, FRAMES[5][k % 3]), conv(H, FRAMES[4][(k + 1) % 3]), conv(H, FRAMES[1][k % 3]))

    def position(self):
        i = len(self.samples["p"])
        v = tuple(self.H.real("p%d-%d%s" % (self.k, i, c), -50, 50) for c in "xyz")
        self.samples["p"].append(v)
        return v

    def direction(self):
        i = len(self.samples["d"])
        v = self.d0[i % 3]
        self.samples["d"].append(v)
        return v

    def wavelength(self):
        i = len(self.samples["w"])
        v = self.H.real("w%d-%d" % (self.k, i), 200, 2000)
        self.samples["w"].append(v)
        return v

    def world(self, p, point=True):
        return tuple(sum(self.R[i][j] * p[j] for j in range(3)) + (self.t[i] if point else 0) for i in range(3))


def build(H, shape, light, sub=True):
    """scene with lamps in tree order (by level); light(lamp) -> Light"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    root = Node(name="world", geometry=Sphere(1000.0, material=kern.material(1.0)))
    made = []
    for k, (fr, par) in enumerate(SHAPES[shape]):
        parent = root if par is None else made[par].node
        off = tuple(H.real("o%d%s" % (k, c), -20, 20) for c in "xyz")
        n = Node(name="lamp node %d" % k, parent=parent)
        n.pose = kern.pose(H, fr, off)
        cols = [conv(H, v) for v in FRAMES[fr]]
        R = [[cols[j][i] for j in range(3)] for i in range(3)]
        t = off
        if par is not None:
            p = made[par]
            R2 = [[sum(p.R[i][q] * R[q][j] for q in range(3)) for j in range(3)] for i in range(3)]
            t = p.world(off)
            R = R2
        L = Lamp(H, k, n, R, t)
        made.append(L)
        n.light = light(L)
        depth = 1 if par is None else made[par].depth + 1
        L.depth = depth
    # other things in the scene do not count
    Node(name="thing", parent=root, geometry=Sphere(1.0, material=kern.material(1.5)))
    order = sorted(made, key=lambda l: l.depth)
    return Scene(root), order


def custom(L):
    from pvtrace.light.light import Light
    return Light(wavelength=L.wavelength, position=L.position, direction=L.direction, name="lamp %d" % L.k)


def judge(H, lamps, n, rows, first=0):
    """rows: (position, direction, wavelength, source) per ray"""
    H.check(len(rows) == n, "exactly the requested number of rays is emitted")
    seen = {}
    for j, (p, d, w, s) in enumerate(rows):
        L = lamps[(first + j) % len(lamps)]
        i = seen.get(L.k, 0)
        seen[L.k] = i + 1
        H.check(s == "lamp %d" % L.k, "rays come from the lights in turn and carry the light's name")
        if s != "lamp %d" % L.k:
            return
        H.check(i < len(L.samples["p"]), "each ray is sampled by its own light")
        H.check_close3(tuple(p), L.world(L.samples["p"][i]), "positions are in world coordinates by the light's placement")
        H.check_close3(tuple(d), L.world(L.samples["d"][i], False), "directions are in world coordinates by the light's placement")
        H.check_close(w, L.samples["w"][i], "a ray keeps its sampled wavelength")
    for L in lamps:
        k = seen.get(L.k, 0)
        H.check(all(len(v) == k for v in L.samples.values()), "each light is sampled once per ray of its own")


def one_by_one(H, shape):
    scene, lamps = build(H, shape, custom)
    n = H.size("n", 0, 5)
    rows = [(r.position, r.direction, r.wavelength, r.source) for r in scene.emit(n)]
    judge(H, lamps, n, rows)


def bundle(H, shape):
    from pvtrace.engine.emit import emit_bundle
    scene, lamps = build(H, shape, custom)
    n = H.size("n", 0, 5)
    P, D, W, S = emit_bundle(scene, n)
    H.check(len(P) == n and len(D) == n and len(W) == n and len(S) == n, "a bundle has one row per ray")
    judge(H, lamps, n, list(zip(P, D, W, S)))


def builtin(H, shape, n):
    """built-in rules: the vectorised bundle places rays as each light's node does"""
    from pvtrace.light import light as ml
    from pvtrace.engine.emit import emit_bundle
    nm = {}

    def mk(L):
        nm[L.k] = (H.real("nm%d" % L.k, 300, 900), H.real("sx%d" % L.k, 0.5, 5), H.real("sy%d" % L.k, 0.5, 5))
        a, x, y = nm[L.k]
        return ml.Light(wavelength=ml.ConstantWavelengthMask(a), position=ml.RectangularMask(x, y) if L.k % 2 == 0 else None, name="lamp %d" % L.k)
    scene, lamps = build(H, shape, mk)
    P, D, W, S = emit_bundle(scene, n)
    u = 0
    H.check(len(P) == n and len(D) == n and len(W) == n and len(S) == n, "a bundle has one row per ray")
    for j in range(n):
        L = lamps[j % len(lamps)]
        a, x, y = nm[L.k]
        H.check(S[j] == "lamp %d" % L.k, "rays come from the lights in turn and carry the light's name")
        H.check_close(W[j], a, "a ray keeps its light's wavelength")
        H.check_close3(tuple(D[j]), L.world((0.0, 0.0, 1.0), False), "directions are in world coordinates by the light's placement")
        q = tuple(P[j][i] - L.t[i] for i in range(3))
        loc = tuple(sum(L.R[i][k] * q[i] for i in range(3)) for k in range(3))
        H.check_close(loc[2], 0.0, "positions are in world coordinates by the light's placement")
        for v, m in ((loc[0], x), (loc[1], y)):
            if L.k % 2:
                H.check_close(v, 0.0, "positions are in world coordinates by the light's placement")
            else:
                H.check_le(v, m, "positions are in world coordinates by the light's placement", tol=1e-6)
                H.check_ge(v, -m, "positions are in world coordinates by the light's placement", tol=1e-6)


def overridden(H, which):
    """subclasses of built-in rules and lights keep their own behaviour in bundles"""
    from pvtrace.light import light as ml
    from pvtrace.light.ray import Ray
    from pvtrace.material.utils import Cone, HenyeyGreenstein
    from pvtrace.engine.emit import emit_bundle

    def mk(L):
        kw = dict(wavelength=L.wavelength, position=L.position, direction=L.direction, name="lamp %d" % L.k)
        if which == "light":
            class My(ml.Light):
                def emit(self, num_rays=None):
                    for i in range(num_rays):
                        yield Ray(position=L.position(), direction=L.direction(), wavelength=L.wavelength(), source=self.name)
            return My(name="lamp %d" % L.k)
        if which == "rule":
            class A(ml.RectangularMask):
                def __call__(self):
                    return L.position()

            class B(ml.ConstantWavelengthMask):
                def __call__(self):
                    return L.wavelength()

            class C(Cone):
                def __call__(self):
                    return L.direction()
            return ml.Light(wavelength=B(500.0), position=A(1.0, 1.0), direction=C(0.5), name="lamp %d" % L.k)

        class A(ml.CircularMask):
            def __call__(self):
                return L.position()

        class B(ml.DefaultWavelength):
            def __call__(self):
                return L.wavelength()

        class C(HenyeyGreenstein):
            def __call__(self):
                return L.direction()
        return ml.Light(wavelength=B(), position=A(1.0), direction=C(0.5), name="lamp %d" % L.k)
    scene, lamps = build(H, "two", mk)
    P, D, W, S = emit_bundle(scene, 3)
    judge(H, lamps, 3, list(zip(P, D, W, S)))


def dark(H):
    """a scene without lights cannot emit"""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.engine.emit import emit_bundle
    root = Node(name="world", geometry=Sphere(10.0))
    n = H.size("n", 0, 3)
    for f in (lambda: list(Scene(root).emit(n)), lambda: list(emit_bundle(Scene(root), n)[0])):
        try:
            rays = f()
        except Exception:
            H.check(n > 0, "emitting no rays is possible without lights")
            continue
        H.check(len(rays) == 0 and n == 0, "no ray is emitted that no light emitted")


class FakeKernel:
    """records what the kernel is given"""

    def __init__(self):
        self.calls = []

    def trace_bundle(self, compiled, positions, directions, wavelengths, seed, maxsteps, max_events, emit_method, num_threads, record_every):
        self.calls.append(dict(P=positions, D=directions, W=wavelengths, seed=seed, maxsteps=maxsteps, max_events=max_events, record_every=record_every))
        return {"counts": []}


class fake_kernel:
    def __enter__(self):
        import sys
        import pvtrace.engine as pe
        self.pe = pe
        self.old = (sys.modules.get("pvtrace.engine._kernel"), getattr(pe, "_kernel", None))
        k = FakeKernel()
        sys.modules["pvtrace.engine._kernel"] = k
        pe._kernel = k
        return k

    def __exit__(self, *a):
        import sys
        if self.old[0] is None:
            del sys.modules["pvtrace.engine._kernel"]
        else:
            sys.modules["pvtrace.engine._kernel"] = self.old[0]
        if self.old[1] is None:
            del self.pe._kernel
        else:
            self.pe._kernel = self.old[1]


def stream(H, shape):
    """bundles of a stream continue where the last one stopped"""
    from pvtrace.engine import api
    scene, lamps = build(H, shape, custom)
    n = H.size("n", 1, 7)
    b = H.size("b", 1, 4)
    with fake_kernel() as K:
        total = []
        src = []
        for res, upto in api.simulate_stream(scene, n, bundle=b, seed=5):
            total.append(upto)
            src.append(list(res.sources))
        rows = []
        for c, s in zip(K.calls, src):
            H.check(len(c["P"]) == len(s), "each bundle's sources name its rays")
            rows += list(zip(c["P"], c["D"], c["W"], s))
        H.check(total == [min(n, b * (i + 1)) for i in range(len(total))] and total[-1] == n, "the stream reports the rays traced so far")
    judge(H, lamps, n, rows)


def whole(H, shape):
    """one simulation hands every emitted ray to the kernel"""
    from pvtrace.engine import api
    scene, lamps = build(H, shape, custom)
    n = H.size("n", 0, 4)
    with fake_kernel() as K:
        res = api.simulate(scene, n, seed=5)
        H.check(len(K.calls) == 1, "the kernel runs once")
        c = K.calls[0]
        H.check(res.num_rays == n, "the result knows how many rays were traced")
        judge(H, lamps, n, list(zip(c["P"], c["D"], c["W"], res.sources)))


class Many:
    """a bundle of arbitrary size"""

    def __init__(self, n):
        self.n = n


def counts(H):
    """any ray count, bundle size and seed: the bundles cover every ray once, each with the seed of its index"""
    from pvtrace.engine import api, emit
    import pvtrace.engine as pe
    scene, lamps = build(H, "two", custom)
    n = H.int("n", 0, 10 ** 9)
    b = H.int("b", 1, 10 ** 9)
    H.assume(n <= 5 * b)
    seed = H.int("seed", 0, 2 ** 31 - 1)
    asked = []

    def fake_emit(scene, num_rays, *a, **k):
        asked.append(num_rays)
        return Many(num_rays), Many(num_rays), Many(num_rays), []
    old = emit.emit_bundle
    olds = [(m, m.emit_bundle) for m in (api, pe) if hasattr(m, "emit_bundle")]
    emit.emit_bundle = fake_emit
    for m, _ in olds:
        m.emit_bundle = fake_emit
    try:
        with fake_kernel() as K:
            done = 0
            for res, upto in api.simulate_stream(scene, n, bundle=b, seed=seed):
                c = K.calls[-1]
                m = c["P"].n
                H.check(len(K.calls) == len(asked), "every bundle emitted is traced once")
                H.check(H.And(m >= 1, m <= b), "no bundle is empty or larger than asked for")
                H.check(c["seed"] == seed + done, "each bundle continues the seeds of the one before")
                done = done + m
                H.check(upto == done, "the stream reports the rays traced so far")
            H.check(done == n, "the bundles cover every ray once")
    finally:
        emit.emit_bundle = old
        for m, f in olds:
            m.emit_bundle = f


JOBS = []
for s in SHAPES:
    JOBS.append(Job("single/" + s, one_by_one, shape=s))
    JOBS.append(Job("bundle/" + s, bundle, shape=s))
    JOBS.append(Job("whole/" + s, whole, shape=s, tiers=("quick", "thorough") if s in ("one", "nested") else ("thorough",)))
    JOBS.append(Job("stream/" + s, stream, shape=s))
    for n in (1, 3, 5):
        JOBS.append(Job("builtin/%s/%d" % (s, n), builtin, shape=s, n=n, tiers=("quick", "thorough") if n == 3 else ("thorough",)))
JOBS += [Job("overridden/" + w, overridden, which=w) for w in ("light", "rule", "rule2")]
JOBS += [Job("dark", dark), Job("counts", counts)]
