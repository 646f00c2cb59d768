"""Random streams of the compiled engine.

Range: the kernel's own uniform function runs on an arbitrary generator state (bit vectors); the solver decides in IEEE
arithmetic whether any state yields a number outside [0, 1).  Streams: the whole kernel runs on an arbitrary 64 bit seed; the
words drawn by every ray and everything it reports are compared between orders, thread assignments, bundle sizes, recording
intervals and single-ray bundles.  Rows and races: every address written by one ray is its own or its thread's."""
import math
from vlib.harness import Job
from vlib import kern
from vlib.kern import Kernel
from vlib.llsym import BV

PROPERTY = "P19"
NEEDS = ("kernel",)
PRELOAD = kern.PRELOAD
BOUNDS = {"range": "every generator state (8 arbitrary 64 bit words of memory, the generator uses four)",
          "streams": "every 64 bit seed; bundles of 1 to 4 rays, up to 3 steps, listed orders and assignments to 1 to 4 threads, recording every ray, "
                     "every second or third one or none, logs of 2 to 8 rows",
          "scene": "a scattering and luminescent sphere or box in a world, with recorders",
          "outside": "more rays than a chunk; the operating system's own scheduling (runs are shown free of shared writes instead)"}
ASSUMPTIONS = ["the parallel loop may run any ray on any thread, one ray per chunk", "streams: the real value of a draw is its word scaled, any number in [0, 1)"]
KEYS = ("kind", "hit", "container", "adjacent", "component", "source")
VEC = ("position", "direction", "normal")
NUM = ("wavelength", "travelled", "duration")


def uniform(H, zero=()):
    K = Kernel(H, bv=True)
    ws = [H.word("s%d" % i) if i not in zero else 0 for i in range(8)]
    u = K.uniform(ws)
    if u is None:
        H.note("no separate uniform function")
        H.check(True, "every draw lies in [0, 1) for every generator state")
        return
    if H.mode == "sym":
        import z3
        f = z3.Float64()
        if type(u) is float:
            H.check(0 <= u < 1, "every draw lies in [0, 1) for every generator state")
            return
        H.word_check(z3.Not(z3.And(z3.fpGEQ(u.t, z3.FPVal(0.0, f)), z3.fpLT(u.t, z3.FPVal(1.0, f)))),
                     "every draw lies in [0, 1) for every generator state")
    else:
        H.check(0 <= u < 1, "every draw lies in [0, 1) for every generator state")


def scene(H, kind):
    import numpy as np
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.material.component import Luminophore, Scatterer, Absorber
    from pvtrace.material.utils import HenyeyGreenstein, Cone
    from pvtrace.engine.recorder import Recorder, Histogram
    w = Node(name="world", geometry=kern.shape(H, "box", (100.0, 100.0, 100.0), kern.material(1.0)))
    if kind == "scatter":
        comps = [Scatterer(0.5, quantum_yield=0.75, phase_function=HenyeyGreenstein(-1.0), name="s")]
    elif kind == "dye":
        comps = [Luminophore(0.5, emission=np.array([[600.0, 1.0], [700.0, 1.0]]), quantum_yield=0.5, tau_rad=2.0,
                             phase_function=HenyeyGreenstein(-1.0), name="d"), Absorber(0.25, name="a")]
    elif kind == "surface":
        comps = []
    else:
        comps = [Scatterer(1.0, quantum_yield=1.0, phase_function=Cone(0.0), name="f"), Absorber(0.5, name="a")]
    b = Node(name="body", parent=w, geometry=kern.shape(H, "sphere" if kind != "forward" else "box", 4.0 if kind != "forward" else (8.0, 8.0, 8.0),
                                                       kern.material(1.5 if kind == "surface" else 1.0, comps)))
    b.recorders = [Recorder("lost", event="lost", histograms=[Histogram("pathlength", -1000, 1000, 2)]), Recorder("out", event="escaping")]
    return Scene(w)


def same_rows(H, a, ia, b, ib, me, label):
    """log ia of result a equals log ib of result b"""
    na, nb = int(a["counts"][ia]), int(b["counts"][ib])
    H.check(na == nb, label)
    if na != nb:
        return
    for k in range(na):
        x, y = ia * me + k, ib * me + k
        for key in KEYS:
            H.check(int(a[key][x]) == int(b[key][y]), label)
        for key in VEC:
            for j in range(3):
                same(H, a[key][x][j], b[key][y][j], label)
        for key in NUM:
            same(H, a[key][x], b[key][y], label)


def same(H, x, y, label):
    x, y = kern.num(x), kern.num(y)
    if isinstance(x, float) and isinstance(y, float) and math.isinf(x) and x == y:
        return
    H.check(x == y, label)


def starts(n):
    # rays that all enter the body head-on and scatter along the axis
    return [((0.0, 0.0, -2.0 + 0.25 * k), (0.0, 0.0, 1.0 if k % 2 == 0 else -1.0), 500.0 + 25 * k) for k in range(n)]


def run(H, K, c, rays, seed, me, ms, **kw):
    return K.bundle(c, [r[0] for r in rays], [r[1] for r in rays], [r[2] for r in rays], seed=seed, max_events=me, maxsteps=ms, emit_method=2,
                    logging=True, **kw)


def plus(H, seed, k):
    if H.mode == "sym":
        return BV(seed.t + k) if k else seed
    return (seed + k) & ((1 << 64) - 1)


def orders(o):
    return {"up": None, "down": lambda x: list(reversed(x)), "mix": lambda x: x[1::2] + x[0::2]}[o]


def replayed(fn):
    """a replay tries several seeds: the solver chooses the draws, which are no function of the seed it can invert"""
    import functools

    @functools.wraps(fn)
    def go(H, **kw):
        if H.mode == "sym":
            return fn(H, **kw)
        first = H.word("seed")
        for k in range(24):
            H.seed = (first + k * 0x9E3779B97F4A7C15) & ((1 << 64) - 1)
            fn(H, **kw)
            if any(not r[1] for r in H.results):
                return
    return go


def words(K, i):
    return [t for it, t in K.runs[-1].draws if it == i]


@replayed
def schedule(H, kind, n, order, tids, me=8, ms=2, record=1):
    """any schedule gives what the plain loop gives"""
    from pvtrace.engine.compiler import compile_scene
    K = Kernel(H, bv=True)
    c = compile_scene(scene(H, kind))
    seed = H.word("seed") if H.mode == "sym" else H.seed
    rays = starts(n)
    a = run(H, K, c, rays, seed, me, ms, record_every=record)
    if a is None:
        return
    wa = [words(K, i) for i in range(n)]
    T = 1 + max(tids)
    b = run(H, K, c, rays, seed, me, ms, record_every=record, num_threads=T, order=orders(order), tid_of=lambda i: tids[i],
            threads=list(range(T)) if T > 1 else None)
    if b is None:
        return
    lab = "a ray's results do not depend on the order or the threads of the loop"
    if H.mode == "sym":
        for i in range(n):
            wb = words(K, i)
            H.check(len(wa[i]) == len(wb), lab)
            for x, y in zip(wa[i], wb):
                H.word_check(x != y, lab)
    races(H, K, b, n, tids, me, record)
    rec = len(range(0, n, record)) if record else 0
    for j in range(rec):
        same_rows(H, a, j, b, j, me, lab)
    for key in ("rec_distinct", "rec_crossings", "rec_bins"):
        for x, y in zip(a[key].reshape(-1), b[key].reshape(-1)):
            H.check(int(x) == int(y), "tallies do not depend on the order or the threads of the loop")
    for x, y in zip(a["rec_sums"].reshape(-1), b["rec_sums"].reshape(-1)):
        H.check_close(kern.num(x) * 1e-6, kern.num(y) * 1e-6, "tallies do not depend on the order or the threads of the loop", tol=1e-9)


@replayed
def split(H, kind, n, me=8, ms=2):
    """a bundle gives what single rays with consecutive seeds give"""
    from pvtrace.engine.compiler import compile_scene
    K = Kernel(H, bv=True)
    c = compile_scene(scene(H, kind))
    seed = H.word("seed") if H.mode == "sym" else H.seed
    rays = starts(n)
    a = run(H, K, c, rays, seed, me, ms)
    if a is None:
        return
    wa = [words(K, i) for i in range(n)]
    lab = "a ray's results depend only on the seed plus its index"
    for i in range(n):
        b = run(H, K, c, rays[i:i + 1], plus(H, seed, i), me, ms)
        if b is None:
            return
        if H.mode == "sym":
            wb = words(K, 0)
            H.check(len(wa[i]) == len(wb), lab)
            for x, y in zip(wa[i], wb):
                H.word_check(x != y, lab)
        same_rows(H, a, i, b, 0, me, lab)


@replayed
def recording(H, kind, n, every, me=8, ms=2):
    """recording fewer rays changes neither the rays nor the rows of those recorded"""
    from pvtrace.engine.compiler import compile_scene
    K = Kernel(H, bv=True)
    c = compile_scene(scene(H, kind))
    seed = H.word("seed") if H.mode == "sym" else H.seed
    rays = starts(n)
    a = run(H, K, c, rays, seed, me, ms)
    b = run(H, K, c, rays, seed, me, ms, record_every=every, num_threads=n, tid_of=lambda i: i, threads=list(range(n))) if a is not None else None
    if b is None:
        return
    races(H, K, b, n, list(range(n)), me, every)
    idx = list(range(0, n, every)) if every else []
    H.check(len(b["counts"]) == len(idx), "one log for every recorded ray")
    for j, i in enumerate(idx):
        same_rows(H, a, i, b, j, me, "recording fewer rays does not change the recorded ones")
    for key in ("rec_distinct", "rec_crossings", "rec_bins"):
        for x, y in zip(a[key].reshape(-1), b[key].reshape(-1)):
            H.check(int(x) == int(y), "recording fewer rays does not change the tallies")


@replayed
def distinct(H, kind, n=2, ms=2):
    """rays with different indices have streams of their own"""
    from pvtrace.engine.compiler import compile_scene
    K = Kernel(H, bv=True)
    c = compile_scene(scene(H, kind))
    seed = H.word("seed") if H.mode == "sym" else H.seed
    r = starts(1)[0]
    a = run(H, K, c, [r] * n, seed, 8, ms)
    if a is None:
        return
    lab = "rays of a bundle do not share one random stream"
    if H.mode == "sym":
        import z3
        w = [words(K, i) for i in range(n)]
        if not all(w):
            return
        H.cov(True, 'draws were made')
        for i in range(n):
            for j in range(i):
                # is there a seed for which the first draws differ?
                k = (w[i][0].get_id(), w[j][0].get_id())
                if k not in ASKED:
                    S = z3.Solver()
                    S.set("timeout", 60000)
                    S.add(w[i][0] != w[j][0])
                    ASKED[k] = (S.check(), w[i][0], w[j][0])
                H.check(ASKED[k][0] != z3.unsat, lab)
    else:
        for i in range(n):
            for j in range(i):
                x, y = [float(a["position"][k * 8 + 1][2]) for k in (i, j)]
                n1, n2 = int(a["counts"][i]), int(a["counts"][j])
                H.check(x != y or n1 != n2 or int(a["kind"][i * 8 + 1]) not in (3,), lab)


ASKED = {}


def races(H, K, out, n, tids, me, record):
    """what one ray writes is in its own rows, or belongs to its thread"""
    R = K.runs[-1]
    wr, rd = {}, {}
    for it, a, size, w in R.log:
        if it is None or a >= (1 << 60):
            continue
        (wr if w else rd).setdefault(it, set()).add(a)
    lab = "no two threads touch what one of them writes"
    its = set(wr) | set(rd)
    for i in its:
        for j in its:
            if i != j and tids[i] != tids[j]:
                W = wr.get(i, set())
                H.check(not (W & wr.get(j, set())) and not (W & rd.get(j, set())), lab)
    for i in its:
        for j in its:
            if i < j:
                shared = wr.get(i, set()) & wr.get(j, set())
                for key in KEYS + VEC + NUM:
                    lo = K.out_raw[key].ctypes.data
                    hi = lo + K.out_raw[key].nbytes
                    H.check(not any(lo <= x < hi for x in shared), "no two rays write the same row")
    for key in KEYS + VEC + NUM:
        arr = K.out_raw[key]
        lo, item = arr.ctypes.data, arr.nbytes // max(1, len(arr))
        for i, W in wr.items():
            rows = {(x - lo) // item for x in W if lo <= x < lo + arr.nbytes}
            own = record and i % record == 0
            base = (i // record) * me if own else 0
            H.check(all(own and base <= r < base + me for r in rows), "a ray writes only the rows of its own index")


JOBS = [Job("uniform", uniform)]
ALL = ("quick", "thorough")
TH = ("thorough",)
for kind in ("scatter", "dye", "forward", "surface"):
    m2 = 1 if kind == "dye" else 2
    for ms, tiers in ((1, ALL), (2, TH)):
        for k, (n, o, tids) in enumerate(((2, "down", (0, 0)), (2, "up", (0, 1)), (2, "down", (1, 0)), (3, "mix", (0, 1, 0)), (3, "down", (0, 0, 1)),
                                          (4, "mix", (3, 1, 0, 2)))):
            JOBS.append(Job("schedule/%s/%d/%d" % (kind, k, ms), schedule, kind=kind, n=n, order=o, tids=tids, ms=max(ms, m2) if n < 3 else ms,
                            tiers=tiers if n < 3 or kind in ("forward", "surface") and n < 4 else TH, opts=dict(weight=n)))
        JOBS.append(Job("schedule/%s/short/%d" % (kind, ms), schedule, kind=kind, n=2, order="down", tids=(1, 0), me=2, ms=max(ms, m2), tiers=tiers))
        JOBS.append(Job("schedule/%s/every2/%d" % (kind, ms), schedule, kind=kind, n=3, order="down", tids=(1, 0, 1), ms=ms, record=2,
                        tiers=tiers if kind == "forward" else TH))
        JOBS.append(Job("split/%s/2/%d" % (kind, ms), split, kind=kind, n=2, ms=max(ms, m2), tiers=tiers))
        JOBS.append(Job("split/%s/3/%d" % (kind, ms), split, kind=kind, n=3, ms=ms, tiers=tiers if kind == "forward" else TH, opts=dict(weight=3)))
        for ev in (0, 2, 3):
            JOBS.append(Job("recording/%s/%d/%d" % (kind, ev, ms), recording, kind=kind, n=3, every=ev, ms=ms, tiers=tiers if kind == "forward" else TH,
                            opts=dict(weight=3)))
    JOBS.append(Job("distinct/" + kind, distinct, kind=kind, ms=1))
