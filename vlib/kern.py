"""Scenes for the compiled engine: real pvtrace objects, compiled by the real compiler, traced by the real kernel."""
from .llsym import Kernel
from .frames import FRAMES, conv

GENERATE, REFLECT, TRANSMIT, ABSORB, NONRADIATIVE, SCATTER, EMIT, EXIT, REACT, KILL = range(10)
PRELOAD = ("pvtrace.scene.scene", "pvtrace.scene.node", "pvtrace.material.material", "pvtrace.material.surface",
           "pvtrace.material.component", "pvtrace.material.utils", "pvtrace.material.distribution", "pvtrace.geometry.sphere",
           "pvtrace.geometry.box", "pvtrace.geometry.cylinder", "pvtrace.engine", "pvtrace.engine.compiler", "pvtrace.engine.api",
           "pvtrace.engine.recorder", "pvtrace.engine.tally", "pvtrace.engine.emit")
# the OpenMP runtime is a stand-in: one chunk per ray


def fake_trimesh(H):
    """box construction with symbolic sizes: the triangle mesh itself is not used by the engine"""
    if H.mode != "sym":
        return
    import trimesh
    from . import symx
    if getattr(trimesh.creation.box, "_pv", False):
        return
    real = trimesh.creation.box

    def box(extents=None, *a, **k):
        import numpy as np
        flat = list(np.ravel(np.array(extents, dtype=object))) if extents is not None else []
        if any(symx.issym(x) for x in flat):
            extents = (1.0, 1.0, 1.0)
        return real(extents, *a, **k)
    box._pv = True
    trimesh.creation.box = box


def material(n=1.0, components=None, null=False):
    from pvtrace.material.material import Material
    from pvtrace.material.surface import Surface, NullSurfaceDelegate
    kw = {}
    if components is not None:
        kw["components"] = components
    if null:
        kw["surface"] = Surface(delegate=NullSurfaceDelegate())
    return Material(refractive_index=n, **kw)


def shape(H, kind, dims, mat):
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.cylinder import Cylinder
    if kind == "sphere":
        return Sphere(dims, material=mat)
    if kind == "box":
        fake_trimesh(H)
        return Box(tuple(dims), material=mat)
    return Cylinder(dims[0], dims[1], material=mat)


def pose(H, frame, origin):
    """rows of the 4x4 placement with listed axes and (symbolic) origin"""
    import numpy
    cols = [conv(H, v) for v in FRAMES[frame]]
    return numpy.array([[cols[j][i] for j in range(3)] + [origin[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]])


class Ev:
    """one logged event"""

    def __init__(self, out, row):
        for k in ("kind", "hit", "container", "adjacent", "component", "source"):
            setattr(self, k, int(out[k][row]))
        for k in ("position", "direction", "normal"):
            setattr(self, k, tuple(num(out[k][row][i]) for i in range(3)))
        for k in ("wavelength", "travelled", "duration"):
            setattr(self, k, num(out[k][row]))


def num(x):
    import numpy as np
    return float(x) if isinstance(x, np.floating) else x


def events(out, ray, max_events):
    n = int(out["counts"][ray])
    return [Ev(out, ray * max_events + k) for k in range(n)]


def trace1(H, K, scene, pos, direction, wavelength=555.0, max_events=64, maxsteps=20, **kw):
    """history of one ray through a scene"""
    from pvtrace.engine.compiler import compile_scene
    c = compile_scene(scene)
    out = K.bundle(c, [pos], [direction], [wavelength], max_events=max_events, maxsteps=maxsteps, **kw)
    return (c, None, out) if out is None else (c, events(out, 0, max_events), out)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def along(o, d, t):
    return tuple(o[i] + t * d[i] for i in range(3))
