"""Ray / sphere and ray / cylinder intersections of the Python geometry code.

The radius, length and ray origin are arbitrary; the direction is either arbitrary (sphere)
or taken from a list covering axial, radial and generic directions.  The expected crossings
are computed independently from the line equation."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P01"
PRELOAD = ("pvtrace.geometry.sphere", "pvtrace.geometry.cylinder")
BOUNDS = {"sphere": "radius 1e-3..100, origin coordinates in [-200,200], direction from a list of rational unit vectors, "
                    "plus arbitrary unit direction with listed origins",
          "cylinder": "length, radius 0.05..20, origin coordinates in [-50,50], directions from a list (axial, radial, generic)",
          "outside": "origins within 1e-4 (relative) of the surface unless exactly on it; tangency and cylinder rims within 1e-4"}
ASSUMPTIONS = ["double rounding is not modelled; tolerances 1e-7", "numpy.roots returns the exact roots in any order"]

def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def along(o, d, t):
    return tuple(o[i] + t * d[i] for i in range(3))


def compare(H, hits, expect, what):
    H.check(len(hits) == len(expect), what + ": number of forward crossings")
    if len(hits) == len(expect):
        for h, e in zip(hits, expect):
            H.check_close3(h, e, what + ": crossing position, nearest first", tol=1e-6)


def sphere_dir(H, f):
    """arbitrary origin off the surface, written in an orthonormal frame along the direction"""
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.001, 100)
    l, p, q = (H.real(n, -200, 200) for n in "lpq")
    d, e1, e2 = (conv(H, v) for v in FRAMES[f])
    o = tuple(l * d[i] + p * e1[i] + q * e2[i] for i in range(3))
    c = l * l + p * p + q * q - r * r
    disc = r * r - p * p - q * q
    m = r * r * 1e-4
    H.assume(H.Or(c >= m, c <= -m))
    H.assume(H.Or(disc >= m, disc <= -m))
    expect = []
    if disc > 0:
        s = H.sqrt(disc)
        if c < 0:
            expect = [along(o, d, -l + s)]
        elif l < 0:
            expect = [along(o, d, -l - s), along(o, d, -l + s)]
    compare(H, Sphere(r).intersections(o, d), expect, "sphere")


def sphere_anydir(H, o):
    """arbitrary direction, listed origin, arbitrary radius; soundness and count"""
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.01, 100)
    d = H.unit3("d")
    o = H.qv(*o)
    b = dot(o, d)
    c = dot(o, o) - r * r
    disc = b * b - c
    m = r * r * 1e-4
    H.assume(H.Or(c >= m, c <= -m))
    H.assume(H.Or(disc >= m, disc <= -m))
    hits = Sphere(r).intersections(o, d)
    n = 0
    if c < 0:
        n = 1
    elif disc > 0:
        if b < 0:
            n = 2
    H.check(len(hits) == n, "sphere: number of forward crossings")
    ts = []
    for h in hits:
        H.check_close(dot(h, h), r * r, "sphere: crossing lies on the surface", tol=1e-6)
        t = dot(tuple(h[i] - o[i] for i in range(3)), d)
        H.check(t >= 0, "sphere: crossing lies ahead")
        ts.append(t)
    if len(ts) == 2:
        H.check(ts[0] < ts[1], "sphere: nearest first")


def sphere_on_surface(H, u, d):
    """origin exactly on the surface: the far crossing must be there, the near one may"""
    from pvtrace.geometry.sphere import Sphere
    r = H.real("r", 0.001, 100)
    u, d = H.qv(*u), H.qv(*d)
    o = tuple(r * x for x in u)
    t = -2 * dot(o, d)
    hits = Sphere(r).intersections(o, d)
    far = [h for h in hits if dot(tuple(h[i] - o[i] for i in range(3)), d) > r * 1e-3]
    if dot(u, d) < 0:
        H.check(len(far) == 1, "sphere: ray entering from the surface leaves once")
        for h in far:
            H.check_close3(h, along(o, d, t), "sphere: far crossing position", tol=1e-6)
    else:
        H.check(len(far) == 0, "sphere: ray leaving from the surface meets nothing")
    H.check(len(hits) <= len(far) + 1, "sphere: at most the starting point besides the far crossing")


def cyl_expected(H, L, R, p, q, z, dh, dz):
    """parameters of the two crossings of the whole line with the capped cylinder (None: misses);
    assumes away tangency and rims"""
    m = R * R * 1e-4
    zs = None
    if dz != 0:
        z1, z2 = (-L / 2 - z) / dz, (L / 2 - z) / dz
        zs = (z1, z2) if dz > 0 else (z2, z1)
    if dh == 0:
        C = p * p + q * q - R * R
        H.assume(H.Or(C >= m, C <= -m))
        return zs if C < 0 else None
    D = R * R - q * q
    H.assume(H.Or(D >= m, D <= -m))
    if D < 0:
        return None
    s = H.sqrt(D)
    ls = ((-p - s) / dh, (-p + s) / dh)
    if zs is None:
        g = L / 2 - H.abs(z)
        H.assume(H.Or(g >= L * 1e-4, g <= -L * 1e-4))
        return ls if g > 0 else None
    e = R * 1e-4
    for a in ls:
        for b in zs:
            H.assume(H.Or(a - b >= e, b - a >= e))
    ta = ls[0] if ls[0] > zs[0] else zs[0]
    tb = ls[1] if ls[1] < zs[1] else zs[1]
    return (ta, tb) if ta < tb else None


def cyl_dir(H, h, dh, dz):
    """direction dh * h + dz * z with h a horizontal rational unit vector; the origin is written
    along h, across h and along z"""
    from pvtrace.geometry.cylinder import Cylinder
    L = H.real("L", 0.05, 20)
    R = H.real("R", 0.05, 20)
    p, q, z = (H.real(n, -50, 50) for n in "pqz")
    h, dh, dz = H.qv(*h), H.q(*dh), H.q(*dz)
    o = (p * h[0] - q * h[1], p * h[1] + q * h[0], z)
    d = (dh * h[0], dh * h[1], dz)
    seg = cyl_expected(H, L, R, p, q, z, dh, dz)
    expect = []
    if seg is not None:
        for t in seg:
            H.assume(H.Or(t >= R * 1e-4, t <= -R * 1e-4))
            if t > 0:
                expect.append(along(o, d, t))
    compare(H, Cylinder(L, R).intersections(o, d), expect, "cylinder")


def cyl_on_surface(H, face, h, dh, dz):
    """origin exactly on a cap or on the curved side"""
    from pvtrace.geometry.cylinder import Cylinder
    L = H.real("L", 0.05, 20)
    R = H.real("R", 0.05, 20)
    h, dh, dz = H.qv(*h), H.q(*dh), H.q(*dz)
    if face == "side":
        u = H.qv((3, 5), (-4, 5))
        p, q = R * u[0], R * u[1]
        z = H.real("z", -10, 10)
        H.assume(H.And(z < L * 0.49, z > -L * 0.49))
        out = u[0] * dh
    else:
        sg = 1 if face == "top" else -1
        p, q = H.real("p", -20, 20), H.real("q", -20, 20)
        z = sg * L / 2
        H.assume(p * p + q * q <= R * R * 0.98)
        out = sg * dz
    o = (p * h[0] - q * h[1], p * h[1] + q * h[0], z)
    d = (dh * h[0], dh * h[1], dz)
    seg = cyl_expected(H, L, R, p, q, z, dh, dz)
    hits = Cylinder(L, R).intersections(o, d)
    far = [x for x in hits if dot(tuple(x[i] - o[i] for i in range(3)), d) > R * 1e-5]
    if out < 0:
        H.check(len(far) == 1, "cylinder: ray entering from the surface leaves once")
        if seg is not None:
            for x in far:
                H.check_close3(x, along(o, d, seg[1]), "cylinder: far crossing position", tol=1e-6)
    else:
        H.check(len(far) == 0, "cylinder: ray leaving from the surface meets nothing")
    H.check(len(hits) <= len(far) + 1, "cylinder: at most the starting point besides the far crossing")


HDIRS = {"+z": ((1, 0), (0,), (1,)), "-z": ((1, 0), (0,), (-1,)), "+x": ((1, 0), (1,), (0,)), "-y": ((0, -1), (1,), (0,)),
         "xy": (((3, 5), (4, 5)), (1,), (0,)), "xz": ((-1, 0), (3, 5), (4, 5)), "gen1": (((5, 13), (-12, 13)), (3, 5), (-4, 5)),
         "gen2": (((-3, 5), (4, 5)), (12, 13), (5, 13)), "steep": (((4, 5), (3, 5)), (7, 25), (24, 25))}
JOBS = []
for i in range(len(FRAMES)):
    JOBS.append(Job("sphere/%d" % i, sphere_dir, f=i))
for n, (h, dh, dz) in HDIRS.items():
    JOBS.append(Job("cylinder/" + n, cyl_dir, h=h, dh=dh, dz=dz, opts=dict(weight=5)))
for i, o in enumerate([(0, 0, 0), (2, 0, 0), (0, 0, -7), (-1, 2, (1, 2))]):
    JOBS.append(Job("sphere_anydir/%d" % i, sphere_anydir, o=o, opts=dict(weight=3), tiers=("quick", "thorough") if i < 3 else ("thorough",)))
for i, (u, d) in enumerate([((0, 0, 1), ((2, 3), (1, 3), (-2, 3))), (((2, 3), (1, 3), (-2, 3)), (1, 0, 0)), (((3, 5), 0, (4, 5)), (0, 0, -1)),
                            ((0, -1, 0), ((2, 7), (6, 7), (-3, 7)))]):
    JOBS.append(Job("sphere_surface/%d" % i, sphere_on_surface, u=u, d=d))
for f, ns in (("top", ("+z", "-z", "xz", "gen1", "gen2")), ("bottom", ("+z", "-z", "xz", "gen1", "gen2")), ("side", ("+x", "xy", "xz", "gen1", "gen2"))):
    for n in ns:
        h, dh, dz = HDIRS[n]
        JOBS.append(Job("cylinder_surface/%s/%s" % (f, n), cyl_on_surface, face=f, h=h, dh=dh, dz=dz))
