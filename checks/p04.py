"""Node placement and coordinate changes.

Nodes are placed by arbitrary translations, rotations by arbitrary angles about listed and arbitrary
axes, assigned locations and look directions; the resulting poses and the mappings between nodes of
trees up to depth three are compared with an independent composition."""
from vlib.harness import Job
from vlib.frames import FRAMES, conv

PROPERTY = "P04"
PRELOAD = ("pvtrace.scene.node", "pvtrace.scene.scene", "pvtrace.light.ray")
BOUNDS = {"placement": "sequences of up to three operations from translate, rotate, assign location, look; arbitrary angles, "
                       "translations in [-100,100], rotation axes from a list plus one arbitrary axis",
          "trees": "two nodes in trees of depth up to three, arbitrary points and vectors"}
ASSUMPTIONS = ["sine and cosine of an angle are any point of the unit circle"]

AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), ((2, 3), (-1, 3), (2, 3)), (0, (3, 5), (-4, 5))]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def rodrigues(v, s, c, a):
    """v turned by the angle with sine s and cosine c about the unit axis a"""
    k = dot(a, v)
    x = cross(a, v)
    return tuple(v[i] * c + x[i] * s + a[i] * k * (1 - c) for i in range(3))


class Ref:
    """independent model of a placement: images of the three axes and the origin"""

    def __init__(self, H, loc=(0.0, 0.0, 0.0)):
        self.H = H
        self.cols = [H.qv(1, 0, 0), H.qv(0, 1, 0), H.qv(0, 0, 1)]
        self.loc = tuple(loc)

    def translate(self, v):
        self.loc = tuple(self.loc[i] + v[i] for i in range(3))

    def place(self, v):
        self.loc = tuple(v)

    def rotate(self, th, a):
        s, c = self.H.sin(th), self.H.cos(th)
        self.cols = [rodrigues(k, s, c, a) for k in self.cols]

    def vector(self, v):
        return tuple(sum(self.cols[j][i] * v[j] for j in range(3)) for i in range(3))

    def point(self, p):
        v = self.vector(p)
        return tuple(v[i] + self.loc[i] for i in range(3))

    def inv_vector(self, v):
        return tuple(dot(self.cols[i], v) for i in range(3))

    def inv_point(self, p):
        return self.inv_vector(tuple(p[i] - self.loc[i] for i in range(3)))


def apply_op(H, node, ref, op, k):
    if op == "t":
        v = H.vec3("t%d" % k, -100, 100)
        node.translate(v)
        ref.translate(v)
    elif op == "l":
        v = H.vec3("l%d" % k, -100, 100)
        node.location = v
        ref.place(v)
    else:
        a = H.qv(*AXES[int(op[1])])
        th = H.real("th%d" % k, -6, 6)
        if len(op) > 2:
            node.rotate(th, tuple(x * 3 for x in a))    # axes need not have unit length
        else:
            node.rotate(th, a)
        ref.rotate(th, a)


def check_pose(H, node, ref):
    P = node.pose
    for j in range(3):
        for i in range(3):
            H.check_close(P[i][j], ref.cols[j][i], "orientation after the placement operations")
    H.check_close3(tuple(P[i][3] for i in range(3)), ref.loc, "position after the placement operations")
    H.check_close3(tuple(node.location), ref.loc, "reported location is the placed position")
    for j in range(4):
        H.check_close(P[3][j], 1.0 if j == 3 else 0.0, "placement is an affine transform")


def ops(H, seq, via):
    from pvtrace.scene.node import Node
    if via == "location":
        l = H.vec3("o", -100, 100)
        n, r = Node(name="n", location=l), Ref(H, l)
    else:
        n, r = Node(name="n"), Ref(H)
    for k, op in enumerate(seq):
        apply_op(H, n, r, op, k)
    check_pose(H, n, r)
    # rigid: lengths and angles are preserved
    world = Node(name="w")
    n.parent = world
    u, v = H.vec3("u", -10, 10), H.vec3("v", -10, 10)
    U, V = n.vector_to_node(u, world), n.vector_to_node(v, world)
    H.check_close(dot(U, V), dot(u, v), "placement preserves lengths and angles", tol=1e-6)
    # pose assignment keeps the placement
    m = Node(name="m")
    m.pose = n.pose
    check_pose(H, m, r)


def arbitrary_axis(H):
    from pvtrace.scene.node import Node
    a = H.unit3("a")
    th = H.real("th", -6, 6)
    n, r = Node(name="n"), Ref(H)
    n.translate(H.vec3("t", -100, 100))
    n.rotate(th, a)
    r.rotate(th, a)
    for j in range(3):
        for i in range(3):
            H.check_close(n.pose[i][j], r.cols[j][i], "orientation after rotating about an arbitrary axis")


def look(H, pre, scaled, case):
    from pvtrace.scene.node import Node
    n, r = Node(name="n"), Ref(H)
    t = H.vec3("t", -100, 100)
    n.translate(t)
    if pre is not None:
        cols = [conv(H, c) for c in FRAMES[pre]]
        pose = [[cols[j][i] for j in range(3)] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]
        import numpy
        n.pose = numpy.array(pose)
        r.cols = cols
    if case == "any":
        e = H.unit3("d")
        H.assume(H.And(e[2] <= 0.999, e[2] >= -0.999))
        d = r.vector(e)
    elif case == "same":
        d = tuple(r.cols[2])
    else:
        d = tuple(-x for x in r.cols[2])
    k = H.real("k", 0.1, 10) if scaled else 1
    n.look_at(tuple(x * k for x in d))
    H.check_close3(tuple(n.pose[i][2] for i in range(3)), d, "looking along a direction turns the face there", tol=1e-6)
    H.check_close3(tuple(n.pose[i][3] for i in range(3)), t, "looking keeps the position")
    for i in range(2):
        for j in range(i, 3):
            ci = tuple(n.pose[q][i] for q in range(3))
            cj = tuple(n.pose[q][j] for q in range(3))
            H.check_close(dot(ci, cj), 1.0 if i == j else 0.0, "looking keeps the placement rigid", tol=1e-6)


def place(H, node, k, axis):
    r = Ref(H)
    t = H.vec3("t%d" % k, -100, 100)
    node.translate(t)
    r.translate(t)
    if axis is not None:
        th = H.real("th%d" % k, -6, 6)
        a = H.qv(*AXES[axis])
        node.rotate(th, a)
        r.rotate(th, a)
    return r


def tree(H, shape, axes):
    """points, vectors and rays between two nodes of a tree"""
    from pvtrace.scene.node import Node
    from pvtrace.light.ray import Ray
    world = Node(name="w")
    a = Node(name="a", parent=world)
    refs = {"a": place(H, a, 0, axes[0])}
    nodes = {"w": world, "a": a}
    if shape in ("chain", "sideways", "deep"):
        b = Node(name="b", parent=a)
        refs["b"] = place(H, b, 1, axes[1])
        nodes["b"] = b
    if shape in ("sideways", "siblings"):
        c = Node(name="c", parent=world)
        refs["c"] = place(H, c, 2, axes[2])
        nodes["c"] = c
    if shape == "deep":
        c = Node(name="c", parent=nodes["b"])
        refs["c"] = place(H, c, 2, axes[2])
        nodes["c"] = c
    src, dst = {"one": ("a", "w"), "chain": ("b", "w"), "sideways": ("b", "c"), "siblings": ("a", "c"), "deep": ("c", "a")}[shape]
    up = {"one": ["a"], "chain": ["b", "a"], "sideways": ["b", "a"], "siblings": ["a"], "deep": ["c", "b"]}[shape]
    down = {"sideways": ["c"], "siblings": ["c"]}.get(shape, [])
    p, v = H.vec3("p", -10, 10), H.vec3("v", -1, 1)
    ep, ev = p, v
    for n in up:
        ep, ev = refs[n].point(ep), refs[n].vector(ev)
    for n in down:
        ep, ev = refs[n].inv_point(ep), refs[n].inv_vector(ev)
    gp, gv = nodes[src].point_to_node(p, nodes[dst]), nodes[src].vector_to_node(v, nodes[dst])
    H.check_close3(gp, ep, "points map through the tree by composing placements", tol=1e-6)
    H.check_close3(gv, ev, "directions map through the tree ignoring translation", tol=1e-6)
    bp, bv = nodes[dst].point_to_node(gp, nodes[src]), nodes[dst].vector_to_node(gv, nodes[src])
    H.check_close3(bp, p, "points return to themselves", tol=1e-6)
    H.check_close3(bv, v, "directions return to themselves", tol=1e-6)
    wl, tr, du = H.real("wl", 200, 2000), H.real("tr", 0, 100), H.real("du", 0, 1)
    ray = Ray(position=p, direction=v, wavelength=wl, travelled=tr, duration=du, source="s")
    q = ray.representation(nodes[src], nodes[dst])
    H.check_close3(q.position, ep, "ray position in another frame", tol=1e-6)
    H.check_close3(q.direction, ev, "ray direction in another frame", tol=1e-6)
    H.check(H.And(q.wavelength == wl, q.travelled == tr, q.duration == du), "changing frame keeps the ray's other attributes")
    H.check(q.source == "s", "changing frame keeps the ray's source")
    H.check_close3(ray.position, p, "the original ray is unchanged")
    same = nodes[src].point_to_node(p, nodes[src])
    H.check_close3(same, p, "a node maps to itself by identity")


JOBS = []
for seq in [("t",), ("r3",), ("r2x",), ("t", "r0"), ("r1", "t"), ("l", "r4"), ("r0", "l"), ("t", "t"), ("r2", "r0"), ("t", "r3", "t"),
            ("r1", "t", "r2"), ("l", "r0", "r1")]:
    JOBS.append(Job("ops/" + "".join(seq), ops, seq=seq, via="plain"))
JOBS.append(Job("ops/at-r3-t", ops, seq=("r3", "t"), via="location"))
JOBS.append(Job("ops/at-t", ops, seq=("t",), via="location"))
JOBS.append(Job("axis", arbitrary_axis))
for pre in (None, 1, 3):
    for sc in (False, True) if pre in (None, 1) else (False,):
        JOBS.append(Job("look/%s/%s" % (pre, "scaled" if sc else "unit"), look, pre=pre, scaled=sc, case="any"))
    for case in ("same", "opposite"):
        JOBS.append(Job("look/%s/%s" % (pre, case), look, pre=pre, scaled=False, case=case))
for sh, ax in [("one", (3,)), ("one", (None,)), ("chain", (0, 2)), ("chain", (None, 4)), ("siblings", (1, None, 2)), ("sideways", (0, None, 2)),
               ("sideways", (None, 1, None)), ("deep", (None, 1, 2)), ("deep", (3, 0, None))]:
    JOBS.append(Job("tree/%s/%s" % (sh, "".join("n" if x is None else str(x) for x in ax)), tree, shape=sh, axes=ax))
