"""Spectral distributions: evaluation, cumulative function, look-up and sampling of arbitrary small tables."""
import math
from vlib.harness import Job

PROPERTY = "P11"
PRELOAD = ("pvtrace.material.distribution", "pvtrace.geometry.utils")
BOUNDS = {"tables": "2 to 4 rows (5 in the thorough tier) with any ascending abscissae in [200,1200] at least 1e-3 apart and any values in [0,1e3], "
                    "total at least 1e-3", "queries": "any single value, and arrays of two values",
          "outside": "histograms are right-closed discrete distributions on the abscissae, as implemented; a probability of exactly zero"}
ASSUMPTIONS = ["double rounding not modelled beyond witness replays"]


def table(H, n, positive=False):
    import numpy as np
    xs = [H.real("x0", 200, 1200)]
    for i in range(1, n):
        x = H.real("x%d" % i, 200, 1200)
        H.assume(x >= xs[-1] + 1e-3)
        xs.append(x)
    ys = [H.real("y%d" % i, 1e-2 if positive else 0, 1000) for i in range(n)]
    return xs, ys


def build(H, xs, ys, hist):
    import numpy as np
    from pvtrace.material.distribution import Distribution
    return Distribution(np.array(xs), np.array(ys), hist=hist)


def areas(xs, ys, hist):
    """cumulative content at every abscissa"""
    if hist:
        out = [ys[0]]
        for y in ys[1:]:
            out.append(out[-1] + y)
        return out
    out = [0.0]
    for i in range(len(xs) - 1):
        out.append(out[-1] + (xs[i + 1] - xs[i]) * (ys[i] + ys[i + 1]) / 2)
    return out


def first_step(xs, x, strict):
    """index of the segment holding x (strict: x <= xs[i])"""
    for i in range(1, len(xs)):
        if bool(x <= xs[i]):
            return i
    return len(xs) - 1


def cumulative(H, n, hist):
    xs, ys = table(H, n)
    A = areas(xs, ys, hist)
    H.assume(A[-1] >= 1e-3)
    d = build(H, xs, ys, hist)
    i = H.pick("i", list(range(n)))
    v = d.lookup(xs[i])
    if H.mode == "sym":
        H.check_close(v * A[-1], A[i], "the cumulative function is the share of the area below each point", tol=1e-6)
        if i == n - 1:
            H.check_close(v, 1.0, "the cumulative function ends at one")
        if i == 0 and not hist:
            H.check_close(v, 0.0, "the cumulative function starts at zero")
    else:
        H.check_close(v, A[i] / A[-1], "the cumulative function is the share of the area below each point", tol=1e-6)


def monotone(H, n, hist):
    xs, ys = table(H, n)
    A = areas(xs, ys, hist)
    H.assume(A[-1] >= 1e-3)
    d = build(H, xs, ys, hist)
    a, b = H.real("a", 200, 1200), H.real("b", 200, 1200)
    H.assume(H.And(xs[0] <= a, a <= b, b <= xs[-1]))
    pa, pb = d.lookup(a), d.lookup(b)
    H.check_le(pa, pb, "the cumulative function never falls", tol=1e-9)
    H.check_ge(pa, 0.0, "probabilities are at least zero", tol=1e-9)
    H.check_le(pb, 1.0, "probabilities are at most one", tol=1e-9)


def sample(H, n, hist):
    xs, ys = table(H, n, positive=True)
    A = areas(xs, ys, hist)
    d = build(H, xs, ys, hist)
    p = H.real("p", 0, 1)
    if hist:
        H.assume(p >= 1e-12)
    x = d.sample(p)
    H.check(H.And(x >= xs[0], x <= xs[-1]), "samples stay in the range of the spectrum")
    if not hist:
        H.check_close(d.lookup(x), p, "looking up a sample returns its probability", tol=1e-6)
        return
    k = None
    for i in range(n):
        if bool(H.abs(x - xs[i]) <= 1e-9):
            k = i
            break
    if k is None:
        H.fail("samples of a histogram are its abscissae")
        return
    lo = A[k - 1] if k else 0.0
    H.check(H.And(lo <= p * A[-1] + 1e-9 * A[-1], p * A[-1] <= A[k] + 1e-9 * A[-1]), "each bin is sampled for its share of the probabilities")


def inverse(H, n, hist):
    """sample(lookup(x)) returns x (or the right edge of its bin)"""
    xs, ys = table(H, n, positive=True)
    d = build(H, xs, ys, hist)
    x = H.real("x", 200, 1200)
    H.assume(H.And(xs[0] <= x, x <= xs[-1]))
    if hist and H.mode != "sym":
        H.assume(all(abs(x - v) > 1e-9 for v in xs))
    got = d.sample(d.lookup(x))
    if hist:
        i = 0 if bool(x <= xs[0]) else first_step(xs, x, True)
        H.check_close(got, xs[i], "sampling the probability of a value returns its bin", tol=1e-6)
    else:
        H.check_close(got, x, "sampling the probability of a value returns the value", tol=1e-5)


def inrange(H, n, hist):
    """samples of tables with empty stretches stay in range and at points with some spectrum"""
    xs, ys = table(H, n)
    A = areas(xs, ys, hist)
    H.assume(A[-1] >= 1e-3)
    d = build(H, xs, ys, hist)
    p = H.real("p", 0, 1)
    x = d.sample(p)
    H.check(H.And(x >= xs[0], x <= xs[-1]), "samples stay in the range of the spectrum")


def evaluate(H, n, hist):
    xs, ys = table(H, n)
    H.assume(areas(xs, ys, hist)[-1] >= 1e-3)
    d = build(H, xs, ys, hist)
    x = H.real("x", 200, 1200)
    H.assume(H.And(xs[0] <= x, x <= xs[-1]))
    v = d(x)
    i = first_step(xs, x, True)
    if hist:
        if H.mode != "sym":
            H.assume(all(abs(x - q) > 1e-9 for q in xs[1:]))
        H.check_close(v, ys[0] if bool(x <= xs[0]) else ys[i], "evaluation returns the bin's value")
    else:
        # compared without dividing
        w = xs[i] - xs[i - 1]
        H.check_close(v * w, ys[i - 1] * w + (ys[i] - ys[i - 1]) * (x - xs[i - 1]), "evaluation interpolates the given points", tol=1e-5)


def constant(H, hist):
    import numpy as np
    from pvtrace.material.distribution import Distribution
    y = H.real("y", 0, 1e6)
    d = Distribution(None, y, hist=hist)
    H.check_close(d(H.real("x", -1e6, 1e6)), y, "a constant has the same value everywhere")
    v = d(np.array([300.0, 400.0]))
    H.check(len(v) == 2, "evaluating an array returns one value per element")
    for k in range(2):
        H.check_close(v[k], y, "a constant has the same value everywhere")


def arrays(H, hist):
    """array arguments are treated element by element"""
    import numpy as np
    xs, ys = table(H, 3, positive=True)
    d = build(H, xs, ys, hist)
    a, b = H.real("a", 200, 1200), H.real("b", 200, 1200)
    H.assume(H.And(xs[0] <= a, a <= xs[-1], xs[0] <= b, b <= xs[-1]))
    p, q = H.real("p", 0.01, 1), H.real("q", 0.01, 1)
    for name, f, args in (("evaluation", d, (a, b)), ("look-up", d.lookup, (a, b)), ("sampling", d.sample, (p, q))):
        v = f(np.array(args))
        H.check(len(v) == 2, "evaluating an array returns one value per element")
        for k in range(2):
            H.check_close(v[k], f(args[k]), name + " of an array agrees with single values", tol=1e-9)


def rejected(H, n, hist, why):
    import numpy as np
    xs = [H.real("x%d" % i, 200, 1200) for i in range(n)]
    ys = [H.real("y%d" % i, 0, 1000) for i in range(n)]
    k = H.pick("k", list(range(n)))
    bad = None
    if why == "unsorted":
        k = max(k, 1)
        H.assume(xs[k] <= xs[k - 1])
        for i in range(1, n):
            if i != k:
                H.assume(xs[i] > xs[i - 1])
    else:
        for i in range(1, n):
            H.assume(xs[i] >= xs[i - 1] + 1e-3)
        H.assume(sum(ys) >= 1)
    if why in ("nan", "inf"):
        ys[k] = float(why)
    if why == "negative":
        ys[k] = H.real("neg", -1000, -1e-6)
    try:
        d = build(H, xs, ys, hist)
    except ValueError:
        H.check(True, "an invalid table is rejected")
        return
    H.fail("an invalid table is rejected")


def outside(H, hist, f):
    xs, ys = table(H, 3, positive=True)
    d = build(H, xs, ys, hist)
    x = H.real("x", -100, 3000)
    if f == "sample":
        x = H.real("q", -10, 10)
        H.assume(H.Or(x < -1e-9, x > 1 + 1e-9))
    else:
        H.assume(H.Or(x < xs[0] - 1e-9, x > xs[-1] + 1e-9))
    try:
        {"sample": d.sample, "lookup": d.lookup, "eval": d}[f](x)
    except ValueError:
        H.check(True, "arguments outside the range are rejected")
        return
    H.fail("arguments outside the range are rejected")


def functions(H):
    import numpy as np
    from pvtrace.material.distribution import Distribution
    a = [H.real("a%d" % i, 0, 10) for i in range(3)]
    b = [H.real("b%d" % i, 0, 10) for i in range(3)]
    H.assume(sum(a) >= 1)
    d = Distribution.from_functions([400.0, 500.0, 700.0], [lambda x: np.array(a), lambda x: np.array([b[0], float("nan"), b[2]])])
    i = H.pick("i", [0, 1, 2])
    H.check_close(d([400.0, 500.0, 700.0][i]), a[i] + (b[i] if i != 1 else 0), "a distribution of functions is their sum, undefined values count as zero")


JOBS = []
for hist in (False, True):
    h = "hist" if hist else "interp"
    for n in (2, 3, 4, 5):
        t = ("quick", "thorough") if n < 4 or (n == 4 and hist) else ("thorough",)
        for f in (cumulative, evaluate, sample, inverse, inrange, monotone):
            if f is monotone and n > 3:
                continue
            JOBS.append(Job("%s/%s/%d" % (f.__name__, h, n), f, n=n, hist=hist, tiers=t))
    JOBS.append(Job("constant/" + h, constant, hist=hist))
    JOBS.append(Job("arrays/" + h, arrays, hist=hist))
    for w in ("unsorted", "nan", "inf", "negative"):
        JOBS.append(Job("rejected/%s/%s" % (w, h), rejected, n=3, hist=hist, why=w))
    for f in ("sample", "lookup", "eval"):
        JOBS.append(Job("outside/%s/%s" % (f, h), outside, hist=hist, f=f))
JOBS.append(Job("functions", functions))
