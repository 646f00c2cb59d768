"""Harness contexts.

A harness is a Python function fn(H, **params) that builds inputs with H, runs the real
pvtrace code and states assertions with H.check*.  The same function runs in two modes:

* SymH      -- inputs are solver variables, assertions are solver queries
* ConcH     -- inputs and random draws are the numbers of a solver model; assertions are
               evaluated on the unpatched implementation (replay / witness validation)
"""
import math, random
from fractions import Fraction


class Job:
    def __init__(self, name, fn, timeout=None, tiers=("quick", "thorough"), opts=None, **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.timeout = timeout
        self.tiers = tiers
        self.opts = opts or {}


def known_findings():
    import os, re
    out = {}
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
    for l in open(p):
        m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l)
        if m:
            out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


class AssumedOut(BaseException):
    """a replayed run left the assumed input space: what it reported before still counts"""


LADDER = (0.3, 1e-2, 1e-3, 1e-5)


class SymH:
    mode = "sym"

    def __init__(self, eng, tier="quick"):
        from . import symx, npshim
        self.sx = symx
        self.ns = npshim
        self.E = eng
        self.tier = tier
        self.z3 = symx.z3

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return self.E.real(name, lo, hi, lo_open, hi_open)

    def int(self, name, lo=None, hi=None):
        return self.E.int(name, lo, hi)

    def bool(self, name):
        return self.E.bool(name)

    def word(self, name):
        """an arbitrary 64 bit machine word (decided with word_check)"""
        from .llsym import BV
        if not hasattr(self, "_words"):
            self._words = {}
        self._words[name] = self.z3.BitVec(name, 64)
        return BV(self._words[name])

    def word_check(self, bad, label):
        """no value of the words makes bad true"""
        return self.E.word_check(bad, label, self._words)

    def flag(self, name):
        """a symbolic boolean that is split on immediately -> python bool"""
        return bool(self.E.bool(name))

    def pick(self, name, options):
        """an arbitrary member of a finite list (split on immediately)"""
        n = len(options)
        if n == 1:
            return options[0]
        i = self.E.int(name, 0, n - 1)
        return options[self.E.concretize_int(i.t)]

    def size(self, name, lo, hi):
        """a concrete-by-case-split integer"""
        i = self.E.int(name, lo, hi)
        return self.E.concretize_int(i.t)

    def angle(self, name, c_lo=0, c_hi=1):
        return self.E.angle_input(name, c_lo, c_hi)

    def unit3(self, name):
        x = self.real(name + "x", -1, 1)
        y = self.real(name + "y", -1, 1)
        z = self.real(name + "z", -1, 1)
        self.assume(x * x + y * y + z * z == 1)
        self.E.rule(z.t, (1 - x * x - y * y).t)
        return (x, y, z)

    def unit2(self, name):
        x = self.real(name + "x", -1, 1)
        y = self.real(name + "y", -1, 1)
        self.assume(x * x + y * y == 1)
        self.E.rule(y.t, (1 - x * x).t)
        return (x, y)

    def vec3(self, name, lo=None, hi=None):
        return tuple(self.real(name + c, lo, hi) for c in "xyz")

    def q(self, a, b=1):
        return self.sx.SymReal(self.sx.rv(Fraction(a, b)))

    def qv(self, *ab):
        return tuple(self.q(*(x if isinstance(x, tuple) else (x,))) for x in ab)

    # logic
    def _t(self, c):
        return self.sx.bt(c)

    def And(self, *c):
        return self.sx.mkb(self.z3.simplify(self.z3.And(*[self._t(x) for x in c]))) if c else True

    def Or(self, *c):
        return self.sx.mkb(self.z3.simplify(self.z3.Or(*[self._t(x) for x in c]))) if c else False

    def Not(self, c):
        return self.sx.mkb(self.z3.simplify(self.z3.Not(self._t(c))))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.sx.mkb(self.z3.simplify(self._t(a) == self._t(b)))

    def If(self, c, a, b):
        return self.ns.ite(self.sx.mkb(self._t(c)) if not isinstance(c, bool) else c, a, b)

    def sqrt(self, x):
        return self.sx.mk(self.sx.rt(x)).sqrt()

    def log(self, x):
        return self.sx.mk(self.sx.rt(x)).log()

    def acos(self, x):
        return self.sx.ENG.arccos(self.sx.rt(x))

    def sin(self, x):
        return self.sx.mk(self.sx.rt(x)).sin() if not self.sx.issym(x) else x.sin()

    def cos(self, x):
        return self.sx.mk(self.sx.rt(x)).cos() if not self.sx.issym(x) else x.cos()

    def floor(self, x):
        return self.sx.mk(self.sx.rt(x)).floor()

    def finite(self, x):
        if isinstance(x, self.sx.NonFinite):
            return False
        if self.sx.issym(x):
            return True
        return math.isfinite(x)

    def abs(self, x):
        return abs(x)

    def assume(self, c):
        self.E.assume(c)

    # assertions
    def check(self, cond, label, **k):
        if isinstance(cond, self.sx.SymNum):
            cond = cond != 0
        return self.E.check(cond, label)

    def fail(self, label):
        self.E.check(False, label)

    def check_iff(self, a, x, y, label, slack=1e-9):
        """a holds exactly when x < y (replays ignore ties up to rounding)"""
        return self.check(self.Iff(a, x < y), label)

    def check_close(self, a, b, label, tol=1e-7):
        sx = self.sx
        if not self.finite(a) or not self.finite(b):
            if isinstance(a, sx.NonFinite) and not sx.issym(b):
                return self.E.check(a == b, label)
            return self.E.check(bool(not self.finite(a) and not self.finite(b) and a == b), label)
        ta, tb = sx.rt(a), sx.rt(b)
        if ta is sx.z3.RealVal or ta is NotImplemented or tb is NotImplemented:
            return self.E.check(False, label)
        return self.E.check_margin(ta - tb, label, tol, both=True)

    def check_le(self, a, b, label, tol=1e-7):
        sx = self.sx
        if not self.finite(a) or not self.finite(b):
            return self.E.check(a <= b, label)
        return self.E.check_margin(sx.rt(a) - sx.rt(b), label, tol, both=False)

    def check_ge(self, a, b, label, tol=1e-7):
        return self.check_le(b, a, label, tol)

    def check_close3(self, a, b, label, tol=1e-7):
        if len(a) != len(b):
            return self.E.check(False, label)
        for i in range(len(a)):
            self.check_close(a[i], b[i], label, tol)

    def note(self, s):
        self.E.note(s)

    def known(self, fid):
        """the path shows a defect listed in known_findings.txt (reported, not failed); unlisted ones fail"""
        if fid in known_findings():
            self.E.note("known:" + fid)
            self.E.check(True, "known finding " + fid)
        else:
            self.E.check(False, "unlisted finding " + fid)

    def cov(self, c, label):
        """reachability marker: some path must satisfy c"""
        self.E.cover(c, label)

    def value(self, x):
        return x


class ConcH:
    mode = "conc"

    def __init__(self, inputs, tier="quick"):
        self.inputs = inputs
        self.results = []       # (label, ok, detail)
        self.used = {}
        self.tier = tier
        self.assumed_out = False

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        d = 0.5
        if lo is not None and hi is not None:
            d = (float(lo) + float(hi)) / 2
        elif lo is not None:
            d = float(lo) + 1
        elif hi is not None:
            d = float(hi) - 1
        v = float(self._get(name, d))
        if lo is not None and v < float(lo):
            v = float(lo)
        if hi is not None and v > float(hi):
            v = float(hi)
        if hi is not None and hi_open and v >= float(hi):
            v = math.nextafter(float(hi), -math.inf)
        if lo is not None and lo_open and v <= float(lo):
            v = math.nextafter(float(lo), math.inf)
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else (hi if hi is not None else 0)))

    def word(self, name):
        return int(self._get(name, 88172645463325252)) & ((1 << 64) - 1)

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def pick(self, name, options):
        if len(options) == 1:
            return options[0]
        return options[int(self._get(name, 0))]

    def size(self, name, lo, hi):
        return int(self._get(name, lo))

    def angle(self, name, c_lo=0, c_hi=1):
        c = self.real(name + "_cos", c_lo, c_hi)
        return math.acos(max(-1.0, min(1.0, c)))

    def unit3(self, name):
        v = [self.real(name + c, -1, 1) for c in "xyz"]
        n = math.sqrt(sum(x * x for x in v))
        if n > 0:
            v = [x / n for x in v]
        return tuple(v)

    def unit2(self, name):
        v = [self.real(name + c, -1, 1) for c in "xy"]
        n = math.sqrt(sum(x * x for x in v))
        return tuple(x / n for x in v) if n > 0 else (1.0, 0.0)

    def vec3(self, name, lo=None, hi=None):
        return tuple(self.real(name + c, lo, hi) for c in "xyz")

    def q(self, a, b=1):
        return float(Fraction(a, b))

    def qv(self, *ab):
        return tuple(self.q(*(x if isinstance(x, tuple) else (x,))) for x in ab)

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not c

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float("nan")

    def log(self, x):
        return math.log(x) if x > 0 else float("-inf")

    def acos(self, x):
        return math.acos(max(-1.0, min(1.0, x)))

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def floor(self, x):
        return math.floor(x)

    def finite(self, x):
        return math.isfinite(x)

    def abs(self, x):
        return abs(x)

    def assume(self, c):
        if not c:
            raise AssumedOut()

    def check(self, cond, label, **k):
        ok = bool(cond)
        self.results.append((label, ok, ""))
        return ok

    def fail(self, label):
        self.results.append((label, False, "reached"))

    def check_iff(self, a, x, y, label, slack=1e-9):
        ok = bool(a) == bool(x < y) or abs(x - y) <= slack * max(1.0, abs(x), abs(y))
        self.results.append((label, ok, "%r for %r < %r" % (bool(a), x, y)))
        return ok

    def check_close(self, a, b, label, tol=1e-7):
        try:
            a = float(a)
            b = float(b)
        except (TypeError, ValueError):
            self.results.append((label, False, "not a number: %r vs %r" % (a, b)))
            return False
        ok = (a == b) or (abs(a - b) <= tol * 1.0 + 1e-12 * max(abs(a), abs(b)))
        self.results.append((label, ok, "got %r expected %r" % (a, b)))
        return ok

    def check_le(self, a, b, label, tol=1e-7):
        ok = a <= b + tol
        self.results.append((label, bool(ok), "%r <= %r" % (a, b)))
        return ok

    def check_ge(self, a, b, label, tol=1e-7):
        return self.check_le(b, a, label, tol)

    def check_close3(self, a, b, label, tol=1e-7):
        if len(a) != len(b):
            self.results.append((label, False, "length %d vs %d" % (len(a), len(b))))
            return False
        return all([self.check_close(x, y, label, tol) for x, y in zip(a, b)])

    def note(self, s):
        pass

    def known(self, fid):
        self.results.append(("known finding " + fid if fid in known_findings() else "unlisted finding " + fid, fid in known_findings(), ""))

    def cov(self, c, label):
        pass

    def value(self, x):
        return x


def script_random(H):
    """scripted np.random / random for replays: the k-th uniform draw is input u<k>"""
    import numpy as np
    R = np.random
    state = {"k": 0}

    def u():
        state["k"] += 1
        v = H.inputs.get("u%d" % state["k"], 0.5)
        v = min(max(float(v), 0.0), math.nextafter(1.0, 0.0))
        H.used["u%d" % state["k"]] = v
        return v

    def many(size, f):
        if size is None:
            return f()
        shape = (size,) if not isinstance(size, tuple) else size
        out = np.empty(tuple(int(s) for s in shape), dtype=float)
        for i in np.ndindex(out.shape):
            out[i] = f()
        return out

    saved = {}

    def setf(name, f):
        saved[name] = getattr(R, name)
        setattr(R, name, f)
    setf("uniform", lambda low=0.0, high=1.0, size=None: many(size, lambda: low + (high - low) * u()))
    setf("random", lambda size=None: many(size, u))
    setf("random_sample", lambda size=None: many(size, u))
    setf("rand", lambda *s: many(tuple(s) if s else None, u))
    setf("exponential", lambda scale=1.0, size=None: many(size, lambda: -math.log(1 - u()) * scale))
    return saved


def unscript_random(saved):
    import numpy as np
    for k, v in saved.items():
        setattr(np.random, k, v)
