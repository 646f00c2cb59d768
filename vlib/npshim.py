"""Symbolic-aware replacements for the numpy / math / random entry points pvtrace uses.

Every replacement falls through to the original unless a symbolic value is involved.
Random number draws become fresh symbolic values constrained only by their documented
range (the environment stub of this framework).
"""
import sys, math, builtins
from fractions import Fraction
import numpy as np
from . import symx
from .symx import (SymReal, SymInt, SymBool, SymNum, NonFinite, Unsupported, issym, mk, mkb, bt, rt, rv, is_num)
import z3

_orig = {}
ACTIVE = False


def o(name):
    return _orig[name]


def anysym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, NonFinite)):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return any(isinstance(e, (SymNum, SymBool, NonFinite)) for e in x.flat)
        return False
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(anysym(e, depth + 1) for e in x)
    return False


def from_pv(depth=2):
    g = sys._getframe(depth).f_globals.get("__name__", "")
    return g.startswith(("pvtrace", "checks", "vlib", "meshcat.transformations"))


class Ufunc:
    """a patched ufunc: calls go to the replacement, everything else to the original"""

    def __init__(self, fn, orig):
        self._fn = fn
        self._orig = orig
        self.__name__ = fn.__name__

    def __call__(self, *a, **k):
        return self._fn(*a, **k)

    def __getattr__(self, n):
        return getattr(self._orig, n)


def patch(mod, name, fn):
    key = mod.__name__ + "." + name
    if key not in _orig:
        _orig[key] = getattr(mod, name)
    fn.__name__ = name
    if isinstance(_orig[key], np.ufunc):
        fn = Ufunc(fn, _orig[key])
    setattr(mod, name, fn)
    return _orig[key]


def elementwise(x, f):
    """apply f on scalar or array-like"""
    if isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x) > 0:
        a = _orig["numpy.array"](x, dtype=object) if not isinstance(x, np.ndarray) else x
        out = _orig["numpy.empty"](a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i])
        return out
    return f(x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x)


def elementwise2(x, y, f):
    ax = isinstance(x, (list, tuple, np.ndarray)) and np.ndim(x) > 0
    ay = isinstance(y, (list, tuple, np.ndarray)) and np.ndim(y) > 0
    if not ax and not ay:
        return f(x, y)
    A = _orig["numpy.array"](x, dtype=object)
    B = _orig["numpy.array"](y, dtype=object)
    A, B = np.broadcast_arrays(A, B)
    out = _orig["numpy.empty"](A.shape, dtype=object)
    for i in np.ndindex(A.shape):
        out[i] = f(A[i], B[i])
    return out


def s_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if isinstance(x, NonFinite) or isinstance(y, NonFinite):
            return bool(x == y)
        for v in (x, y):
            if not issym(v) and not math.isfinite(v):
                return False
        if not issym(x) and not issym(y):
            return bool(_orig["numpy.isclose"](x, y, rtol=rtol, atol=atol))
        d = abs(x - y)
        lim = atol + rtol * abs(y)
        return d <= lim
    return elementwise2(a, b, f)


def ball(x):
    """conjunction over an array of bool-ish (non forking)"""
    t = []
    for e in np.ravel(_orig["numpy.array"](x, dtype=object)):
        t.append(bt(e) if isinstance(e, (SymBool,)) else z3.BoolVal(bool(e)))
    return mkb(z3.simplify(z3.And(*t))) if t else True


def install():
    global ACTIVE
    if ACTIVE:
        return
    ACTIVE = True
    N = np

    # --- array construction -------------------------------------------------
    def mkarr(orig_name):
        orig = getattr(N, orig_name)

        def arr(x, dtype=None, *a, **k):
            if dtype is not None and anysym(x):
                try:
                    kind = N.dtype(dtype).kind
                except TypeError:
                    kind = "O"
                if kind in "fcO":
                    dtype = object
                elif kind in "iu":
                    return orig(elementwise(x, lambda e: int(e) if issym(e) else e), dtype, *a, **k)
            elif dtype is not None and dtype in (symx_float,):
                dtype = float
            elif dtype is not None and dtype in (symx_int,):
                dtype = int
            if dtype is None:
                if anysym(x):
                    return orig(x, object, *a, **k) if not isinstance(x, N.ndarray) else orig(x, *a, **k)
                return orig(x, *a, **k)
            return orig(x, dtype, *a, **k)
        patch(N, orig_name, arr)

    for nm in ("array", "asarray", "ascontiguousarray", "asanyarray"):
        mkarr(nm)

    def fix_dtype(dtype):
        if dtype is symx_float:
            return float
        if dtype is symx_int:
            return int
        return dtype

    def conv(name, fillval):
        orig = getattr(N, name)

        def f(*a, **k):
            if "dtype" in k:
                k["dtype"] = fix_dtype(k["dtype"])
            a = tuple(fix_dtype(e) for e in a)
            a = tuple(tuple(int(q) for q in e) if isinstance(e, tuple) else (int(e) if isinstance(e, SymInt) else e) for e in a)
            r = orig(*a, **k)
            if from_pv() and r.dtype.kind == "f" and symx.ENG is not None:
                return r.astype(object)
            return r
        patch(N, name, f)

    for nm in ("zeros", "ones", "empty", "identity", "eye", "zeros_like", "ones_like", "empty_like", "diag"):
        conv(nm, None)

    def full(shape, fill_value, dtype=None, **k):
        if anysym(fill_value):
            r = _orig["numpy.empty"](shape, dtype=object)
            r[...] = fill_value
            return r
        r = _orig["numpy.full"](shape, fill_value, fix_dtype(dtype), **k)
        if from_pv() and r.dtype.kind == "f" and symx.ENG is not None:
            return r.astype(object)
        return r
    patch(N, "full", full)

    # --- predicates -----------------------------------------------------------
    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if type(a).__module__.startswith("pandas") or type(b).__module__.startswith("pandas"):
            # columns of a table: decided element by element
            r = isclose(*(x.to_numpy() if hasattr(x, "to_numpy") else x for x in (a, b)), rtol, atol, equal_nan)
            return _orig["numpy.array"]([bool(x) for x in np.ravel(r)], dtype=bool)
        if anysym(a) or anysym(b) or anysym(atol) or anysym(rtol):
            return s_isclose(a, b, rtol, atol)
        return _orig["numpy.isclose"](N.asarray(a, dtype=float) if getattr(a, "dtype", None) == object else a,
                                      N.asarray(b, dtype=float) if getattr(b, "dtype", None) == object else b,
                                      rtol=rtol, atol=atol, equal_nan=equal_nan)
    patch(N, "isclose", isclose)

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if anysym(a) or anysym(b):
            return ball(s_isclose(a, b, rtol, atol))
        if getattr(a, "dtype", None) == object:
            a = _orig["numpy.array"](a, dtype=float)
        if getattr(b, "dtype", None) == object:
            b = _orig["numpy.array"](b, dtype=float)
        return _orig["numpy.allclose"](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    patch(N, "allclose", allclose)

    def array_equal(a, b, **k):
        if anysym(a) or anysym(b):
            if N.shape(a) != N.shape(b):
                return False
            return ball(elementwise2(a, b, lambda x, y: x == y))
        return _orig["numpy.array_equal"](a, b, **k)
    patch(N, "array_equal", array_equal)

    def pred(name, fsym, fconc):
        def f(x, *a, **k):
            if anysym(x) or getattr(x, "dtype", None) == object:
                return elementwise(x, lambda e: fsym(e) if issym(e) else fconc(e))
            return _orig["numpy." + name](x, *a, **k)
        patch(N, name, f)

    def boolarr(name, fsym, fconc):
        def f(x, *a, **k):
            if anysym(x) or getattr(x, "dtype", None) == object:
                r = elementwise(x, lambda e: bool(fsym(e)) if issym(e) else bool(fconc(e)))
                return r.astype(bool) if isinstance(r, N.ndarray) else r
            return _orig["numpy." + name](x, *a, **k)
        patch(N, name, f)

    boolarr("isfinite", lambda e: not isinstance(e, NonFinite), lambda e: math.isfinite(e))
    boolarr("isnan", lambda e: isinstance(e, NonFinite) and e.kind == "nan", lambda e: e != e)
    boolarr("isinf", lambda e: isinstance(e, NonFinite) and e.kind != "nan", lambda e: math.isinf(e))

    def isreal(x):
        if anysym(x) or getattr(x, "dtype", None) == object:
            return elementwise(x, lambda e: not isinstance(e, ComplexRoot))
        return _orig["numpy.isreal"](x)
    patch(N, "isreal", isreal)

    # --- reductions and elementwise -------------------------------------------
    def ew1(name, meth):
        def f(x, *a, **k):
            if anysym(x) or (isinstance(x, N.ndarray) and x.dtype == object):
                return elementwise(x, lambda e: getattr(e, meth)() if isinstance(e, (SymNum, NonFinite)) else
                                   _orig["numpy." + name](float(e)))
            return _orig["numpy." + name](x, *a, **k)
        patch(N, name, f)

    for nm in ("sin", "cos", "tan", "arcsin", "arccos", "log", "exp", "sqrt", "expm1", "log1p", "radians", "deg2rad",
               "degrees", "fabs", "floor", "ceil", "rint", "sign", "square"):
        ew1(nm, nm)

    def absolute(x, *a, **k):
        if anysym(x):
            return elementwise(x, abs)
        return _orig["numpy.absolute"](x, *a, **k)
    patch(N, "absolute", absolute)
    patch(N, "abs", lambda x, *a, **k: absolute(x, *a, **k))

    def hypot(a, b, *r, **k):
        if anysym(a) or anysym(b):
            return elementwise2(a, b, lambda x, y: _sq(x * x + y * y))
        return _orig["numpy.hypot"](a, b, *r, **k)
    patch(N, "hypot", hypot)

    def np_min2(name, pick):
        def f(a, b, *r, **k):
            if anysym(a) or anysym(b):
                return elementwise2(a, b, pick)
            return _orig["numpy." + name](a, b, *r, **k)
        patch(N, name, f)
    np_min2("minimum", lambda x, y: ite(x <= y, x, y))
    np_min2("maximum", lambda x, y: ite(x >= y, x, y))

    def clip(x, lo, hi, *a, **k):
        if anysym(x) or anysym(lo) or anysym(hi):
            def f(e):
                if lo is not None:
                    e = ite(e < lo, lo, e)
                if hi is not None:
                    e = ite(e > hi, hi, e)
                return e
            return elementwise(x, f)
        return _orig["numpy.clip"](x, lo, hi, *a, **k)
    patch(N, "clip", clip)

    def cumsum(x, *a, **k):
        if anysym(x):
            k.pop("dtype", None)
            out, s = [], 0.0
            for e in N.ravel(_orig["numpy.array"](x, dtype=object)):
                s = s + e
                out.append(s)
            return _orig["numpy.array"](out, dtype=object)
        if k.get("dtype") is symx_float:
            k["dtype"] = float
        return _orig["numpy.cumsum"](x, *a, **k)
    patch(N, "cumsum", cumsum)

    def npsum(x, *a, **k):
        if k.get("dtype") is symx_float:
            k["dtype"] = float
        if anysym(x) and not a and not k:
            s = 0.0
            for e in N.ravel(_orig["numpy.array"](x, dtype=object)):
                s = s + e
            return s
        return _orig["numpy.sum"](x, *a, **k)
    patch(N, "sum", npsum)

    def nz(name, orig_all):
        def f(x, *a, **k):
            if anysym(x) and not a and not k:
                vals = list(N.ravel(_orig["numpy.array"](x, dtype=object)))
                ts = [bt(e) if isinstance(e, SymBool) else (bt(e != 0) if issym(e) else z3.BoolVal(bool(e))) for e in vals]
                return mkb(z3.simplify((z3.And if orig_all else z3.Or)(*ts)))
            return _orig["numpy." + name](x, *a, **k)
        patch(N, name, f)
    nz("all", True)
    nz("any", False)

    def logical(name, f2):
        def f(a, b, *r, **k):
            if anysym(a) or anysym(b):
                return elementwise2(a, b, lambda x, y: mkb(z3.simplify(f2(tb(x), tb(y)))))
            return _orig["numpy." + name](a, b, *r, **k)
        patch(N, name, f)

    def tb(x):
        if isinstance(x, SymBool):
            return x.t
        if issym(x):
            return bt(x != 0)
        return z3.BoolVal(bool(x))
    logical("logical_or", z3.Or)
    logical("logical_and", z3.And)

    def logical_not(a, *r, **k):
        if anysym(a):
            return elementwise(a, lambda x: mkb(z3.simplify(z3.Not(tb(x)))))
        return _orig["numpy.logical_not"](a, *r, **k)
    patch(N, "logical_not", logical_not)

    def where(c, *r):
        if anysym(c) or (r and (anysym(r[0]) or anysym(r[1]))):
            if not r:
                arr = N.atleast_1d(_orig["numpy.array"](c, dtype=object))
                mask = _orig["numpy.array"]([bool(e) for e in arr.flat], dtype=bool).reshape(arr.shape)
                return _orig["numpy.where"](mask)
            if N.ndim(c) == 0:
                return r[0] if bool(c) else r[1]
            C = _orig["numpy.array"](c, dtype=object)
            A, B, C2 = N.broadcast_arrays(_orig["numpy.array"](r[0], dtype=object), _orig["numpy.array"](r[1], dtype=object), C)
            out = _orig["numpy.empty"](C2.shape, dtype=object)
            for i in N.ndindex(C2.shape):
                out[i] = ite(C2[i], A[i], B[i])
            return out
        return _orig["numpy.where"](c, *r)
    patch(N, "where", where)

    def norm(x, *a, **k):
        if anysym(x):
            if a or k:
                ordv = a[0] if a else k.get("ord")
                ax = k.get("axis")
                if ordv not in (None, 2) or (ax is not None and N.ndim(x) != 1):
                    if ax is not None and N.ndim(x) == 2 and ax in (1, -1):
                        return _orig["numpy.array"]([norm(r) for r in N.asarray(x, dtype=object)], dtype=object)
                    raise Unsupported("norm args")
            s = 0.0
            for e in N.ravel(_orig["numpy.array"](x, dtype=object)):
                s = s + e * e
            return _sq(s)
        if getattr(x, "dtype", None) == object:
            x = _orig["numpy.array"](x, dtype=float)
        return _orig["numpy.linalg.norm"](x, *a, **k)
    patch(N.linalg, "norm", norm)

    def inv(m):
        if anysym(m):
            return sym_inv(_orig["numpy.array"](m, dtype=object))
        return _orig["numpy.linalg.inv"](_orig["numpy.array"](m, dtype=float) if getattr(m, "dtype", None) == object else m)
    patch(N.linalg, "inv", inv)

    def fconv(modname, mod, name):
        """functions that need real float input: convert symbol-free object arrays"""
        def f(x, *a, **k):
            if getattr(x, "dtype", None) == object and not anysym(x):
                x = _orig["numpy.array"](x, dtype=float)
            if anysym(x):
                raise Unsupported(name + " on symbolic data")
            return _orig[modname + "." + name](x, *a, **k)
        patch(mod, name, f)
    fconv("numpy.linalg", N.linalg, "eig")
    fconv("numpy.linalg", N.linalg, "svd")

    def det(m):
        if anysym(m):
            return sym_det(_orig["numpy.array"](m, dtype=object))
        return _orig["numpy.linalg.det"](_orig["numpy.array"](m, dtype=float) if getattr(m, "dtype", None) == object else m)
    patch(N.linalg, "det", det)

    def roots(p):
        if anysym(p):
            return sym_roots(list(p))
        return _orig["numpy.roots"](p)
    patch(N, "roots", roots)

    def interp(x, xp, fp, left=None, right=None, period=None):
        if anysym(x) or anysym(xp) or anysym(fp):
            return elementwise(x, lambda e: sym_interp(e, list(xp), list(fp), left, right))
        # arrays of objects which hold ordinary numbers
        x, xp, fp = (v.astype(float) if isinstance(v, N.ndarray) and v.dtype == object else v for v in (x, xp, fp))
        return _orig["numpy.interp"](x, xp, fp, left=left, right=right, period=period)
    patch(N, "interp", interp)

    def searchsorted(a, v, side="left", sorter=None):
        if anysym(a) or anysym(v):
            def f(e):
                i = 0
                for k in a:
                    if bool(k < e) if side == "left" else bool(k <= e):
                        i += 1
                    else:
                        break
                return i
            r = elementwise(v, f)
            return r.astype(int) if isinstance(r, N.ndarray) else r
        return _orig["numpy.searchsorted"](a, v, side=side, sorter=sorter)
    patch(N, "searchsorted", searchsorted)

    def arctan2(a, b, *r, **k):
        if anysym(a) or anysym(b):
            return sym_atan2(a, b)
        return _orig["numpy.arctan2"](a, b, *r, **k)
    patch(N, "arctan2", arctan2)

    # --- random ---------------------------------------------------------------
    R = N.random

    def draw(lo=0.0, hi=1.0):
        e = symx.ENG
        e.draws += 1
        u = e.real("u%d" % e.draws, 0, 1, hi_open=True)
        if not issym(lo) and not issym(hi) and lo == 0.0 and hi == 1.0:
            return u
        return lo + (hi - lo) * u

    def many(size, f):
        if size is None:
            return f()
        shape = (size,) if not isinstance(size, tuple) else size
        shape = tuple(int(s) for s in shape)
        out = _orig["numpy.empty"](shape, dtype=object)
        for i in N.ndindex(shape):
            out[i] = f()
        return out

    def on():
        return symx.ENG is not None

    def uniform(low=0.0, high=1.0, size=None):
        if not on():
            return _orig["numpy.random.uniform"](low, high, size)
        return many(size, lambda: draw(low, high))
    _patch_rnd(R, "uniform", uniform)
    _patch_rnd(R, "random", lambda size=None: many(size, draw) if on() else _orig["numpy.random.random"](size))
    _patch_rnd(R, "random_sample", lambda size=None: many(size, draw) if on() else _orig["numpy.random.random_sample"](size))
    _patch_rnd(R, "rand", lambda *s: many(tuple(s) if s else None, draw) if on() else _orig["numpy.random.rand"](*s))

    def exponential(scale=1.0, size=None):
        if not on():
            return _orig["numpy.random.exponential"](scale, size)
        return many(size, lambda: -((1 - draw()).log()) * scale)
    _patch_rnd(R, "exponential", exponential)

    def randint(low, high=None, size=None, dtype=int):
        if not on() or (not issym(low) and not issym(high) and SCRIPT_RANDINT is None):
            return _orig["numpy.random.randint"](low, high, size)
        return SCRIPT_RANDINT(low, high, size)
    _patch_rnd(R, "randint", randint)

    # --- math -------------------------------------------------------------------
    def m1(name, meth):
        if not hasattr(math, name):
            return
        def f(x):
            if isinstance(x, (SymNum, NonFinite)):
                return getattr(x, meth)()
            return _orig["math." + name](x)
        patch(math, name, f)
    for a, b in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("acos", "arccos"), ("asin", "arcsin"), ("log", "log"),
                 ("exp", "exp"), ("sqrt", "sqrt"), ("radians", "radians"), ("degrees", "degrees"), ("fabs", "fabs")):
        m1(a, b)

    def matan2(a, b):
        if issym(a) or issym(b):
            return sym_atan2(a, b)
        return _orig["math.atan2"](a, b)
    patch(math, "atan2", matan2)
    patch(math, "hypot", lambda *a: _sq(sum(x * x for x in a)) if anysym(a) else _orig["math.hypot"](*a))

    def mis(name, f):
        patch(math, name, lambda x: f(x) if issym(x) else _orig["math." + name](x))
    mis("isfinite", lambda e: not isinstance(e, NonFinite))
    mis("isnan", lambda e: isinstance(e, NonFinite) and e.kind == "nan")
    mis("isinf", lambda e: isinstance(e, NonFinite) and e.kind != "nan")

    def misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if issym(a) or issym(b):
            d = abs(a - b)
            return mkb(z3.simplify(z3.Or(bt(d <= abs_tol), bt(d <= rel_tol * abs(a)), bt(d <= rel_tol * abs(b)))))
        return _orig["math.isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    patch(math, "isclose", misclose)

    def mfloor(x):
        return x.__floor__() if isinstance(x, SymNum) else _orig["math.floor"](x)
    patch(math, "floor", mfloor)
    patch(math, "ceil", lambda x: x.__ceil__() if isinstance(x, SymNum) else _orig["math.ceil"](x))


SCRIPT_RANDINT = None


def _patch_rnd(mod, name, fn):
    key = "numpy.random." + name
    if key not in _orig:
        _orig[key] = getattr(mod, name)
    setattr(mod, name, fn)


class ComplexRoot(NonFinite):
    def __init__(self):
        self.kind = "nan"


def _sq(x):
    return x.sqrt() if isinstance(x, (SymNum, NonFinite)) else _orig["numpy.sqrt"](x)


def ite(c, a, b):
    if isinstance(c, SymBool):
        ta, tb_ = rt(a), rt(b)
        if ta is None or tb_ is None or ta is NotImplemented or tb_ is NotImplemented:
            return a if bool(c) else b
        if isinstance(a, SymInt) and isinstance(b, (SymInt, int)):
            return SymInt(z3.If(c.t, a.t, b.t if isinstance(b, SymInt) else z3.IntVal(int(b))))
        return mk(z3.If(c.t, ta, tb_))
    return a if c else b


def sym_roots(p):
    while p and bool(p[0] == 0):
        p = p[1:]
    # numpy strips trailing zeros as zero roots as well
    zeros = []
    while p and bool(p[-1] == 0):
        p = p[:-1]
        zeros.append(0.0)
    n = len(p)
    if n <= 1:
        r = []
    elif n == 2:
        r = [-p[1] / p[0]]
    elif n == 3:
        a, b, c = p
        disc = b * b - 4 * a * c
        if bool(disc < 0):
            r = [ComplexRoot(), ComplexRoot()]
        else:
            s = _sq(disc)
            # numpy gives no order guarantee
            r = [(-b + s) / (2 * a), (-b - s) / (2 * a)]
    else:
        raise Unsupported("roots of degree %d" % (n - 1))
    return r + zeros


def sym_interp(x, xp, fp, left, right):
    n = len(xp)
    if n == 1:
        if left is None and right is None:
            return fp[0]
    if isinstance(x, NonFinite):
        return x if x.kind == "nan" else (fp[-1] if x.kind == "+inf" else fp[0])
    if bool(x < xp[0]):
        return wrap_nan(fp[0] if left is None else left)
    if bool(x > xp[n - 1]):
        return wrap_nan(fp[-1] if right is None else right)
    # numpy.interp picks the last j with xp[j] <= x
    j = 0
    for i in range(1, n):
        if bool(xp[i] <= x):
            j = i
        else:
            break
    if j == n - 1:
        return mkreal(fp[j])
    if not (issym(xp[j]) or issym(x)) and xp[j] == x:
        return mkreal(fp[j])
    x0, x1, y0, y1 = (mkreal(v) for v in (xp[j], xp[j + 1], fp[j], fp[j + 1]))
    slope = (y1 - y0) / (x1 - x0)
    return mkreal(slope * (x - x0) + y0)


def wrap_nan(v):
    if issym(v):
        return v
    return NonFinite("nan") if v != v else mkreal(v)


def mkreal(v):
    if issym(v):
        return v
    return mk(rv(v))


def sym_det(m):
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    s = 0.0
    for j in range(n):
        if not issym(m[0, j]) and m[0, j] == 0:
            continue
        minor = m[1:][:, [k for k in range(n) if k != j]]
        t = m[0, j] * sym_det(minor)
        s = s + t if j % 2 == 0 else s - t
    return s


def sym_inv(m):
    """inverse of a (homogeneous affine) matrix: adjugate / determinant when the determinant's normal
    form is a constant, otherwise a fresh matrix X constrained by M X = X M = 1"""
    n = m.shape[0]
    E = symx.ENG
    def isc(x, v):
        t = E.P.norm(rt(x))
        return symx.isval(t) and symx.fval(t) == v
    homog = n == 4 and all(isc(m[3, j], 1 if j == 3 else 0) for j in range(4))
    k = 3 if homog else n
    X = _orig["numpy.empty"]((n, n), dtype=object)
    A = m[:k, :k]
    det = sym_det(A)
    dt = E.P.norm(rt(det))
    for i in range(n):
        for j in range(n):
            X[i, j] = 0.0
    if symx.isval(dt) and symx.fval(dt) != 0 and k == 3:
        for i in range(3):
            for j in range(3):
                r = [a for a in range(3) if a != j]
                c = [a for a in range(3) if a != i]
                co = A[r[0], c[0]] * A[r[1], c[1]] - A[r[0], c[1]] * A[r[1], c[0]]
                if (i + j) % 2:
                    co = -co
                X[i, j] = mk(E.P.norm(rt(co))) / mk(dt)
    else:
        for i in range(k):
            for j in range(k):
                X[i, j] = mk(E.fresh("inv"))
        for i in range(k):
            for j in range(k):
                s = sum((A[i, q] * X[q, j] for q in range(k)), 0.0)
                r = sum((X[i, q] * A[q, j] for q in range(k)), 0.0)
                tgt = 1 if i == j else 0
                E.add(rt(s) == tgt)
                E.add(rt(r) == tgt)
    if homog:
        for i in range(3):
            X[i, 3] = -sum((X[i, q] * m[q, 3] for q in range(3)), 0.0)
        X[3, 3] = 1.0
    return X


def sym_atan2(y, x):
    E = symx.ENG
    y, x = mkreal(y), mkreal(x)
    if isinstance(y, NonFinite) or isinstance(x, NonFinite):
        return NonFinite("nan")
    h2 = x * x + y * y
    if bool(h2 == 0):
        return mk(rv(0))
    h = h2.sqrt()
    s, c = y / h, x / h
    if symx.isval(s.t) and symx.isval(c.t):
        return mk(rv(math.atan2(symx.fval(s.t), symx.fval(c.t))))
    th = E.fresh("atan2")
    E.add(z3.And(th <= rv(math.pi), th >= rv(-math.pi)))
    E.add((th > 0) == z3.Or(s.t > 0, z3.And(s.t == 0, c.t < 0)))
    E.add((th < 0) == (s.t < 0))
    return SymReal(th, trig=(s, c))


# --- builtin shadows for pvtrace modules -------------------------------------------

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, float) or builtins.isinstance(x, (SymReal, NonFinite))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or issubclass(c, SymReal)

    def __eq__(cls, other):
        return other is cls or other is float

    def __hash__(cls):
        return hash(float)


class symx_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, (SymReal, NonFinite)):
            return x
        if builtins.isinstance(x, SymInt):
            return mk(z3.ToReal(x.t))
        if builtins.isinstance(x, SymBool):
            return mk(rt(x))
        if builtins.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return symx_float(x.item())
        return float(x)

    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int) or builtins.isinstance(x, SymInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or issubclass(c, SymInt)

    def __eq__(cls, other):
        return other is cls or other is int

    def __hash__(cls):
        return hash(int)


class symx_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, SymNum):
            return x.trunc()
        if builtins.isinstance(x, SymBool):
            return x._num()
        if builtins.isinstance(x, NonFinite):
            raise ValueError("cannot convert float NaN/inf to integer")
        if builtins.isinstance(x, str) and "\ue000" in x:
            from . import symx
            return symx.hex_value(x, *(a or (10,)))
        return int(x, *a)


def sym_round(x, nd=None):
    if builtins.isinstance(x, SymNum):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def shadow_modules(prefixes=("pvtrace",)):
    for name, mod in list(sys.modules.items()):
        if mod is None or not any(name == p or name.startswith(p + ".") for p in prefixes):
            continue
        d = mod.__dict__
        d.setdefault("float", symx_float)
        d.setdefault("int", symx_int)
