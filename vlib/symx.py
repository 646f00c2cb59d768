"""Proxy-based symbolic execution of the real Python code.

The implementation's own functions are executed with symbolic values (z3 terms over
the mathematical reals / integers) in place of floats and ints.  A branch on a symbolic
condition forks the run: every feasible combination of branch outcomes is re-executed.
Assertions made by a harness are decided by an SMT solver for all values satisfying the
path condition.
"""
import os, sys, math, time, pickle, select, signal, traceback, itertools
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3

REAL = "real"


class Unsupported(BaseException):
    """The code did something the symbolic executor cannot encode."""


class PathAbort(BaseException):
    """The current path is infeasible / assumed away."""


class PathLimit(BaseException):
    pass


ENG = None  # current engine


def fr(x):
    """exact rational of a concrete number"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x))


_valcache = {}


def rv(x):
    f = fr(x)
    v = _valcache.get(f)
    if v is None:
        v = z3.RealVal(str(f.numerator) + "/" + str(f.denominator) if f.denominator != 1 else str(f.numerator))
        _valcache[f] = v
    return v


def is_num(x):
    if isinstance(x, (int, float, Fraction)):
        return True
    t = type(x)
    return t.__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0 and x.dtype.kind in "iufb"


class NonFinite:
    """nan / +inf / -inf result of a numpy style operation on symbolic values"""

    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def _nan(self, *a):
        return NonFinite("nan")

    __hash__ = object.__hash__

    def _sgn(self, o):
        return None

    def __neg__(self):
        return NonFinite({"nan": "nan", "+inf": "-inf", "-inf": "+inf"}[self.kind])

    def __add__(self, o):
        if isinstance(o, NonFinite) and o.kind != self.kind:
            return NonFinite("nan")
        return self

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o if isinstance(o, NonFinite) else o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if self.kind == "nan" or isinstance(o, NonFinite):
            return NonFinite("nan")
        if bool(o == 0):
            return NonFinite("nan")
        return self if bool(o > 0) else -self

    __rmul__ = __mul__

    def __truediv__(self, o):
        if self.kind == "nan" or isinstance(o, NonFinite):
            return NonFinite("nan")
        return self if bool(o >= 0) else -self

    def __rtruediv__(self, o):
        if self.kind == "nan":
            return NonFinite("nan")
        return mk(rv(0))

    def __pow__(self, o):
        return NonFinite("nan") if self.kind == "nan" else NonFinite("+inf")

    def __abs__(self):
        return NonFinite("nan") if self.kind == "nan" else NonFinite("+inf")

    def _cmp(self, o):
        if self.kind == "nan":
            return None
        if isinstance(o, NonFinite):
            if o.kind == "nan":
                return None
            a = 1 if self.kind == "+inf" else -1
            b = 1 if o.kind == "+inf" else -1
            return (a > b) - (a < b)
        if isinstance(o, float) and not math.isfinite(o):
            if o != o:
                return None
            a = 1 if self.kind == "+inf" else -1
            b = 1 if o > 0 else -1
            return (a > b) - (a < b)
        return 1 if self.kind == "+inf" else -1

    def __lt__(self, o):
        c = self._cmp(o)
        return c is not None and c < 0

    def __le__(self, o):
        c = self._cmp(o)
        return c is not None and c <= 0

    def __gt__(self, o):
        c = self._cmp(o)
        return c is not None and c > 0

    def __ge__(self, o):
        c = self._cmp(o)
        return c is not None and c >= 0

    def __eq__(self, o):
        c = self._cmp(o)
        return c == 0

    def __ne__(self, o):
        return not (self == o)

    def sqrt(self):
        return self if self.kind == "+inf" else NonFinite("nan")

    def _f(self):
        return NonFinite("nan")

    sin = cos = tan = arcsin = arccos = log = exp = arctan = conjugate = _f

    def tolist(self):
        return self

    def item(self):
        return self

    size = 1
    shape = ()
    ndim = 0

    def __repr__(self):
        return "NonFinite(%s)" % self.kind

    def __format__(self, s):
        return repr(self)


def conc_float(x):
    return float(x)


class SymBool:
    __slots__ = ("t",)
    __array_priority__ = -1000.0

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t)

    def __and__(self, o):
        return mkb(z3.And(self.t, bt(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.t, bt(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkb(z3.Not(self.t))

    def __eq__(self, o):
        return mkb(self.t == bt(o))

    def __ne__(self, o):
        return mkb(self.t != bt(o))

    def __xor__(self, o):
        return mkb(z3.Xor(self.t, bt(o)))

    def _num(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._num()

    def logical_not(self):
        return ~self

    def any(self, *a, **k):
        return self

    all = any

    def tolist(self):
        return self

    def item(self):
        return self

    def __int__(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return 1 if bool(self) else 0

    size = 1
    shape = ()
    ndim = 0
    __hash__ = object.__hash__

    def __repr__(self):
        return "SymBool(%s)" % self.t


def bt(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, z3.BoolRef):
        return o
    return z3.BoolVal(bool(o))


def mkb(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mk(t):
    return SymReal(t)


class SymNum:
    __array_priority__ = -1000.0
    size = 1
    shape = ()
    ndim = 0
    __hash__ = object.__hash__


def rt(o):
    """z3 real term of a finite number (or None if not finite / not a number)"""
    if isinstance(o, SymReal):
        return o.t
    if isinstance(o, SymInt):
        return z3.ToReal(o.t)
    if isinstance(o, SymBool):
        return z3.If(o.t, rv(1), rv(0))
    if is_num(o):
        f = float(o) if not isinstance(o, Fraction) and not isinstance(o, int) else o
        if isinstance(f, float) and not math.isfinite(f):
            return None
        return rv(f)
    return NotImplemented


def nonfin(o):
    f = float(o)
    return NonFinite("nan" if f != f else ("+inf" if f > 0 else "-inf"))


def _coerce(o):
    """-> ('r', term) | ('n', NonFinite) | None"""
    if isinstance(o, NonFinite):
        return ("n", o)
    t = rt(o)
    if t is NotImplemented:
        return None
    if t is None:
        return ("n", nonfin(o))
    return ("r", t)


def isval(t):
    return z3.is_rational_value(t)


def fval(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


def _add(a, b):
    if isval(a):
        if isval(b):
            return rv(fval(a) + fval(b))
        if fval(a) == 0:
            return b
    elif isval(b) and fval(b) == 0:
        return a
    return a + b


def _mul(a, b):
    if isval(a):
        fa = fval(a)
        if isval(b):
            return rv(fa * fval(b))
        if fa == 0:
            return rv(0)
        if fa == 1:
            return b
        return a * b
    if isval(b):
        fb = fval(b)
        if fb == 0:
            return rv(0)
        if fb == 1:
            return a
        return b * a
    return a * b


def _sub(a, b):
    if isval(b):
        if isval(a):
            return rv(fval(a) - fval(b))
        if fval(b) == 0:
            return a
    if a.eq(b):
        return rv(0)
    return a - b


class SymReal(SymNum):
    __slots__ = ("t", "trig")

    def __init__(self, t, trig=None):
        self.t = t
        self.trig = trig

    # arithmetic
    def __add__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return c[1]
        return mk(_add(self.t, c[1]))

    __radd__ = __add__

    def __sub__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return -c[1]
        return mk(_sub(self.t, c[1]))

    def __rsub__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return c[1]
        return mk(_sub(c[1], self.t))

    def __mul__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return c[1] * self
        return mk(_mul(self.t, c[1]))

    __rmul__ = __mul__

    def __neg__(self):
        if isval(self.t):
            return mk(rv(-fval(self.t)))
        r = mk(-self.t)
        if self.trig is not None:
            s, c = self.trig
            r.trig = (-s, c)
        return r

    def __pos__(self):
        return self

    def __truediv__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return mk(rv(0)) if c[1].kind != "nan" else c[1]
        return _div(self.t, c[1])

    def __rtruediv__(self, o):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            return c[1].__truediv__(self)
        return _div(c[1], self.t)

    def __floordiv__(self, o):
        q = self / o
        return q.__floor__real() if isinstance(q, SymReal) else q

    def __floor__real(self):
        return mk(z3.ToReal(z3.ToInt(self.t)))

    def __mod__(self, o):
        q = self / o
        return self - o * mk(z3.ToReal(z3.ToInt(q.t)))

    def __pow__(self, n, mod=None):
        if isinstance(n, (SymReal,)) and isval(n.t):
            n = fval(n.t)
        if is_num(n):
            f = fr(n)
            if f.denominator == 1:
                k = int(f)
                if k == 0:
                    return mk(rv(1))
                r = self
                for _ in range(abs(k) - 1):
                    r = r * self
                return r if k > 0 else 1 / r
            if f == Fraction(1, 2):
                return self.sqrt()
        raise Unsupported("pow %r" % (n,))

    def __abs__(self):
        if isval(self.t):
            return mk(rv(abs(fval(self.t))))
        k = ENG.P.normb(self.t >= 0)
        if z3.is_true(k):
            return self
        if z3.is_false(k):
            return -self
        t = ENG.P.norm(z3.simplify(self.t))
        if isval(t):
            return mk(rv(abs(fval(t))))
        m = ENG.P.norm(-t)
        p = ENG.P.poly(t)
        if p and p[ENG.P.lead(p)] < 0:
            t, m = m, t
        return mk(z3.If(t >= 0, t, m))

    # comparisons
    def _cmp(self, o, op, inf_pos, inf_neg):
        c = _coerce(o)
        if c is None:
            return NotImplemented
        if c[0] == "n":
            k = c[1].kind
            return False if k == "nan" else (inf_pos if k == "+inf" else inf_neg)
        a, b = self.t, c[1]
        if isval(a) and isval(b):
            return op(fval(a), fval(b))
        return mkb(op(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __bool__(self):
        return bool(self != 0)

    # numpy object ufunc protocol
    def sqrt(self):
        return ENG.sqrt(self.t)

    def square(self):
        return self * self

    def sin(self):
        return ENG.trig(self)[0]

    def cos(self):
        return ENG.trig(self)[1]

    def tan(self):
        s, c = ENG.trig(self)
        return s / c

    def arccos(self):
        return ENG.arccos(self.t)

    def arcsin(self):
        return ENG.arcsin(self.t)

    def log(self):
        return ENG.log(self.t)

    def exp(self):
        return ENG.exp(self.t)

    def expm1(self):
        return ENG.exp(self.t) - 1

    def log1p(self):
        return ENG.log(_add(self.t, rv(1)))

    def radians(self):
        return self * (math.pi / 180.0)

    deg2rad = radians

    def degrees(self):
        return self * (180.0 / math.pi)

    def fabs(self):
        return abs(self)

    def conjugate(self):
        return self

    def floor(self):
        return mk(z3.ToReal(z3.ToInt(self.t)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.t))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.t))

    def ceil(self):
        return mk(z3.ToReal(-z3.ToInt(-self.t)))

    def trunc(self):
        return SymInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __trunc__(self):
        return self.trunc()

    def __round__(self, nd=None):
        if nd:
            k = 10 ** nd
            return mk(z3.ToReal(z3.ToInt(self.t * rv(k) + rv(Fraction(1, 2)))) / rv(k))
        return SymInt(z3.ToInt(self.t + rv(Fraction(1, 2))))

    def rint(self):
        return mk(z3.ToReal(z3.ToInt(self.t + rv(Fraction(1, 2)))))

    def sign(self):
        return mk(z3.If(self.t > 0, rv(1), z3.If(self.t < 0, rv(-1), rv(0))))

    def isfinite(self):
        return True

    def isnan(self):
        return False

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def tolist(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, *a, **k):
        return self

    def is_integer(self):
        return mkb(z3.ToReal(z3.ToInt(self.t)) == self.t)

    def __float__(self):
        if isval(self.t):
            return float(fval(self.t))
        raise Unsupported("float() of a symbolic real: " + "".join(traceback.format_stack(limit=6)))

    def __int__(self):
        if isval(self.t):
            return int(fval(self.t))
        return int(self.trunc())

    def __repr__(self):
        return "Sym(%s)" % (str(self.t)[:60],)

    def __format__(self, s):
        return repr(self)


def _div(a, b):
    if isval(b):
        fb = fval(b)
        if fb != 0:
            if isval(a):
                return mk(rv(fval(a) / fb))
            return mk(_mul(rv(1 / fb), a))
    # possible division by zero
    b = b if isval(b) else ENG.P.norm(b)
    if (isval(b) and fval(b) == 0) or (not isval(b) and ENG.branch(b == 0, quiet=True)):
        ENG.note("division by zero reachable")
        if ENG.zero_div == "raise":
            raise ZeroDivisionError("division by zero (symbolic)")
        n = mk(a)
        if bool(n > 0):
            return NonFinite("+inf")
        if bool(n < 0):
            return NonFinite("-inf")
        return NonFinite("nan")
    if isval(a) and fval(a) == 0:
        return mk(rv(0))
    return ENG.quotient(a, b)


class SymInt(SymNum):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _o(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymBool):
            return o._num().t
        if is_num(o) and not isinstance(o, float) and getattr(getattr(o, "dtype", None), "kind", "") in "iu":
            return z3.IntVal(int(o))
        return None

    def _bin(self, o, f, rf):
        t = self._o(o)
        if t is None:
            return rf(SymReal(z3.ToReal(self.t)), o)
        return SymInt(f(self.t, t))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(-self.t)

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.t)) / o

    def __rtruediv__(self, o):
        return o / SymReal(z3.ToReal(self.t))

    def __floordiv__(self, o):
        t = self._o(o)
        if t is None:
            raise Unsupported("int floordiv")
        if ENG.branch(t == 0, quiet=True):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ENG.branch(t > 0, quiet=True):
            return SymInt(self.t / t)
        return SymInt((-self.t) / (-t))

    def __rfloordiv__(self, o):
        return SymInt(self._o(o)) // self

    def __mod__(self, o):
        t = self._o(o)
        if t is None:
            return SymReal(z3.ToReal(self.t)) % o
        if ENG.branch(t == 0, quiet=True):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ENG.branch(t > 0, quiet=True):
            return SymInt(self.t % t)
        raise Unsupported("negative modulus")

    def __rmod__(self, o):
        return SymInt(self._o(o)) % self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, n):
        r = SymInt(z3.IntVal(1))
        for _ in range(int(n)):
            r = r * self
        return r

    def _cmp(self, o, f):
        t = self._o(o)
        if t is None:
            return f(SymReal(z3.ToReal(self.t)), o)
        return mkb(z3.simplify(f(self.t, t)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self._o(o) is None and not is_num(o) and not isinstance(o, SymReal):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if self._o(o) is None and not is_num(o) and not isinstance(o, SymReal):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return SymInt(z3.If(self.t >= 0, self.t, -self.t))

    def trunc(self):
        return self

    def __index__(self):
        return ENG.concretize_int(self.t)

    def __int__(self):
        return ENG.concretize_int(self.t)

    def __float__(self):
        return float(ENG.concretize_int(self.t))

    def __floor__(self):
        return self

    def __round__(self, nd=None):
        return self

    def tolist(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        return int(self).bit_length()

    def sqrt(self):
        return ENG.sqrt(z3.ToReal(self.t))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return SymInt(self.t % (o + 1))
        raise Unsupported("int &")

    def __rshift__(self, o):
        return SymInt(self.t / (2 ** int(o)))

    def __lshift__(self, o):
        return SymInt(self.t * (2 ** int(o)))

    def __or__(self, o):
        """numbers whose binary digits do not overlap"""
        for x, y in ((self, o), (o, self)):
            for k in (4, 8, 12, 16, 20, 24):
                tx, ty = (v.t if isinstance(v, SymInt) else z3.IntVal(int(v)) for v in (x, y))
                if ENG._feasible(z3.Not(z3.And(tx % 2 ** k == 0, ty >= 0, ty < 2 ** k))) is False:
                    return SymInt(tx + ty)
        raise Unsupported("int |")

    __ror__ = __or__

    __hash__ = object.__hash__

    def __repr__(self):
        return "SymInt(%s)" % (str(self.t)[:40],)

    def __format__(self, s):
        if s.endswith("x") and s[:-1] in ("", "02", "06"):
            HEXTEXT.append((self, int(s[:-1] or "0")))
            return "\ue000%d\ue001" % (len(HEXTEXT) - 1)
        return repr(self)


HEXTEXT = []


def hex_value(text, base):
    """the number written by text that contains hexadecimal digits of symbolic whole numbers"""
    import re
    text = text.strip().replace("_", "")
    if base == 0 or text[:2].lower() == "0x":
        if text[:2].lower() != "0x":
            raise Unsupported("int() of symbolic digits")
        text, base = text[2:], 16
    if base != 16:
        raise Unsupported("int() of symbolic digits")
    total = 0
    for part in re.findall("\ue000[0-9]+\ue001|[^\ue000]", text):
        if part[0] != "\ue000":
            total = total * 16 + int(part, 16)
            continue
        v, width = HEXTEXT[int(part[1:-1])]
        if v < 0:
            raise ValueError("invalid literal for int() with base 16")
        n = max(width, 1)
        while not v < 16 ** n:
            n += 1
            if n > 12:
                raise Unsupported("int() of symbolic digits")
        total = total * 16 ** n + v
    return total


def issym(x):
    return isinstance(x, (SymNum, SymBool, NonFinite))


# ---------------------------------------------------------------------------------
# Solving

def _model_value(v):
    """python float/Fraction string of a z3 model value"""
    if z3.is_int_value(v):
        return ("i", v.as_long())
    if z3.is_rational_value(v):
        return ("q", (v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(40)
        return ("q", (a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return ("b", True)
    if z3.is_false(v):
        return ("b", False)
    if z3.is_bv_value(v):
        return ("i", v.as_long())
    return ("?", str(v))


def has_int(fs):
    seen = set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_int(e) or z3.is_bv(e):
            return True
        stack.extend(e.children())
    return False


def _strategies(fs):
    out = []
    ints = has_int(fs)

    def nlsat():
        t = z3.Then("simplify", "solve-eqs", "qfnra-nlsat")
        return t.solver()

    def nlsat2():
        t = z3.Then(z3.With("simplify", som=True), "qfnra-nlsat")
        return t.solver()

    def smt():
        return z3.Solver()

    def smt2():
        s = z3.SimpleSolver()
        s.set("arith.solver", 6)
        return s

    if not ints:
        out = [("nlsat", nlsat), ("smt", smt), ("nlsat-som", nlsat2), ("cvc5", None)]
    else:
        out = [("smt", smt), ("cvc5", None), ("simple", smt2)]
    return out


def _child(fs, names, strat, wfd, tmo):
    try:
        if strat[0] == "cvc5":
            import subprocess, tempfile
            s = z3.Solver()
            s.add(*fs)
            body = s.to_smt2()
            body = "(set-logic ALL)\n" + body
            body = body.replace("(check-sat)", "")
            names_l = [n for n, _ in names]
            body += "\n(check-sat)\n"
            if names_l:
                body += "(get-value (" + " ".join(("|%s|" % n) for n in names_l) + "))\n"
            p = subprocess.Popen(["cvc5", "--produce-models", "--nl-cov", "--tlimit=%d" % int(tmo * 1000), "-"],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            o, _ = p.communicate(body)
            res = o.split("\n", 1)[0].strip()
            if res == "unsat":
                out = ("unsat", None, "cvc5")
            else:
                # models are taken from z3 strategies only
                out = ("unknown", None, "cvc5:" + res)
        else:
            s = strat[1]()
            s.set("timeout", int(tmo * 1000))
            s.add(*fs)
            r = s.check()
            if r == z3.sat:
                m = s.model()
                vals = {}
                for n, t in names:
                    try:
                        vals[n] = _model_value(m.eval(t, model_completion=True))
                    except Exception as e:
                        vals[n] = ("?", repr(e))
                out = ("sat", vals, strat[0])
            else:
                out = (str(r), None, strat[0])
    except BaseException as e:
        out = ("unknown", None, strat[0] + " error " + repr(e)[:200])
    try:
        os.write(wfd, pickle.dumps(out))
    finally:
        os._exit(0)


def portfolio(fs, names, tmo, parallel=True):
    """decide the conjunction fs with several strategies in killable child processes.
    names: list of (name, term) to report values for.  -> (result, values, strategy)"""
    strats = _strategies(fs)
    kids = {}
    t0 = time.time()
    groups = [strats] if parallel else [[s] for s in strats]
    last = ("unknown", None, "timeout")
    for grp in groups:
        sys.stdout.flush()
        for st in grp:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                _child(fs, names, st, w, tmo)
            os.close(w)
            kids[r] = (pid, st[0], b"")
        ans = None
        end = time.time() + tmo + 1
        while kids and ans is None:
            left = end - time.time()
            if left <= 0:
                break
            rd, _, _ = select.select(list(kids), [], [], left)
            for fd in rd:
                pid, nm, buf = kids[fd]
                data = os.read(fd, 1 << 16)
                if data:
                    kids[fd] = (pid, nm, buf + data)
                    continue
                os.close(fd)
                del kids[fd]
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                if not buf:
                    continue
                out = pickle.loads(buf)
                if out[0] in ("sat", "unsat"):
                    ans = out
                    break
                last = out
        for fd, (pid, nm, buf) in list(kids.items()):
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
            os.close(fd)
        kids = {}
        if ans is not None:
            return ans
    return last


# ---------------------------------------------------------------------------------
# polynomial normal form (atoms: constants and uninterpreted subterms; s*s -> t for s = sqrt(t))

PMAX = 250


def _padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


class Poly:
    """polynomial helper bound to one path of an engine"""

    def __init__(self, eng):
        self.eng = eng
        self.memo = {}
        self.atoms = {}
        self.names = {}
        self.rules = {}     # atom id -> polynomial of its square
        self.keep = []
        self.signs = {}     # literal key -> set of possible signs
        self.bounds = {}    # form without constant -> (lower, strict, upper, strict)
        self.quots = {}     # quotient atom id -> (order, numerator, denominator)
        self.qrules = {}    # quotient atom id -> (denominator atom id, numerator polynomial)
        self.linvars = {}
        self.linmemo = {}

    def atom(self, t):
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = t
            self.names[i] = t.decl().name() if t.num_args() == 0 else "~%08d" % i
        return {((i, 1),): Fraction(1)}

    def mono(self, m1, m2):
        d = dict(m1)
        for i, e in m2:
            d[i] = d.get(i, 0) + e
        return tuple(sorted(d.items()))

    def mul(self, a, b):
        if len(a) * len(b) > 4 * PMAX:
            return None
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mono(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        return self.reduce(r)

    def cancel(self, p):
        """quotient times its denominator -> numerator, for denominators that are single symbols"""
        if not self.qrules:
            return p
        for _ in range(40):
            hit = None
            for m in p:
                if len(m) < 2:
                    continue
                d = None
                for i, e in m:
                    b = self.qrules.get(i)
                    if b is not None:
                        d = d or dict(m)
                        if b[0] in d:
                            hit = (m, d, i, b[0], b[1])
                            break
                if hit:
                    break
            if not hit:
                return p
            m, d, i, b, num = hit
            c = p[m]
            k = min(d[i], d[b])
            d[i] -= k
            d[b] -= k
            q = {tuple(sorted((x, e) for x, e in d.items() if e)): c}
            for _ in range(k):
                q2 = {}
                for m1, c1 in q.items():
                    for m2, c2 in num.items():
                        mm = self.mono(m1, m2)
                        v = q2.get(mm, 0) + c1 * c2
                        if v == 0:
                            q2.pop(mm, None)
                        else:
                            q2[mm] = v
                q = q2
            p = _padd({x: v for x, v in p.items() if x != m}, q)
            if len(p) > PMAX:
                return p
        return p

    def reduce(self, p):
        p = self.cancel(p)
        if not self.rules:
            return p
        for _ in range(12):
            hit = None
            for m in p:
                for i, e in m:
                    if e >= 2 and i in self.rules:
                        hit = (m, i, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, i, e = hit
            c = p[m]
            rest = tuple((j, k) for j, k in m if j != i)
            base = {rest if e % 2 == 0 else self.mono(rest, ((i, 1),)): c}
            p = {k: v for k, v in p.items() if k != m}
            q = base
            for _ in range(e // 2):
                q2 = {}
                for m1, c1 in q.items():
                    for m2, c2 in self.rules[i].items():
                        mm = self.mono(m1, m2)
                        v = q2.get(mm, 0) + c1 * c2
                        if v == 0:
                            q2.pop(mm, None)
                        else:
                            q2[mm] = v
                q = q2
            p = self.cancel(_padd(p, q))
            if len(p) > PMAX:
                return p
        # many monomials: apply the rules until none is left
        return self.reduce(p) if len(p) <= PMAX else p

    def poly(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._poly(t)
        if r is not None and len(r) > PMAX:
            r = None
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _poly(self, t):
        if isval(t):
            f = fval(t)
            return {(): f} if f else {}
        if not z3.is_app(t):
            return self.atom(t)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                p = self.poly(c)
                if p is None:
                    return None
                r = _padd(r, p)
            return r
        if k == z3.Z3_OP_SUB:
            r = None
            for c in t.children():
                p = self.poly(c)
                if p is None:
                    return None
                r = p if r is None else _padd(r, p, -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            p = self.poly(t.arg(0))
            return None if p is None else {m: -c for m, c in p.items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children():
                p = self.poly(c)
                if p is None:
                    return None
                r = self.mul(r, p)
                if r is None:
                    return None
            return r
        if k == z3.Z3_OP_POWER and isval(t.arg(1)) and fval(t.arg(1)).denominator == 1 and 0 < fval(t.arg(1)) <= 8:
            p = self.poly(t.arg(0))
            if p is None:
                return None
            r = {(): Fraction(1)}
            for _ in range(int(fval(t.arg(1)))):
                r = self.mul(r, p)
                if r is None:
                    return None
            return r
        return self.atom(t)

    def term(self, p):
        if not p:
            return rv(0)
        out = []
        for m, c in sorted(p.items(), key=lambda x: self.mkey(x[0])):
            fs = []
            for i, e in m:
                fs += [self.atoms[i]] * e
            if not fs:
                out.append(rv(c))
                continue
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            out.append(t if c == 1 else rv(c) * t)
        if len(out) == 1:
            return out[0]
        return z3.Sum(out)

    def mkey(self, m):
        return (-sum(e for _, e in m), tuple((self.names[i], e) for i, e in m))

    def norm(self, t):
        """normal form of a real term"""
        if isval(t) or z3.is_int(t):
            return t
        p = self.poly(t)
        if p is None:
            return t
        return self.term(p)

    def square_root(self, p):
        """q with q*q == p for a polynomial that is the exact square of another, else None"""
        if len(p) < 3 or len(p) > 60:
            return None
        q = []
        for m, c in p.items():
            if any(e % 2 for _, e in m):
                continue
            rn, rd = (math.isqrt(c.numerator), math.isqrt(c.denominator)) if c > 0 else (0, 1)
            if c <= 0 or rn * rn != c.numerator or rd * rd != c.denominator:
                return None
            q.append((tuple((i, e // 2) for i, e in m), Fraction(rn, rd)))
        if len(q) < 2 or len(q) * (len(q) + 1) // 2 != len(p):
            return None
        m0, c0 = q[0]
        out = {m0: c0}
        for m, c in q[1:]:
            x = p.get(self.mono(m0, m))
            if x is None:
                return None
            out[m] = c if x > 0 else -c
        return out if self.mul(out, out) == p else None

    def lead(self, p):
        return min(p, key=self.mkey)

    def cleared(self, t):
        """the term with every quotient cleared (multiplied by the non-zero denominators), as a polynomial"""
        p = self.poly(t)
        for _ in range(24):
            if p is None or len(p) > PMAX:
                return None
            qs = {i for m in p for i, e in m if i in self.quots}
            if not qs:
                return p
            q = max(qs, key=lambda i: self.quots[i][0])
            _, a, b = self.quots[q]
            pa, pb = self.poly(a), self.poly(b)
            if pa is None or pb is None:
                return None
            E = max(e for m in p for i, e in m if i == q)
            pw = [{(): Fraction(1)}]
            qw = [{(): Fraction(1)}]
            for _ in range(E):
                pw.append(self.mul(pw[-1], pa) if pw[-1] is not None else None)
                qw.append(self.mul(qw[-1], pb) if qw[-1] is not None else None)
            if any(x is None or len(x) > PMAX for x in pw + qw):
                return None
            byexp = {}
            for m, c in p.items():
                e = dict(m).get(q, 0)
                byexp.setdefault(e, {})[tuple(x for x in m if x[0] != q)] = c
            r = {}
            for e, part in byexp.items():
                f = self.mul(pw[e], qw[E - e])
                f = self.mul(part, f) if f is not None else None
                if f is None:
                    return None
                r = _padd(r, f)
            p = r
        return None

    def iszero(self, t):
        """True when the term vanishes identically (denominators are known to be non-zero)"""
        if not self.quots:
            return False
        p = self.cleared(t)
        return p is not None and not p

    def literal(self, a, b, op):
        """comparison a op b -> True/False or (key, allowed signs, term)"""
        p = self.poly(a - b)
        if p is None:
            return None
        allowed = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {1, 0}, "==": {0}, "!=": {-1, 1}}[op]
        if not p:
            return 0 in allowed
        if len(p) == 1 and () in p:
            return (1 if p[()] > 0 else -1) in allowed
        m = self.lead(p)
        c = p[m]
        if c != 1:
            p = {k: v / c for k, v in p.items()}
            if c < 0:
                allowed = {-x for x in allowed}
        key = frozenset(p.items())
        return (key, frozenset(allowed), p)

    def build(self, allowed, p):
        # keep the constant on the right hand side
        c = p.get((), Fraction(0))
        t = self.term({m: v for m, v in p.items() if m != ()})
        r = rv(-c)
        return {frozenset({-1}): lambda: t < r, frozenset({-1, 0}): lambda: t <= r, frozenset({1}): lambda: t > r,
                frozenset({1, 0}): lambda: t >= r, frozenset({0}): lambda: t == r,
                frozenset({-1, 1}): lambda: t != r}[frozenset(allowed)]()

    KINDS = {z3.Z3_OP_LT: "<", z3.Z3_OP_LE: "<=", z3.Z3_OP_GT: ">", z3.Z3_OP_GE: ">=", z3.Z3_OP_EQ: "==",
             z3.Z3_OP_DISTINCT: "!="}
    NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

    def normb(self, c, neg=False):
        """normalise a boolean term, folding what the known signs decide"""
        return self._normb(c, neg, {})

    def _normb(self, c, neg, memo):
        key = (c.get_id(), neg)
        r = memo.get(key)
        if r is None:
            r = self._normb1(c, neg, memo)
            memo[key] = (r, c)
            return r
        return r[0]

    def _normb1(self, c, neg, memo):
        if not z3.is_app(c):
            return z3.Not(c) if neg else c
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self._normb(c.arg(0), not neg, memo)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = [self._normb(x, neg, memo) for x in c.children()]
            conj = (k == z3.Z3_OP_AND) != neg
            out = []
            for x in ch:
                if z3.is_true(x):
                    if not conj:
                        return z3.BoolVal(True)
                    continue
                if z3.is_false(x):
                    if conj:
                        return z3.BoolVal(False)
                    continue
                out.append(x)
            if not out:
                return z3.BoolVal(conj)
            if len(out) == 1:
                return out[0]
            return z3.And(*out) if conj else z3.Or(*out)
        if k in self.KINDS and c.num_args() == 2 and z3.is_real(c.arg(0)):
            op = self.KINDS[k]
            if neg:
                op = self.NEG[op]
            l = self.literal(c.arg(0), c.arg(1), op)
            if l is True or l is False:
                return z3.BoolVal(l)
            if l is not None:
                key, allowed, p = l
                kn = self.known(key, p)
                if kn is not None:
                    if kn <= allowed:
                        return z3.BoolVal(True)
                    if not (kn & allowed):
                        return z3.BoolVal(False)
                return self.build(allowed, p)
        return z3.Not(c) if neg else c

    def learn(self, c, neg=False):
        """record the sign information of an asserted literal"""
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            return self.learn(c.arg(0), not neg)
        if (k == z3.Z3_OP_AND and not neg) or (k == z3.Z3_OP_OR and neg):
            for x in c.children():
                self.learn(x, neg)
            return
        if k in self.KINDS and c.num_args() == 2 and z3.is_real(c.arg(0)):
            op = self.KINDS[k]
            if neg:
                op = self.NEG[op]
            l = self.literal(c.arg(0), c.arg(1), op)
            if l is None or l is True or l is False:
                return
            key, allowed, p = l
            self.signs[key] = self.signs.get(key, frozenset({-1, 0, 1})) & allowed
            c = p.get((), Fraction(0))
            k0 = frozenset((m, v) for m, v in p.items() if m != ())
            lo, ls, hi, hs = self.bounds.get(k0, (None, False, None, False))
            if -1 not in allowed:       # form >= -c
                st = 0 not in allowed
                if lo is None or -c > lo or (-c == lo and st):
                    lo, ls = -c, st
            if 1 not in allowed:
                st = 0 not in allowed
                if hi is None or -c < hi or (-c == hi and st):
                    hi, hs = -c, st
            self.bounds[k0] = (lo, ls, hi, hs)

    def known(self, key, p):
        """possible signs of the form p, None when nothing is known"""
        kn = self.signs.get(key)
        c = p.get((), Fraction(0))
        k0 = key if c == 0 else frozenset((m, v) for m, v in p.items() if m != ())
        b = self.bounds.get(k0)
        if b is None:
            return kn
        lo, ls, hi, hs = b
        s = set(kn) if kn is not None else {-1, 0, 1}
        if lo is not None:
            if lo + c > 0:
                s &= {1}
            elif lo + c == 0:
                s &= {1} if ls else {0, 1}
        if hi is not None:
            if hi + c < 0:
                s &= {-1}
            elif hi + c == 0:
                s &= {-1} if hs else {0, -1}
        return frozenset(s)


    # ---- linear relaxation: every non-linear monomial is an opaque variable ----
    def lin_term(self, t):
        p = self.poly(t)
        if p is None:
            return self.lin_atom(t)
        out = []
        for m, c in p.items():
            if not m:
                out.append(rv(c))
            elif len(m) == 1 and m[0][1] == 1:
                out.append(rv(c) * self.lin_atom(self.atoms[m[0][0]]))
            else:
                v = self.linvars.get(m)
                if v is None:
                    v = self.linvars[m] = z3.FreshReal("lin")
                out.append(rv(c) * v)
        return z3.Sum(out) if len(out) > 1 else (out[0] if out else rv(0))

    def lin_atom(self, t):
        if t.num_args() == 0:
            return t
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(self.lin_bool(t.arg(0)), self.lin_term(t.arg(1)), self.lin_term(t.arg(2)))
        i = ("atom", t.get_id())
        if i not in self.linvars:
            self.linvars[i] = z3.FreshReal("lin")
            self.keep.append(t)
        return self.linvars[i]

    def lin_bool(self, c):
        i = c.get_id()
        r = self.linmemo.get(i)
        if r is None:
            r = self._lin_bool(c)
            self.linmemo[i] = r
            self.keep.append(c)
        return r

    def _lin_bool(self, c):
        k = c.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or (c.num_args() == 0):
            return c
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.lin_bool(c.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.lin_bool(x) for x in c.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.lin_bool(x) for x in c.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.lin_bool(c.arg(0)), self.lin_bool(c.arg(1)))
        if k == z3.Z3_OP_EQ and z3.is_bool(c.arg(0)):
            return self.lin_bool(c.arg(0)) == self.lin_bool(c.arg(1))
        if k in self.KINDS and c.num_args() == 2 and z3.is_real(c.arg(0)) and k != z3.Z3_OP_DISTINCT:
            d = self.lin_term(c.arg(0) - c.arg(1))
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0}[self.KINDS[k]]
        b = ("b", c.get_id())
        if b not in self.linvars:
            self.linvars[b] = z3.FreshBool("lin")
            self.keep.append(c)
        return self.linvars[b]

    def linear_unsat(self, fs, ms=1500):
        """True when the linear relaxation is already unsatisfiable (hence fs is)"""
        try:
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", ms)
            s.add(*[self.lin_bool(f) for f in fs])
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False


class Engine:
    def __init__(self, query_timeout=60.0, branch_timeout=2.0, max_paths=20000, deadline=None):
        self.query_timeout = query_timeout
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.zero_div = "nonfinite"
        self.stats = dict(paths=0, infeasible=0, branches=0, feas_queries=0, queries=0, unsat=0, sat=0, unknown=0,
                          trivially=0, solver_s=0.0, feas_unknown=0, raised=0, max_depth=0)
        self.notes = {}
        self.violations = []
        self.inconclusive = []
        self.witness = {}   # label -> reached satisfiable
        self.strat = {}
        self.labels = {}
        self.max_violations = 3
        self.n_alt = 2
        self.ladder = (0.3, 1e-2, 1e-3, 1e-5)
        self.covers = {}
        self.witnesses = []
        self.max_witness = 1
        self.plain = False
        self.witness_hook = True

    # ---- path bookkeeping -------------------------------------------------
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.pc = []          # path condition / axioms / assumptions
        self.inputs = []      # (name, kind, term)
        self.fresh_n = 0
        self.cache = {}
        self.scaled = []
        self.angles = []      # (theta, cos, cond)
        self.logs = []        # (arg, log)
        self.repairs = {}     # input name -> list of (kind, terms)
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set("timeout", int(self.branch_timeout * 1000))
        self.model = None
        self.P = Poly(self)
        self.draws = 0
        self.checks_on_path = 0
        self.path_labels = set()

    def note(self, s):
        self.notes[s] = self.notes.get(s, 0) + 1

    def add(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        self.P.learn(c)

    def fresh(self, base, sort=REAL):
        self.fresh_n += 1
        n = "%s!%d" % (base, self.fresh_n)
        if sort == "int":
            return z3.Int(n)
        if sort == "bool":
            return z3.Bool(n)
        return z3.Real(n)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = z3.Real(name)
        self.inputs.append((name, "real", v))
        if lo is not None:
            self.add(v > rv(lo) if lo_open else v >= rv(lo))
        if hi is not None:
            self.add(v < rv(hi) if hi_open else v <= rv(hi))
        return SymReal(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs.append((name, "int", v))
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.append((name, "bool", v))
        return SymBool(v)

    def _feasible(self, cond):
        """is pc & cond satisfiable? True/False/None"""
        self.stats["feas_queries"] += 1
        t0 = time.time()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        self.solver.pop()
        self.stats["solver_s"] += time.time() - t0
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        # second opinion
        self.stats["feas_unknown"] += 1
        if self.P.linear_unsat(self.pc + [cond]):
            return False
        t0 = time.time()
        res, _, st = portfolio(self.pc + [cond], [], self.branch_timeout * 2)
        self.stats["solver_s"] += time.time() - t0
        if res == "unsat":
            return False
        if res == "sat":
            return True
        return None

    def simp(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c) or z3.is_false(c) or self.plain:
            return c
        return self.P.normb(c)

    def branch(self, cond, quiet=False):
        cond = self.simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.deadline and time.time() > self.deadline:
            raise PathLimit("deadline")
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            self.stats["branches"] += 1
            ft = self._feasible(cond)
            if ft is False:
                ff = None
                d = False
            else:
                ff = self._feasible(z3.Not(cond))
                d = True
                if ff is False:
                    pass
                else:
                    self.work.append(self.decisions + [False])
        self.decisions.append(d)
        self.add(cond if d else z3.Not(cond))
        if len(self.decisions) > self.stats["max_depth"]:
            self.stats["max_depth"] = len(self.decisions)
        if len(self.decisions) > 4000:
            raise PathLimit("path depth")
        return d

    def concretize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(400):
            if self.pos < len(self.prefix):
                # decision stored as ("v", value) tuples
                d = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(d)
                kind, v = d
                if kind == "v":
                    self.add(t == v)
                    return v
                self.add(t != v)
                continue
            t0 = time.time()
            r = self.solver.check()
            self.stats["solver_s"] += time.time() - t0
            self.stats["feas_queries"] += 1
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Unsupported("cannot concretise integer")
            v = self.solver.model().eval(t, model_completion=True).as_long()
            if self._feasible(t != v) is not False:
                self.work.append(self.decisions + [("n", v)])
            self.pos += 1
            self.decisions.append(("v", v))
            self.add(t == v)
            return v
        raise Unsupported("integer with too many values")

    # ---- mathematics ------------------------------------------------------
    def quotient(self, a, b):
        a, b = self.P.norm(a), self.P.norm(b)
        if isval(b) and fval(b) != 0:
            return mk(_mul(rv(1 / fval(b)), a))
        if isval(a) and fval(a) == 0:
            return mk(rv(0))
        pa, pb = self.P.poly(a), self.P.poly(b)
        if pa and pb and len(pa) == len(pb):
            la, lb = self.P.lead(pa), self.P.lead(pb)
            if la == lb:
                k = pa[la] / pb[lb]
                if all(pb.get(m) is not None and c == k * pb[m] for m, c in pa.items()):
                    return mk(rv(k))
        if pa and pb:
            ca, cb = pa[self.P.lead(pa)], pb[self.P.lead(pb)]
            if ca != 1 or cb != 1:
                na = self.P.term({m: c / ca for m, c in pa.items()})
                nb = self.P.term({m: c / cb for m, c in pb.items()})
                if not (isval(na) and isval(nb)):
                    return self.quotient(na, nb) * mk(rv(ca / cb))
        key = ("q", a.get_id(), b.get_id())
        if key in self.cache:
            return self.cache[key][0]
        for i, (_, a2, b2) in self.P.quots.items():
            # the same ratio written differently
            if self.P.iszero(a * b2 - a2 * b):
                return mk(self.P.atoms[i])
        q = self.fresh("q")
        self.add(q * b == a)
        self.P.atom(q)
        self.P.quots[q.get_id()] = (len(self.P.quots), a, b)
        if pb is not None and pa is not None and len(pb) == 1 and len(pa) <= 12:
            (m, c), = pb.items()
            if len(m) == 1 and m[0][1] == 1:
                self.P.qrules[q.get_id()] = (m[0][0], {k: v / c for k, v in pa.items()})
        r = mk(q)
        self.cache[key] = (r, a, b)
        return r

    def sqrt(self, t):
        t = self.P.norm(z3.simplify(t))
        if isval(t):
            f = fval(t)
            if f < 0:
                return NonFinite("nan")
            n, d = f.numerator, f.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return mk(rv(Fraction(rn, rd)))
        k = Fraction(1)
        p = self.P.poly(t)
        if p:
            c = abs(p[self.P.lead(p)])
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if c != 1 and rn * rn == c.numerator and rd * rd == c.denominator:
                k = Fraction(rn, rd)
                p = {m: v / c for m, v in p.items()}
                t = self.P.term(p)
        if k != 1:
            t0 = z3.simplify(t * rv(k * k))
            for r2, t2 in self.scaled:
                if self.P.iszero(t0 - t2):
                    return r2
            r = self.sqrt1(t, p)
            if isinstance(r, NonFinite):
                return r
            r = r * k
            if self.P.quots:
                self.scaled.append((r, t0))
            return r
        return self.sqrt1(t, p)

    def rule(self, s, t):
        """normal form rewriting of s*s to t (an equality already asserted)"""
        p = self.P.poly(t)
        if p is not None:
            self.P.atom(s)
            self.P.rules[s.get_id()] = p

    def sqrt1(self, t, p):
        key = ("s", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.branch(t < 0, quiet=True):
            return NonFinite("nan")
        sq = self._square_root_of(t)
        if sq is None and p is not None:
            q = self.P.square_root(p)
            if q is not None:
                q = self.P.term(q)
                sq = q if self.branch(q >= 0, quiet=True) else self.P.norm(-q)
        if sq is not None:
            r = mk(sq)
        else:
            for r2, t2 in [v for k, v in self.cache.items() if k[0] == "s"]:
                if not isinstance(r2, NonFinite) and self.P.iszero(t - t2):
                    return r2
            s = self.fresh("sqrt")
            self.add(s >= 0)
            self.add(s * s == t)
            if p is not None:
                self.P.atom(s)
                self.P.rules[s.get_id()] = p
            r = mk(s)
        self.cache[key] = (r, t)
        return r

    def _square_root_of(self, t):
        """|x| * c when t is syntactically c^2 * x^2"""
        if z3.is_mul(t):
            coef = Fraction(1)
            facs = []
            for c in t.children():
                if isval(c):
                    coef *= fval(c)
                else:
                    facs.append(c)
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER:
            coef = Fraction(1)
            facs = [t]
        else:
            return None
        ids = {}
        for f in facs:
            n = 1
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_POWER and isval(f.arg(1)):
                k = fval(f.arg(1))
                if k.denominator != 1:
                    return None
                f, n = f.arg(0), int(k)
            ids.setdefault(f.get_id(), [f, 0])[1] += n
        if any(n % 2 for _, n in ids.values()):
            return None
        rn, rd = math.isqrt(abs(coef.numerator)), math.isqrt(coef.denominator)
        if coef < 0 or rn * rn != coef.numerator or rd * rd != coef.denominator:
            return None
        x = rv(Fraction(rn, rd))
        for f, n in ids.values():
            for _ in range(n // 2):
                x = _mul(x, f)
        return abs(mk(x)).t

    def _register_angle(self, th, c, cond=None):
        """th in [0, pi] (when cond) with cosine c"""
        PI = rv(math.pi)
        pre = (lambda f: f) if cond is None else (lambda f: z3.Implies(cond, f))
        self.add(pre(z3.And(th >= 0, th <= PI)))
        self.add(pre((th < rv(math.pi / 2)) == (c > 0)))
        self.add(pre((th > rv(math.pi / 2)) == (c < 0)))
        self.add(pre((th == 0) == (c == 1)))
        for th2, c2, cond2 in self.angles:
            f = z3.And((th < th2) == (c > c2), (th > th2) == (c < c2))
            conds = [x for x in (cond, cond2) if x is not None]
            self.add(z3.Implies(z3.And(*conds), f) if conds else f)
        self.angles.append((th, c, cond))

    def known_trig(self, th, s, c):
        """remember an angle's sine and cosine by its term (values lose their tag in arithmetic)"""
        self.cache[("t", th.get_id())] = ((s, c), th)
        return SymReal(th, trig=(s, c))

    def trig(self, x):
        """(sin, cos) of x"""
        if x.trig is not None:
            return x.trig
        t = z3.simplify(x.t)
        if isval(t):
            f = float(fval(t))
            return mk(rv(math.sin(f))), mk(rv(math.cos(f)))
        key = ("t", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        nt = z3.simplify(-t)
        key2 = ("t", nt.get_id())
        if key2 in self.cache:
            s, c = self.cache[key2][0]
            return (-s, c)
        s = self.fresh("sin")
        c = self.fresh("cos")
        self.add(s * s + c * c == 1)
        self.add(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
        self.rule(s, 1 - c * c)
        self.repair_angle(t, s, c)
        r = (mk(s), mk(c))
        self.cache[key] = (r, t)
        return r

    def repair_angle(self, t, s, c):
        # t = k * input: remember to recompute the input from (s, c) for the replay
        self.repairs.setdefault("angle", []).append((t, s, c))

    def angle_input(self, name, c_lo=0, c_hi=1):
        """an input angle in [0, pi], represented by its cosine"""
        c = z3.Real(name + "_cos")
        th = z3.Real(name)
        self.inputs.append((name + "_cos", "real", c))
        self.add(z3.And(c >= rv(c_lo), c <= rv(c_hi)))
        s = self.fresh("sin")
        self.add(z3.And(s >= 0, s * s == 1 - c * c))
        self.rule(s, 1 - c * c)
        self._register_angle(th, c)
        return self.known_trig(th, mk(s), mk(c))

    def arccos(self, t):
        t = z3.simplify(t)
        if isval(t):
            f = float(fval(t))
            if not -1 <= f <= 1:
                return NonFinite("nan")
            s = self.sqrt(1 - t * t)
            if f in (-1.0, 0.0, 1.0) or not isval(s.t):
                return SymReal(rv(math.acos(f)), trig=(s, mk(t)))
            # an angle known by its exact sine and cosine
            key = ("acos", t.get_id())
            if key in self.cache:
                return self.cache[key][0]
            th = self.fresh("acos")
            self.add(z3.And(th >= rv(math.acos(f) - 1e-12), th <= rv(math.acos(f) + 1e-12)))
            self._register_angle(th, t)
            r = self.known_trig(th, s, mk(t))
            self.cache[key] = (r, t)
            return r
        key = ("acos", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.branch(z3.Or(t < -1, t > 1), quiet=True):
            return NonFinite("nan")
        th = self.fresh("acos")
        s = self.sqrt(1 - t * t)
        self._register_angle(th, t)
        r = self.known_trig(th, s, mk(t))
        self.cache[key] = (r, t)
        return r

    def arcsin(self, t):
        t = z3.simplify(t)
        if isval(t):
            f = float(fval(t))
            return mk(rv(math.asin(f))) if -1 <= f <= 1 else NonFinite("nan")
        key = ("asin", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.branch(z3.Or(t < -1, t > 1), quiet=True):
            return NonFinite("nan")
        th = self.fresh("asin")
        c = self.sqrt(1 - t * t)
        self.add(z3.And(th >= rv(-math.pi / 2), th <= rv(math.pi / 2)))
        self.add((th >= 0) == (t >= 0))
        self._register_angle(th, c.t, cond=(t >= 0))
        r = self.known_trig(th, mk(t), c)
        self.cache[key] = (r, t)
        return r

    def log(self, t):
        t = z3.simplify(t)
        if isval(t):
            f = fval(t)
            if f <= 0:
                return NonFinite("-inf" if f == 0 else "nan")
            return mk(rv(math.log(f)))
        key = ("log", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        if self.branch(t <= 0, quiet=True):
            return NonFinite("-inf") if self.branch(t == 0, quiet=True) else NonFinite("nan")
        L = self.fresh("log")
        self.add((L < 0) == (t < 1))
        self.add((L == 0) == (t == 1))
        self.add(L <= t - 1)
        for t2, L2 in self.logs:
            self.add((L < L2) == (t < t2))
            self.add((L == L2) == (t == t2))
        self.logs.append((t, L))
        r = mk(L)
        self.cache[key] = (r, t)
        return r

    def exp(self, t):
        t = z3.simplify(t)
        if isval(t):
            return mk(rv(math.exp(fval(t))))
        key = ("exp", t.get_id())
        if key in self.cache:
            return self.cache[key][0]
        e = self.fresh("exp")
        self.add(e > 0)
        self.add((e < 1) == (t < 0))
        self.add((e == 1) == (t == 0))
        self.add(e >= t + 1)
        for t2, L2 in self.logs:
            self.add((t < L2) == (e < t2))
            self.add((t == L2) == (e == t2))
        self.logs.append((e, t))
        r = mk(e)
        self.cache[key] = (r, t)
        return r

    # ---- harness side -----------------------------------------------------
    def assume(self, cond):
        c = self.simp(bt(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort()
        self.add(c)

    def path_feasible(self):
        """certified satisfiability of the current path condition"""
        t0 = time.time()
        r = self.solver.check()
        self.stats["solver_s"] += time.time() - t0
        if r == z3.sat:
            return True
        if r == z3.unsat:
            return False
        res, _, _ = portfolio(self.pc, [], self.query_timeout)
        return {"sat": True, "unsat": False}.get(res)

    def _lab(self, label):
        lab = self.labels.setdefault(label, dict(n=0, unsat=0, trivial=0, witnessed=0))
        lab["n"] += 1
        self.checks_on_path += 1
        self.path_labels.add(label)
        return lab

    def _names(self):
        return [(n, t) for n, k, t in self.inputs] + self._repair_terms()

    def _violate(self, label, neg, vals, names):
        self.stats["sat"] += 1
        models = [self.extract(vals)]
        if self.n_alt and len(self.violations) < self.max_violations:
            models += self._alternatives(neg, names, vals)
        self.violations.append(dict(label=label, models=models))
        return False

    def _alternatives(self, neg, names, vals):
        """further models of the violation, away from the first one"""
        out = []
        prev = [vals]
        reals = [(n, t) for n, k, t in self.inputs if k == "real"]
        if not reals:
            return out
        for k in range(self.n_alt):
            cs = []
            for n, t in reals:
                v = prev[-1].get(n)
                if not v or v[0] not in ("q", "i"):
                    continue
                f = Fraction(v[1][0], v[1][1]) if v[0] == "q" else Fraction(v[1])
                d = Fraction(1, 7 + 6 * k)
                cs.append(z3.Or(t - rv(f) > rv(d), rv(f) - t > rv(d)))
            if not cs:
                break
            groups = [cs, [z3.Or(*cs)]]
            for g in groups:
                res, v2, _ = portfolio(self.pc + [neg] + g, names, 4)
                if res == "sat":
                    prev.append(v2)
                    out.append(self.extract(v2))
                    break
            else:
                break
        return out

    def check(self, cond, label, info=None, hints=()):
        """assert cond for every value on this path"""
        c = self.simp(bt(cond))
        st = self.stats
        lab = self._lab(label)
        if z3.is_true(c):
            st["trivially"] += 1
            lab["trivial"] += 1
            return True
        st["queries"] += 1
        neg = z3.Not(c)
        names = self._names()
        t0 = time.time()
        res, vals, strat = self.decide(neg, names)
        st["solver_s"] += time.time() - t0
        self.strat[strat] = self.strat.get(strat, 0) + 1
        if res == "unsat":
            st["unsat"] += 1
            lab["unsat"] += 1
            return True
        if res == "sat":
            return self._violate(label, neg, vals, names)
        st["unknown"] += 1
        self.inconclusive.append(label + " (" + str(strat) + ")")
        return None

    def word_check(self, bad, label, words):
        """assert that no value of the machine words satisfies bad (bit-vector and floating-point arithmetic)"""
        lab = self._lab(label)
        st = self.stats
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            st["trivially"] += 1
            lab["trivial"] += 1
            return True
        st["queries"] += 1
        t0 = time.time()
        S = z3.Solver()
        S.set("timeout", 120000)
        S.add(bad)
        r = S.check()
        st["solver_s"] += time.time() - t0
        self.strat["bitvectors"] = self.strat.get("bitvectors", 0) + 1
        if r == z3.unsat:
            st["unsat"] += 1
            lab["unsat"] += 1
            return True
        if r == z3.sat:
            m = S.model()
            st["sat"] += 1
            inp = self.extract({})
            inp.update({n: m.eval(t, model_completion=True).as_long() for n, t in words.items()})
            self.violations.append(dict(label=label, models=[inp]))
            return False
        st["unknown"] += 1
        self.inconclusive.append(label + " (bit vectors)")
        return None

    def check_margin(self, d, label, tol, both):
        """assert |d| <= tol (both) or d <= tol; large deviations are searched first"""
        d = self.P.norm(z3.simplify(d))
        if isval(d):
            f = fval(d)
            return self.check(bool(abs(f) <= fr(tol)) if both else bool(f <= fr(tol)), label)
        st = self.stats
        lab = self._lab(label)
        if (both and self.P.iszero(d)):
            st["trivially"] += 1
            lab["trivial"] += 1
            return True
        st["queries"] += 1
        names = self._names()

        def over(m):
            m = rv(m)
            return z3.Or(d > m, d < -m) if both else d > m
        t0 = time.time()
        res, vals, strat = self.decide(z3.Not(d == 0) if both else d > 0, names)
        if res == "unsat":
            st["solver_s"] += time.time() - t0
            self.strat[strat] = self.strat.get(strat, 0) + 1
            st["unsat"] += 1
            lab["unsat"] += 1
            return True
        out = None
        for m in self.ladder + (tol,):
            if m < tol:
                continue
            last = m == tol
            save = self.query_timeout
            if not last:
                self.query_timeout = min(save, 8)
            r2, v2, strat = self.decide(over(m), names)
            self.query_timeout = save
            if r2 == "sat":
                st["solver_s"] += time.time() - t0
                return self._violate(label, over(m), v2, names)
            if last:
                out = r2
        st["solver_s"] += time.time() - t0
        if out == "unsat":
            self.strat[strat] = self.strat.get(strat, 0) + 1
            st["unsat"] += 1
            lab["unsat"] += 1
            return True
        st["unknown"] += 1
        self.inconclusive.append(label + " (margin, " + str(strat) + ")")
        return None

    def cover(self, cond, label):
        if self.covers.get(label):
            return
        self.covers.setdefault(label, False)
        c = z3.simplify(bt(cond))
        if z3.is_false(c):
            return
        res, _, _ = self.decide(c, [])
        if res == "sat":
            self.covers[label] = True

    def end_of_path(self):
        """certify that asserted labels are reachable, keep a witness model"""
        if self.witness_hook is False:
            return
        need = [l for l in self.path_labels if self.labels[l]["witnessed"] < self.max_witness]
        if not need or self.violations:
            return
        t0 = time.time()
        res, vals, strat = self.decide(z3.BoolVal(True), self._names())
        self.stats["solver_s"] += time.time() - t0
        if res == "sat":
            for l in self.path_labels:
                self.labels[l]["witnessed"] += 1
            self.witnesses.append(dict(inputs=self.extract(vals), labels=sorted(self.path_labels)))

    def decide(self, neg, names):
        # quick in-process attempt with the incremental solver first
        self.solver.push()
        self.solver.add(neg)
        self.solver.set("timeout", 1500)
        r = self.solver.check()
        out = None
        if r == z3.unsat:
            out = ("unsat", None, "smt-inc")
        elif r == z3.sat:
            m = self.solver.model()
            vals = {n: _model_value(m.eval(t, model_completion=True)) for n, t in names}
            out = ("sat", vals, "smt-inc")
        self.solver.pop()
        self.solver.set("timeout", int(self.branch_timeout * 1000))
        if out:
            return out
        if self.P.linear_unsat(self.pc + [neg]):
            return ("unsat", None, "linear")
        return portfolio(self.pc + [neg], names, self.query_timeout)

    def _repair_terms(self):
        out = []
        for i, (t, s, c) in enumerate(self.repairs.get("angle", [])):
            out.append(("__a%d_t" % i, t))
            out.append(("__a%d_s" % i, s))
            out.append(("__a%d_c" % i, c))
        for i, (t, L) in enumerate(self.logs):
            out.append(("__l%d_t" % i, t))
            out.append(("__l%d_L" % i, L))
        return out

    def extract(self, vals):
        def fl(v):
            if v[0] == "q":
                return v[1][0] / v[1][1]
            return v[1]
        out = {}
        for n, k, t in self.inputs:
            if n in vals:
                out[n] = fl(vals[n])
        # repair: inputs appearing linearly (k*x + b) inside log / sin / cos arguments
        for i, (t, s, c) in enumerate(self.repairs.get("angle", [])):
            hit = self._linear_input(t)
            if hit and "__a%d_s" % i in vals:
                nm, k, b = hit
                ang = math.atan2(fl(vals["__a%d_s" % i]), fl(vals["__a%d_c" % i]))
                if ang < 0:
                    ang += 2 * math.pi
                out[nm] = (ang - b) / k
        for i, (t, L) in enumerate(self.logs):
            hit = self._linear_input(t)
            if hit and "__l%d_L" % i in vals:
                nm, k, b = hit
                try:
                    out[nm] = (math.exp(fl(vals["__l%d_L" % i])) - b) / k
                except OverflowError:
                    pass
        return out

    def _linear_input(self, t):
        byid = {term.get_id(): n for n, k, term in self.inputs if k == "real"}

        def lin(e):
            if isval(e):
                return {}, float(fval(e))
            if e.get_id() in byid:
                return {byid[e.get_id()]: 1.0}, 0.0
            if z3.is_add(e):
                co, b = {}, 0.0
                for ch in e.children():
                    r = lin(ch)
                    if r is None:
                        return None
                    for n, v in r[0].items():
                        co[n] = co.get(n, 0) + v
                    b += r[1]
                return co, b
            if z3.is_sub(e):
                chs = e.children()
                co, b = {}, 0.0
                for j, ch in enumerate(chs):
                    r = lin(ch)
                    if r is None:
                        return None
                    sg = 1 if j == 0 else -1
                    for n, v in r[0].items():
                        co[n] = co.get(n, 0) + sg * v
                    b += sg * r[1]
                return co, b
            if z3.is_mul(e):
                k = 1.0
                rest = None
                for ch in e.children():
                    if isval(ch):
                        k *= float(fval(ch))
                    elif rest is None:
                        rest = lin(ch)
                        if rest is None:
                            return None
                    else:
                        return None
                if rest is None:
                    return {}, k
                return {n: v * k for n, v in rest[0].items()}, rest[1] * k
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
                r = lin(e.arg(0))
                return None if r is None else ({n: -v for n, v in r[0].items()}, -r[1])
            return None

        r = lin(t)
        if not r or len(r[0]) != 1:
            return None
        (n, k), = r[0].items()
        return (n, k, r[1]) if k else None

    # ---- driver -----------------------------------------------------------
    def explore(self, fn):
        """run fn() over all feasible paths"""
        global ENG
        ENG = self
        self.work = [[]]
        self.complete = True
        while self.work:
            if self.stats["paths"] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.complete = False
                self.inconclusive.append("path/time limit: %d paths pending" % len(self.work))
                break
            if len(self.violations) >= self.max_violations:
                self.complete = False
                break
            prefix = self.work.pop()
            self.reset(prefix)
            try:
                try:
                    fn()
                except Exception as e:
                    self.stats["raised"] += 1
                    self.last_exc = traceback.format_exc()
                    if not self.check(False, "unexpected %s" % type(e).__name__):
                        self.notes["traceback: " + self.last_exc[-2500:]] = 1
                self.stats["paths"] += 1
                self.end_of_path()
            except PathAbort:
                self.stats["infeasible"] += 1
            except PathLimit as e:
                self.complete = False
                self.inconclusive.append("path limit %s" % e)
                break
        return self
