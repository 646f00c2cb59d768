"""Strings of a given length whose characters are solver variables.

A Text is a str whose stored value is a place holder, so that it survives code that cannot be overridden
(joining, formatting); decode() finds the characters again. Questions about the characters (find, split,
endswith, comparisons) split cases on single characters."""
import contextlib
import re

REG = []
OPEN, CLOSE = "\ue002", "\ue003"
TOKEN = re.compile(OPEN + "([0-9]+)" + CLOSE)


def chars(s):
    """the characters of a string, symbolic ones as whole numbers"""
    if isinstance(s, Text):
        return s.chars
    out, at = [], 0
    s = str.__str__(s)
    for m in TOKEN.finditer(s):
        out += list(s[at:m.start()]) + REG[int(m.group(1))]
        at = m.end()
    return out + list(s[at:])


def make(cs):
    if all(isinstance(c, str) for c in cs):
        return "".join(cs)
    return Text(cs)


def is_char(c, x):
    """is this character x? (splits cases)"""
    if isinstance(c, str) and isinstance(x, str):
        return c == x
    if isinstance(c, str):
        c, x = x, c
    if isinstance(x, str):
        x = ord(x)
    return bool(c == x)


class Text(str):
    def __new__(cls, cs):
        REG.append(list(cs))
        self = str.__new__(cls, OPEN + str(len(REG) - 1) + CLOSE)
        self.chars = REG[-1]
        return self

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def __str__(self):
        return self

    def __hash__(self):
        return str.__hash__(self)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        b = chars(o)
        return len(b) == len(self.chars) and all(is_char(x, y) for x, y in zip(self.chars, b))

    def __ne__(self, o):
        return not self == o

    def __getitem__(self, k):
        return make(self.chars[k] if isinstance(k, slice) else [self.chars[k]])

    def __iter__(self):
        return (make([c]) for c in self.chars)

    def __add__(self, o):
        return make(self.chars + chars(o))

    def __radd__(self, o):
        return make(chars(o) + self.chars)

    def _at(self, k, p):
        return k + len(p) <= len(self.chars) and all(is_char(self.chars[k + j], p[j]) for j in range(len(p)))

    def find(self, p, start=0, end=None):
        p = chars(p)
        for k in range(start, len(self.chars) - len(p) + 1):
            if self._at(k, p):
                return k
        return -1

    def rfind(self, p, start=0, end=None):
        p = chars(p)
        for k in range(len(self.chars) - len(p), start - 1, -1):
            if self._at(k, p):
                return k
        return -1

    def index(self, p, *a):
        k = self.find(p, *a)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def rindex(self, p, *a):
        k = self.rfind(p, *a)
        if k < 0:
            raise ValueError("substring not found")
        return k

    def __contains__(self, p):
        return self.find(p) >= 0

    def count(self, p, *a):
        return len(self.split(p)) - 1

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        return self._at(0, chars(p))

    def endswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        p = chars(p)
        return len(p) <= len(self.chars) and self._at(len(self.chars) - len(p), p)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise NotImplementedError
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            k = rest.find(sep) if isinstance(rest, Text) else str.find(rest, sep)
            if k < 0:
                break
            out.append(rest[:k])
            rest = rest[k + len(sep):]
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise NotImplementedError
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            k = rest.rfind(sep)
            if k < 0:
                break
            out.insert(0, rest[k + len(sep):])
            rest = rest[:k]
        return [rest] + out

    def partition(self, sep):
        k = self.find(sep)
        return (self, "", "") if k < 0 else (self[:k], sep, self[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        return ("", "", self) if k < 0 else (self[:k], sep, self[k + len(sep):])

    def replace(self, a, b, count=-1):
        parts = self.split(a, count)
        out = chars(parts[0])
        for p in parts[1:]:
            out = out + chars(b) + chars(p)
        return make(out)

    def _case(self, lo, hi, shift):
        out = []
        for c in self.chars:
            if isinstance(c, str):
                out.append(c.lower() if shift > 0 else c.upper())
            else:
                out.append(c + shift if bool(c >= lo) and bool(c <= hi) else c)
        return make(out)

    def lower(self):
        return self._case(65, 90, 32)

    casefold = lower

    def upper(self):
        return self._case(97, 122, -32)

    def lstrip(self, cs=None):
        k = 0
        while k < len(self.chars) and any(is_char(self.chars[k], x) for x in (cs or " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")):
            k += 1
        return self[k:]

    def rstrip(self, cs=None):
        k = len(self.chars)
        while k > 0 and any(is_char(self.chars[k - 1], x) for x in (cs or " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")):
            k -= 1
        return self[:k]

    def strip(self, cs=None):
        r = self.lstrip(cs)
        return r.rstrip(cs)

    def removesuffix(self, s):
        return self[:len(self) - len(s)] if s and self.endswith(s) else self

    def removeprefix(self, s):
        return self[len(s):] if self.startswith(s) else self


def _unsupported(name):
    def f(self, *a, **k):
        from .symx import Unsupported
        raise Unsupported("str.%s of a symbolic string" % name)
    return f


for _n in dir(str):
    if not _n.startswith("_") and _n not in Text.__dict__ and _n not in ("format", "join", "maketrans"):
        setattr(Text, _n, _unsupported(_n))


@contextlib.contextmanager
def paths():
    """pathlib keeps such strings as they are"""
    import sys
    real = sys.intern
    sys.intern = lambda s: s if isinstance(s, Text) else real(s)
    try:
        yield
    finally:
        sys.intern = real
