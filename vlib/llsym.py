"""Symbolic execution of the compiled engine.

The real extension module (built from /repo's current source by vlib.kernelbuild) is called as usual.  Where it
enters its parallel loop, control passes to this interpreter, which executes the loop body's LLVM IR on solver
terms: numbers that the harness made symbolic travel through native memory as tagged bit patterns and are
recognised when the IR loads them.  Results are written back the same way.

The same interpreter runs on plain numbers during replays, as a memory-access checker next to the native run."""
import ctypes, importlib.machinery, importlib.util, json, math, os, struct, sys
import numpy as np

TAG = 0x3FF7A5C300000000        # doubles in [1, 2) with a fixed mantissa prefix
ITAG = 0x5EEDC0DE00000000


class Oob(BaseException):
    pass


def _f2b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def _b2f(b):
    return struct.unpack("<d", struct.pack("<Q", b & 0xFFFFFFFFFFFFFFFF))[0]


class BoolInt:
    """an integer 0/1 that is a symbolic condition"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class BV:
    """a 64 bit symbolic word"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class FPV:
    """an IEEE double over symbolic words (the generator's own arithmetic)"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        import z3
        return x.t if type(x) is FPV else z3.FPVal(float(x), z3.Float64())

    def __mul__(self, o):
        import z3
        return FPV(z3.fpMul(z3.RNE(), self.t, FPV.of(o)))

    __rmul__ = __mul__

    def __add__(self, o):
        import z3
        return FPV(z3.fpAdd(z3.RNE(), self.t, FPV.of(o)))

    __radd__ = __add__

    def __sub__(self, o):
        import z3
        return FPV(z3.fpSub(z3.RNE(), self.t, FPV.of(o)))

    def __rsub__(self, o):
        import z3
        return FPV(z3.fpSub(z3.RNE(), FPV.of(o), self.t))

    def __truediv__(self, o):
        import z3
        return FPV(z3.fpDiv(z3.RNE(), self.t, FPV.of(o)))


SIZES = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8}
FMT = {"i8": "<b", "i16": "<h", "i32": "<i", "i64": "<q", "ptr": "<Q", "double": "<d", "float": "<f"}


class Lib:
    """the built extension, its IR and its hooks (one per process)"""
    inst = None

    def __init__(self, d):
        self.dir = d
        self.info = json.load(open(os.path.join(d, "info.json")))
        self.so = ctypes.CDLL(os.path.join(d, "_kernel.so"))
        spec = importlib.util.spec_from_file_location("pvmem", os.path.join(d, "pvmem.so"))
        self.mem = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.mem)
        ns = {}
        code = open(os.path.join(d, "kernel_ir.py")).read()
        exec(compile(code, "kernel_ir.py", "exec"), ns)
        self.funcs = ns["FUNCS"]
        self.globs = ns["GLOBALS"]
        self.rng = self.info["rng"]
        self.roots = {}
        for r in self.info["roots"]:
            try:
                self.roots[ctypes.cast(getattr(self.so, r), ctypes.c_void_p).value] = r
            except AttributeError:
                pass
        self.FORK = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_int, ctypes.POINTER(ctypes.c_void_p))
        self.RNG = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
        # the extension module itself
        import pvtrace.engine  # noqa  (loads the package; the real kernel may or may not be there)
        name = "pvtrace.engine._kernel"
        loader = importlib.machinery.ExtensionFileLoader(name, os.path.join(d, "_kernel.so"))
        spec = importlib.util.spec_from_file_location(name, os.path.join(d, "_kernel.so"), loader=loader)
        for m in [k for k in sys.modules if k == name]:
            del sys.modules[m]
        self.mod = importlib.util.module_from_spec(spec)
        loader.exec_module(self.mod)
        sys.modules[name] = self.mod
        setattr(sys.modules["pvtrace.engine"], "_kernel", self.mod)
        for m in ("pvtrace.engine.api",):
            if m in sys.modules and hasattr(sys.modules[m], "_kernel"):
                sys.modules[m]._kernel = self.mod
        self.native = self.mod.trace_bundle
        self.gaddr = {}
        for g in self.globs:
            try:
                self.gaddr[g] = ctypes.addressof(ctypes.c_char.in_dll(self.so, g))
            except ValueError:
                pass

    @classmethod
    def get(cls):
        if cls.inst is None:
            d = os.environ.get("PV_KERNEL_DIR")
            if not d:
                from . import kernelbuild
                d = os.environ["PV_KERNEL_DIR"] = kernelbuild.prepare()
            cls.inst = cls(d)
        return cls.inst

    def schedule(self, n=0, order=None, tid_of=None, threads=None):
        """the order and threads of the native loop's iterations (nothing: one thread, in order)"""
        idx = list(range(n))
        tids = [(tid_of or (lambda i: 0))(i) for i in idx]
        if order is not None:
            idx = list(order(idx))
        self._sched = ((ctypes.c_longlong * max(n, 1))(*idx), (ctypes.c_int * max(n, 1))(*tids))
        for name, ty, v in (("pv_perm", ctypes.c_void_p, ctypes.addressof(self._sched[0]) if n else 0),
                            ("pv_tids", ctypes.c_void_p, ctypes.addressof(self._sched[1]) if n else 0),
                            ("pv_nperm", ctypes.c_longlong, n), ("pv_nthreads", ctypes.c_int, 1 + max(tids) if n else 0)):
            ty.in_dll(self.so, name).value = v

    def hook(self, fork=None, rng=None):
        self._keep = (self.FORK(fork) if fork else None, self.RNG(rng) if rng else None)
        p = ctypes.c_void_p.in_dll(self.so, "pv_fork_hook")
        p.value = ctypes.cast(self._keep[0], ctypes.c_void_p).value if fork else 0
        q = ctypes.c_void_p.in_dll(self.so, "pv_rng_hook")
        q.value = ctypes.cast(self._keep[1], ctypes.c_void_p).value if rng else 0


class TagArray(np.ndarray):
    """doubles that may stand for symbolic numbers; sums over threads are symbolic too"""
    _K = None

    def sum(self, axis=None, **kw):
        K = self._K
        a = self.view(np.ndarray)
        if K is None or axis != 0 or kw or self.ndim != 2:
            return a.sum(axis=axis, **kw)
        out = a[0].copy()
        for j in range(a.shape[1]):
            v = K.val(a[0, j])
            for i in range(1, a.shape[0]):
                v = v + K.val(a[i, j])
            out[j] = K.put(v)
        return out


class OrigNumpy:
    """numpy as it was before the symbolic shim patched it (what compiled code sees)"""

    def __init__(self, K=None):
        self._K = K

    def zeros(self, shape, dtype=float, **kw):
        from . import npshim
        a = (npshim._orig.get("numpy.zeros") or np.zeros)(shape, dtype=dtype, **kw)
        if self._K is not None and self._K.sym and a.dtype == np.float64 and a.ndim == 2:
            a = a.view(TagArray)
            a._K = self._K
        return a

    def __getattr__(self, n):
        from . import npshim
        v = npshim._orig.get("numpy." + n)
        return v if v is not None else getattr(np, n)


class Run:
    """one execution of the parallel loop"""
    UNDEF = 0
    NAN = float("nan")
    INF = float("inf")
    NINF = float("-inf")

    def __init__(self, lib, tags, eng=None, draw=None, tid_of=None, order=None, bvdraw=None):
        self.lib, self.E, self.draw = lib, eng, draw
        self.tags, self.itags = tags
        self.cells = {}         # address -> (size, value)
        self.words = {}         # address >> 3 -> set of cell addresses
        self.sp = 1 << 60
        self.frames = []
        self.ok = {}            # address ranges known to be valid: page -> list
        self.ranges = []
        self.iter = None
        self.tid_of = tid_of or (lambda i: 0)
        self.order = order
        self.log = []           # (iteration, address, size, is_write)
        self.writes = {}
        self.logging = False
        self.draws = []
        self.bvdraw = bvdraw
        self.stack = []
        self.uf = {}
        self.called = set()

    # memory -----------------------------------------------------------
    def enter(self, name):
        self.frames.append(self.sp)
        self.called.add(name)
        return len(self.frames)

    def leave(self, fp):
        lo = self.frames.pop()
        self.sp = max(self.sp, lo)

    def alloca(self, n):
        a = (self.sp + 15) & ~15
        self.sp = a + n + 32
        self.allocs = getattr(self, "allocs", {})
        self.allocs[a] = n
        self._local = getattr(self, "_local", [])
        self._local.append((a, n))
        return a

    def glob(self, g):
        a = self.lib.gaddr.get(g)
        if a is None:
            # only the OpenMP location descriptors are private
            return 0
        return a

    def allow(self, a, n):
        self.ranges.append((a, a + n))

    def valid(self, a, size):
        for lo, hi in self.ranges:
            if lo <= a and a + size <= hi:
                return True
        for g, ga in self.lib.gaddr.items():
            if ga <= a and a + size <= ga + self.lib.globs[g]:
                return True
        b = self.lib.mem.find(a)
        if b is not None:
            lo, n = b
            self.ranges.insert(0, (lo, lo + n))
            return a + size <= lo + n
        return False

    def where(self, a):
        return self.called and sorted(self.called)[-1]

    def local_ok(self, a, size):
        for lo, n in reversed(self._local):
            if lo <= a < lo + n:
                return a + size <= lo + n
        return False

    def load(self, a, ty):
        if type(a) is not int:
            a = self.ix(a)
        size = SIZES[ty]
        c = self.cells.get(a)
        if self.logging and a < (1 << 60):
            self.log.append((self.iter, a, size, False))
        if c is not None and c[0] == size:
            return self.cast(c[1], ty)
        if c is None and a >= (1 << 60):
            if not self.local_ok(a, size):
                raise Oob("read of %d bytes outside a local array" % size)
            near = self.overlap(a, size)
            if not near:
                raise self.unsup("reads uninitialised local memory")
            return self.cast(self.bytes_at(a, size, ty), ty)
        if c is not None or self.overlap(a, size):
            return self.cast(self.bytes_at(a, size, ty), ty)
        if not self.valid(a, size):
            raise Oob("read of %d bytes outside the arrays" % size)
        raw = ctypes.string_at(a, size)
        return self.decode(raw, ty)

    def decode(self, raw, ty):
        if ty == "double":
            b = struct.unpack("<Q", raw)[0]
            if b & 0xFFFFFFFF00000000 == TAG and b in self.tags:
                return self.tags[b]
            return struct.unpack("<d", raw)[0]
        if ty == "i64":
            b = struct.unpack("<Q", raw)[0]
            if b in self.itags:
                return self.itags[b]
        if ty == "i1":
            return bool(raw[0] & 1)
        return struct.unpack(FMT[ty], raw)[0]

    def cast(self, v, ty):
        if ty == "double" and type(v) is int:
            return _b2f(v)
        if ty in ("i64", "ptr") and type(v) is float:
            b = _f2b(v)
            return b - (1 << 64) if ty == "i64" and b >> 63 else b
        return v

    def overlap(self, a, size):
        out = []
        for w in range((a - 8) >> 3, ((a + size - 1) >> 3) + 1):
            for c in self.words.get(w, ()):
                if c < a + size and a < c + self.cells[c][0]:
                    out.append(c)
        return out

    def bytes_at(self, a, size, ty):
        buf = bytearray(ctypes.string_at(a, size)) if a < (1 << 60) and self.valid(a, size) else bytearray(size)
        for c in self.overlap(a, size):
            s, v = self.cells[c]
            if type(v) is float:
                raw = struct.pack("<d", v)[:s]
            elif type(v) in (int, bool):
                raw = (int(v) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
            else:
                raise self.unsup("partial read of a symbolic value")
            for k in range(s):
                if a <= c + k < a + size:
                    buf[c + k - a] = raw[k]
        return self.decode(bytes(buf), ty)

    def store(self, a, v, ty):
        if type(a) is not int:
            a = self.ix(a)
        size = SIZES[ty]
        if a >= (1 << 60):
            if not self.local_ok(a, size):
                raise Oob("write of %d bytes outside a local array" % size)
        else:
            if a not in self.cells and not self.valid(a, size):
                raise Oob("write of %d bytes outside the arrays" % size)
            self.log.append((self.iter, a, size, True))
        self.put(a, size, v)

    def put(self, a, size, v):
        old = self.cells.get(a)
        if old is None or old[0] != size:
            for c in self.overlap(a, size):
                if c != a or old[0] != size:
                    if c == a and self.cells[c][0] <= size:
                        self.drop(c)
                        continue
                    if a <= c and c + self.cells[c][0] <= a + size:
                        self.drop(c)
                        continue
                    s, ov = self.cells[c]
                    if type(ov) not in (int, float, bool):
                        raise self.unsup("partial overwrite of a symbolic value")
                    raw = self.bytes_at(c, s, {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[s])
                    rb = (int(raw) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
                    self.drop(c)
                    for k in range(s):
                        if not (a <= c + k < a + size):
                            self.put(c + k, 1, rb[k])
        self.cells[a] = (size, v)
        self.words.setdefault(a >> 3, set()).add(a)

    def drop(self, c):
        del self.cells[c]
        self.words[c >> 3].discard(c)

    def flush(self, newtag):
        for a, (s, v) in self.cells.items():
            if a >= (1 << 60):
                continue
            if type(v) is BoolInt:
                v = int(bool(v.b))
            if type(v) is float:
                raw = struct.pack("<d", v)
            elif type(v) in (int, bool):
                raw = (int(v) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
            elif type(v) is BV:
                raise self.unsup("symbolic word left in memory")
            else:
                from . import symx
                if isinstance(v, symx.SymInt):
                    raw = (self.E.concretize_int(v.t) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
                elif isinstance(v, symx.NonFinite):
                    raw = struct.pack("<d", float(v.kind))
                else:
                    raw = struct.pack("<Q", newtag(v))
            ctypes.memmove(a, raw[:s], s)

    def unsup(self, what):
        from . import symx
        return symx.Unsupported("compiled engine: " + what)

    def unsupported(self, what):
        raise self.unsup(what)

    def indirect(self, what):
        raise self.unsup("indirect call " + what)

    def unreachable(self, name):
        raise self.unsup("reached an unreachable point in " + name)

    # integers ----------------------------------------------------------
    def ix(self, v):
        if type(v) is int:
            return v
        if type(v) is BoolInt:
            return int(bool(v.b))
        if isinstance(v, bool):
            return int(v)
        return self.E.concretize_int(v.t)

    def plain(self, *a):
        """resolve 0/1 conditions; other values unchanged"""
        return [int(bool(x.b)) if type(x) is BoolInt else x for x in a]

    @staticmethod
    def w(x, bits):
        if type(x) is int:
            m = 1 << bits
            x &= m - 1
            if bits > 1 and x >> (bits - 1):
                x -= m
        return x

    def bv(self, x):
        import z3
        return x.t if type(x) is BV else z3.BitVecVal(x & ((1 << 64) - 1), 64)

    def bin(self, a, b, bits, f, bvf=None):
        a, b = self.plain(a, b)
        if type(a) is bool:
            a = int(a)
        if type(b) is bool:
            b = int(b)
        if type(a) is BV or type(b) is BV:
            if bvf is None or bits != 64:
                raise self.unsup("word operation")
            return BV(bvf(self.bv(a), self.bv(b)))
        return self.w(f(a, b), bits)

    def add(self, a, b, bits):
        if type(a) is int and type(b) is int:
            return self.w(a + b, bits)
        return self.bin(a, b, bits, lambda x, y: x + y, lambda x, y: x + y)

    def sub(self, a, b, bits):
        if type(a) is int and type(b) is int:
            return self.w(a - b, bits)
        return self.bin(a, b, bits, lambda x, y: x - y, lambda x, y: x - y)

    def mul(self, a, b, bits):
        if type(a) is int and type(b) is int:
            return self.w(a * b, bits)
        return self.bin(a, b, bits, lambda x, y: x * y, lambda x, y: x * y)

    def conc2(self, a, b):
        return self.ix(a), self.ix(b)

    def sdiv(self, a, b, bits):
        a, b = self.conc2(a, b)
        if b == 0:
            raise Oob("integer division by zero")
        q = abs(a) // abs(b)
        return self.w(q if (a < 0) == (b < 0) else -q, bits)

    def srem(self, a, b, bits):
        a, b = self.conc2(a, b)
        if b == 0:
            raise Oob("integer division by zero")
        r = abs(a) % abs(b)
        return self.w(-r if a < 0 else r, bits)

    def u(self, x, bits):
        return x & ((1 << bits) - 1)

    def udiv(self, a, b, bits):
        a, b = self.conc2(a, b)
        if b == 0:
            raise Oob("integer division by zero")
        return self.w(self.u(a, bits) // self.u(b, bits), bits)

    def urem(self, a, b, bits):
        a, b = self.conc2(a, b)
        if b == 0:
            raise Oob("integer division by zero")
        return self.w(self.u(a, bits) % self.u(b, bits), bits)

    def isb(self, x):
        from . import symx
        return isinstance(x, (bool, symx.SymBool))

    def and_(self, a, b, bits):
        if bits == 1:
            return a & b if not (type(a) is bool and type(b) is bool) else (a and b)
        if type(a) is BoolInt and type(b) is int and b & 1:
            return a
        return self.bin(self.sc(a), self.sc(b), bits, lambda x, y: x & y, lambda x, y: x & y)

    def or_(self, a, b, bits):
        if bits == 1:
            return a | b if not (type(a) is bool and type(b) is bool) else (a or b)
        return self.bin(self.sc(a), self.sc(b), bits, lambda x, y: x | y, lambda x, y: x | y)

    def sc(self, x):
        from . import symx
        return self.E.concretize_int(x.t) if isinstance(x, symx.SymInt) else x

    def xor(self, a, b, bits):
        if bits == 1:
            if b is True:
                return (not a) if type(a) is bool else ~a
            if a is True:
                return (not b) if type(b) is bool else ~b
            return bool(a) != bool(b)
        if type(a) is BoolInt and b == 1:
            return BoolInt(~a.b)
        return self.bin(self.sc(a), self.sc(b), bits, lambda x, y: x ^ y, lambda x, y: x ^ y)

    def shl(self, a, b, bits):
        b = self.ix(b)
        if type(a) is BV:
            return BV(a.t << b)
        return self.w(self.ix(a) << b, bits)

    def lshr(self, a, b, bits):
        b = self.ix(b)
        if type(a) is BV:
            import z3
            return BV(z3.LShR(a.t, z3.BitVecVal(b, 64)))
        return self.w(self.u(self.ix(a), bits) >> b, bits)

    def ashr(self, a, b, bits):
        b = self.ix(b)
        a = self.sc(self.plain(a)[0])
        return self.w(a >> b, bits)

    def icmp(self, p, a, b, bits):
        if type(a) is BoolInt and type(b) is int:
            if p == "ne":
                return a.b if b == 0 else (~a.b if b == 1 else True)
            if p == "eq":
                return ~a.b if b == 0 else (a.b if b == 1 else False)
        a, b = self.plain(a, b)
        if type(a) is BV or type(b) is BV:
            raise self.unsup("comparison of symbolic words")
        if bits == 1:
            a, b = int(bool(a)), int(bool(b))
        if p[0] == "u":
            if type(a) is int and a < 0:
                a &= (1 << bits) - 1
            if type(b) is int and b < 0:
                b &= (1 << bits) - 1
            p = "s" + p[1:]
        if p == "eq":
            return a == b
        if p == "ne":
            return a != b
        if p == "slt":
            return a < b
        if p == "sle":
            return a <= b
        if p == "sgt":
            return a > b
        return a >= b

    # casts -------------------------------------------------------------
    def zext(self, v, f, t):
        if type(v) is int:
            return v & ((1 << {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}[f]) - 1)
        if type(v) is bool:
            return int(v)
        from . import symx
        if isinstance(v, symx.SymBool):
            return BoolInt(v)
        return v

    def sext(self, v, f, t):
        if type(v) is bool:
            return -int(v)
        from . import symx
        if isinstance(v, symx.SymBool):
            return -int(bool(v))
        return v

    def trunc(self, v, f, t):
        bits = {"i1": 1, "i8": 8, "i16": 16, "i32": 32}[t]
        if type(v) is BoolInt:
            return v.b if bits == 1 else v
        if type(v) is int:
            v = self.w(v, bits)
            return bool(v & 1) if bits == 1 else v
        if type(v) is BV:
            raise self.unsup("truncated word")
        if bits == 1:
            return bool(self.ix(v) & 1)
        return v

    def sitofp(self, v, f, t):
        v = self.plain(v)[0]
        if type(v) is BV:
            return self.bvdraw(v, True)
        if isinstance(v, (int, bool)):
            return float(v)
        from . import symx
        return symx.mk(symx.rt(v))

    def uitofp(self, v, f, t):
        v = self.plain(v)[0]
        if type(v) is BV:
            return self.bvdraw(v)
        if isinstance(v, (int, bool)):
            return float(int(v) & ((1 << {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}[f]) - 1))
        from . import symx
        return symx.mk(symx.rt(v))

    def fptosi(self, v, f, t):
        bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64}[t]
        lo = -(1 << (bits - 1))
        if type(v) is float:
            if v != v or v in (self.INF, self.NINF) or not (lo <= int(v) < -lo):
                return lo               # what x86 conversions return; undefined in C
            return int(v)
        from . import symx
        if isinstance(v, symx.NonFinite):
            return lo
        if bool((v <= float(lo - 1)) | (v >= float(-lo))):
            return lo
        return v.trunc()

    def fptoui(self, v, f, t):
        return self.fptosi(v, f, "i64")

    def bitcast(self, v, f, t):
        return self.cast(v, t)

    def ptrtoint(self, v, f, t):
        return v

    inttoptr = ptrtoint

    def fpext(self, v, f, t):
        return v

    def fptrunc(self, v, f, t):
        raise self.unsup("single precision")

    # floating point ----------------------------------------------------
    def fmul(self, a, b):
        if type(a) is float and type(b) is float:
            return a * b
        return a * b

    def fdiv(self, a, b):
        if type(a) is float and type(b) is float:
            if b == 0.0:
                if a == 0.0 or a != a:
                    return self.NAN
                return math.copysign(self.INF, math.copysign(1.0, a) * math.copysign(1.0, b))
            return a / b
        return a / b

    def frem(self, a, b):
        return math.fmod(a, b)

    def fcmp(self, p, a, b):
        if p == "une":
            return a != b
        if p == "one":
            r = a != b
            return r
        if p in ("ord", "uno"):
            na = self.isnan(a) or self.isnan(b)
            return na if p == "uno" else not na
        if p == "true":
            return True
        if p == "false":
            return False
        if self.isnan(a) or self.isnan(b):
            return p[0] == "u"
        q = p[1:]
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                "eq": lambda: a == b, "ne": lambda: a != b}[q]()

    def isnan(self, a):
        if type(a) is float:
            return a != a
        from . import symx
        return isinstance(a, symx.NonFinite) and a.kind == "nan"

    def switch(self, v, cases):
        v = self.plain(v)[0]
        return v if type(v) is int else self.ix(v)

    # calls -------------------------------------------------------------
    def call(self, name, *a):
        if name == self.lib.rng and self.draw is not None:
            return self.draw()
        f = self.lib.funcs.get(name)
        if f is not None:
            return f(self, *a)
        g = BUILTIN.get(name)
        if g is None:
            raise self.unsup("call to " + name)
        return g(self, *a)


def _m1(cf, meth, dom=None):
    def f(R, x):
        if type(x) is float:
            try:
                return cf(x)
            except (ValueError, OverflowError):
                if cf is math.log:
                    return R.NINF if x == 0 else R.NAN
                if cf is math.exp:
                    return R.INF
                return R.NAN
        return getattr(x, meth)()
    return f


def _pow(R, x, y):
    if type(x) is float and type(y) is float:
        try:
            return math.pow(x, y)
        except (ValueError, OverflowError, ZeroDivisionError):
            return R.NAN
    if type(y) is float and y == int(y):
        return x ** int(y)
    if type(y) is float and y == 0.5:
        return x.sqrt()
    raise R.unsup("pow")


def _fabs(R, x):
    return abs(x)


def _fmin(R, a, b):
    return a if bool(a < b) else b


def _fmax(R, a, b):
    return a if bool(a > b) else b


def _is_fpclass(R, x, mask):
    if type(x) is not float:
        from . import symx
        if isinstance(x, symx.NonFinite):
            x = float(x.kind)
        else:
            return bool(mask & 0x108) and bool(mask & 0x108)
    if x != x:
        return bool(mask & 3)
    if x == float("inf"):
        return bool(mask & 0x200)
    if x == float("-inf"):
        return bool(mask & 4)
    return bool(mask & 0x1F8)


def _memcpy(R, d, s, n, *v):
    d, s, n = R.ix(d), R.ix(s), R.ix(n)
    k = 0
    while k < n:
        c = R.cells.get(s + k)
        if c is not None and k + c[0] <= n:
            R.put(d + k, c[0], c[1])
            k += c[0]
        elif n - k >= 8 and (s + k) % 8 == 0 and not R.overlap(s + k, 8) and s < (1 << 60):
            R.store(d + k, R.load(s + k, "i64"), "i64")
            k += 8
        elif s >= (1 << 60) and not R.overlap(s + k, 1):
            k += 1
        else:
            R.store(d + k, R.load(s + k, "i8"), "i8")
            k += 1


def _memset(R, d, v, n, *r):
    for k in range(R.ix(n)):
        R.store(d + k, v, "i8")


def _dispatch_init(R, loc, g, sched, lb, ub, st, chunk):
    n = [R.ix(x) for x in (lb, ub, st)]
    idx = list(range(n[0], n[1] + 1, n[2]))
    if R.order is not None:
        idx = R.order(idx)
    R.queue = [(i, n[1]) for i in idx if R.thread is None or R.tid_of(i) == R.thread]


def _dispatch_next(ty):
    def f(R, loc, g, last, lo, up, st):
        if not R.queue:
            R.iter = None
            return 0
        i, ub = R.queue.pop(0)
        R.iter = i
        if last:
            R.store(last, int(i == ub), "i32")
        R.store(lo, i, ty)
        R.store(up, i, ty)
        R.store(st, 1, ty)
        return 1
    return f


def _static_init(ty):
    def f(R, loc, g, sched, last, lo, up, st, inc, chunk):
        R.iter = 0
        if last:
            R.store(last, 1, "i32")
    return f


def _tid(R):
    return R.thread if R.thread is not None else (R.tid_of(R.iter) if R.iter is not None else 0)


BUILTIN = {
    "sqrt": _m1(math.sqrt, "sqrt"), "log": _m1(math.log, "log"), "sin": _m1(math.sin, "sin"), "cos": _m1(math.cos, "cos"),
    "tan": _m1(math.tan, "tan"), "acos": _m1(math.acos, "arccos"), "asin": _m1(math.asin, "arcsin"), "exp": _m1(math.exp, "exp"),
    "floor": _m1(lambda x: float(math.floor(x)), "floor"), "ceil": _m1(lambda x: float(math.ceil(x)), "ceil"),
    "log1p": _m1(math.log1p, "log1p"), "expm1": _m1(math.expm1, "expm1"), "trunc": _m1(lambda x: float(math.trunc(x)), "trunc"),
    "fabs": _fabs, "pow": _pow, "fmin": _fmin, "fmax": _fmax,
    "llvm.is.fpclass.f64": _is_fpclass,
    "__kmpc_barrier": lambda R, *a: None, "__kmpc_for_static_fini": lambda R, *a: None, "__kmpc_flush": lambda R, *a: None,
    "__kmpc_global_thread_num": lambda R, *a: 0, "__kmpc_critical": lambda R, *a: None, "__kmpc_end_critical": lambda R, *a: None,
    "__kmpc_dispatch_init_8": _dispatch_init, "__kmpc_dispatch_init_4": _dispatch_init,
    "__kmpc_dispatch_init_8u": _dispatch_init, "__kmpc_dispatch_init_4u": _dispatch_init,
    "__kmpc_dispatch_next_8": _dispatch_next("i64"), "__kmpc_dispatch_next_4": _dispatch_next("i32"),
    "__kmpc_dispatch_next_8u": _dispatch_next("i64"), "__kmpc_dispatch_next_4u": _dispatch_next("i32"),
    "__kmpc_dispatch_deinit": lambda R, *a: None,
    "__kmpc_for_static_init_8": _static_init("i64"), "__kmpc_for_static_init_4": _static_init("i32"),
    "__kmpc_for_static_init_8u": _static_init("i64"), "__kmpc_for_static_init_4u": _static_init("i32"),
    "omp_get_thread_num": _tid, "omp_get_num_threads": lambda R: 1, "omp_get_max_threads": lambda R: 1,
}
for _n in ("sqrt", "log", "sin", "cos", "exp", "fabs", "floor", "ceil", "trunc", "pow", "fmin", "fmax"):
    for _v in ({"fmin": "minnum", "fmax": "maxnum"}.get(_n, _n),):
        BUILTIN["llvm.%s.f64" % _v] = BUILTIN[_n]
BUILTIN["llvm.fmuladd.f64"] = BUILTIN["llvm.fma.f64"] = BUILTIN["fma"] = lambda R, a, b, c: a * b + c
BUILTIN["llvm.copysign.f64"] = BUILTIN["copysign"] = lambda R, a, b: abs(a) if bool(b >= 0) else -abs(a)
for _b in (32, 64):
    BUILTIN["llvm.smax.i%d" % _b] = lambda R, a, b: a if bool(a > b) else b
    BUILTIN["llvm.smin.i%d" % _b] = lambda R, a, b: a if bool(a < b) else b
    BUILTIN["llvm.abs.i%d" % _b] = lambda R, a, *r: abs(a)
for _n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove", "llvm.memcpy.inline.p0.p0.i64"):
    BUILTIN[_n] = _memcpy
for _n in ("llvm.memset.p0.i64", "memset"):
    BUILTIN[_n] = _memset


class Kernel:
    """what harnesses use: the engine's own trace_bundle, run symbolically (SymH) or natively (ConcH)"""

    def __init__(self, H, bv=False):
        self.H = H
        self.lib = Lib.get()
        self.lib.mem.start()
        self.sym = H.mode == "sym"
        self.tags, self.itags, self.rev = {}, {}, {}
        self.draws = []
        self.runs = []
        self.problem = None
        self.bvmode = bv
        self.memo = {}
        self.nd = 0

    # tags
    def tag(self, v):
        """bit pattern standing for a symbolic number"""
        from . import symx
        k = v.t.get_id() if hasattr(v, "t") else id(v)
        if k in self.rev:
            return self.rev[k]
        b = TAG + len(self.tags) + 1
        self.tags[b] = v
        self.rev[k] = b
        return b

    def put(self, v):
        from . import symx
        if isinstance(v, symx.SymInt):
            v = symx.mk(symx.rt(v))
        if isinstance(v, (symx.SymReal, symx.SymBool)):
            return _b2f(self.tag(symx.mk(symx.rt(v))))
        if isinstance(v, symx.NonFinite):
            return float(v.kind)
        return float(v)

    def arr(self, a, shape=None):
        from . import npshim
        empty = npshim._orig.get("numpy.empty", np.empty)
        if isinstance(a, np.ndarray) and a.dtype != object:
            return a
        a = npshim._orig.get("numpy.array", np.array)(a, dtype=object)
        out = empty(a.shape, dtype=np.float64)
        for i in np.ndindex(a.shape):
            out[i] = self.put(a[i])
        return out

    def val(self, x):
        if isinstance(x, (float, np.floating)):
            b = _f2b(float(x))
            if b & 0xFFFFFFFF00000000 == TAG and b in self.tags:
                return self.tags[b]
            return float(x)
        return x

    def back(self, a):
        """array with tags -> array of values"""
        from . import npshim
        if not isinstance(a, np.ndarray) or a.dtype != np.float64 or not self.sym:
            return a
        bits = a.view(np.uint64) if a.flags.c_contiguous else a.copy().view(np.uint64)
        if not bool(((bits & np.uint64(0xFFFFFFFF00000000)) == np.uint64(TAG)).any()):
            return a
        out = npshim._orig.get("numpy.empty", np.empty)(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = self.val(a[i])
        return out

    # draws
    def draw(self):
        if self.sym:
            e = self.H.E
            e.draws += 1
            u = e.real("u%d" % e.draws, 0, 1, hi_open=True)
        else:
            self.nd += 1
            n = "u%d" % (self.nd + getattr(self.H, "draw_base", 0))
            u = min(max(float(self.H.inputs.get(n, 0.5)), 0.0), math.nextafter(1.0, 0.0))
            self.H.used[n] = u
        self.draws.append(u)
        return u

    def bundle(self, compiled, positions, directions, wavelengths, seed=1, maxsteps=1000, max_events=64, emit_method=0,
               num_threads=1, record_every=1, tid_of=None, threads=None, order=None, logging=False, fresh_draws=True):
        """trace_bundle on (possibly symbolic) arguments; returns the result dictionary with symbolic entries"""
        lib = self.lib
        self.problem = None
        if fresh_draws:
            self.draws = []
        if self.sym:
            class C:
                pass
            c = C()
            for k, v in vars(compiled).items():
                setattr(c, k, self.arr(v) if isinstance(v, np.ndarray) and v.dtype == object else v)
            lib.mod.np = OrigNumpy(self)
        else:
            c = compiled
        pos, dirs, wl = self.arr(positions), self.arr(directions), self.arr(wavelengths)
        if not self.sym:
            pos, dirs, wl = [np.ascontiguousarray(x, dtype=np.float64) for x in (pos, dirs, wl)]
        iseed = seed
        if type(seed) is BV:
            iseed = ITAG + 1
            self.itags[iseed] = seed
        state = {"exc": None, "ran": False}

        def interpret(fn, argc, argv):
            state["ran"] = True
            R = Run(lib, (self.tags, self.itags), self.H.E if self.sym else None,
                    None if self.bvmode else self.draw, tid_of, order, self.bvdraw)
            R.logging = logging
            self.runs.append(R)
            try:
                name = lib.roots.get(fn)
                if name is None:
                    raise R.unsup("parallel region not found")
                args = [argv[i] or 0 for i in range(argc)]
                for p in args:
                    if lib.mem.find(p) is None:
                        R.allow(p, 1024)
                gt = R.alloca(8)
                R.store(gt, 0, "i32")
                for t in (threads if threads is not None else [None]):
                    R.thread = t
                    lib.funcs[name](R, gt, gt, *args)
                if self.sym:
                    R.flush(self.tag)
            except Oob as e:
                self.problem = str(e)
            except BaseException as e:
                state["exc"] = e
            return 1

        def native(fn, argc, argv):
            # memory check on the same numbers first, without effects, then the real thing
            state["ran"] = True
            saved = list(self.draws), self.nd
            R = Run(lib, (self.tags, self.itags), None, None if self.bvmode else self.draw, tid_of, order, self.bvdraw)
            R.logging = logging
            self.runs.append(R)
            try:
                name = lib.roots.get(fn)
                args = [argv[i] or 0 for i in range(argc)]
                for p in args:
                    if lib.mem.find(p) is None:
                        R.allow(p, 1024)
                gt = R.alloca(8)
                R.store(gt, 0, "i32")
                for t in (threads if threads is not None else [None]):
                    R.thread = t
                    lib.funcs[name](R, gt, gt, *args)
            except Oob as e:
                self.problem = str(e)
                return 1
            except BaseException as e:
                state["exc"] = e
                return 1
            self.draws, self.nd = saved
            return 0
        args = (c, pos, dirs, wl, iseed, int(maxsteps), int(max_events), int(emit_method), int(num_threads), int(record_every))
        if self.sym:
            lib.hook(fork=interpret)
        else:
            lib.hook(fork=native, rng=None if self.bvmode else (lambda p: self.draw()))
            if order is not None or tid_of is not None or threads is not None:
                lib.schedule(len(pos), order, tid_of, threads)
        try:
            out = lib.native(*args)
        finally:
            lib.hook()
            lib.schedule()
        if state["exc"] is not None:
            raise state["exc"]
        if self.sym and not state["ran"]:
            from . import symx
            raise symx.Unsupported("compiled engine: no parallel region was entered")
        self.H.check(self.problem is None, "the compiled engine only touches its own arrays")
        if self.problem is not None:
            return None
        self.out_raw = out
        return {k: self.back(v) for k, v in out.items()}

    def bvdraw(self, v, signed=False):
        """a symbolic generator word becomes a double"""
        import z3
        if getattr(self, "fpmode", False):
            return FPV((z3.fpSignedToFP if signed else z3.fpUnsignedToFP)(z3.RNE(), v.t, z3.Float64()))
        from . import symx
        t = z3.simplify(v.t)
        R = self.runs[-1]
        R.draws.append((R.iter, t))
        k = t.get_id()
        if k not in self.memo:
            bits = 64
            if v.t.decl().kind() == z3.Z3_OP_BLSHR and z3.is_bv_value(v.t.arg(1)):
                bits = 64 - v.t.arg(1).as_long()
            e = self.H.E
            e.draws += 1
            u = e.real("u%d" % e.draws, 0, 1, hi_open=True)
            self.memo[k] = (u * float(1 << bits), t)
        return self.memo[k][0]

    def uniform(self, words):
        """the engine's own uniform draw for one generator state: double over the words, or None if it is not a separate function"""
        name = self.lib.rng
        if name is None:
            return None
        R = Run(self.lib, (self.tags, self.itags), self.H.E if self.sym else None, None, None, None, self.bvdraw)
        self.runs.append(R)
        self.fpmode = True
        try:
            p = R.alloca(8 * len(words))
            for i, w in enumerate(words):
                R.store(p + 8 * i, w, "i64")
            if self.sym:
                return self.lib.funcs[name](R, p)
        finally:
            self.fpmode = False
        f = getattr(self.lib.so, name)
        f.restype, f.argtypes = ctypes.c_double, [ctypes.c_void_p]
        q = (ctypes.c_uint64 * len(words))(*[int(w) & ((1 << 64) - 1) for w in words])
        return f(ctypes.addressof(q))

    # functions of the kernel on their own ---------------------------------
    def func(self, name, ret, args):
        """full name of the kernel's function `name` if it exists with this signature, else None"""
        import re
        if not hasattr(self.lib, "sigs"):
            self.lib.sigs = {}
            for m in re.finditer(r"^define (?:internal )?(?:noundef )?(\w+) @(\w+)\(([^\n]*?)\) [^\n]*\{$",
                                 open(os.path.join(self.lib.dir, "kernel.ll")).read(), re.M):
                tys = tuple(p.split()[0] for p in m.group(3).split(",")) if m.group(3).strip() else ()
                self.lib.sigs[m.group(2)] = (m.group(1), tys)
        c = [f for f, s in self.lib.sigs.items() if f.endswith("_kernel_" + name) and s == (ret, tuple(args)) and f in self.lib.funcs]
        return c[0] if len(c) == 1 else None

    def call(self, fname, *args):
        """one kernel function on numbers and lists of doubles (lists are read back); returns (result, lists)"""
        ret, tys = self.lib.sigs[fname]
        self.problem = None
        R = Run(self.lib, (self.tags, self.itags), self.H.E if self.sym else None, self.draw, None, None, self.bvdraw)
        self.runs.append(R)
        saved = list(self.draws), self.nd
        a, lists = [], []
        try:
            for x in args:
                if isinstance(x, (list, tuple)):
                    p = R.alloca(8 * len(x))
                    for i, v in enumerate(x):
                        if v is not None:
                            R.store(p + 8 * i, v if self.sym else float(v), "double")
                    lists.append((p, len(x)))
                    a.append(p)
                else:
                    a.append(x)
            r = self.lib.funcs[fname](R, *a)
            outs = [[R.load(p + 8 * i, "double") if p + 8 * i in R.cells else None for i in range(n)] for p, n in lists]
        except Oob as e:
            self.problem = str(e)
        self.H.check(self.problem is None, "the compiled engine only touches its own arrays")
        if self.problem is not None:
            return None
        if not self.sym:
            self.draws, self.nd = saved
            f = getattr(self.lib.so, fname)
            C = {"double": ctypes.c_double, "i32": ctypes.c_int, "i64": ctypes.c_int64, "ptr": ctypes.c_void_p, "void": None}
            f.restype = C[ret]
            f.argtypes = [C[t] for t in tys]
            bufs, b = [], []
            for x in args:
                if isinstance(x, (list, tuple)):
                    q = (ctypes.c_double * len(x))(*[0.0 if v is None else float(v) for v in x])
                    bufs.append(q)
                    b.append(ctypes.addressof(q))
                else:
                    b.append(x)
            self.lib.hook(rng=lambda p: self.draw())
            try:
                r = f(*b)
            finally:
                self.lib.hook()
            outs = [list(q) for q in bufs]
        if isinstance(r, BoolInt):
            r = int(bool(r.b))
        return r, outs
