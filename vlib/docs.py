"""Scene documents whose numbers are symbolic: place holders are written, and replaced behind the YAML and CSV readers."""
import contextlib
import os
import shutil
import tempfile


class Doc:
    """a folder with a scene file and its data files"""

    def __init__(self, H):
        self.H, self.numbers = H, {}
        self.folder = tempfile.mkdtemp(prefix="pv23")
        self.tables = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.folder, ignore_errors=True)

    def hold(self, v):
        """a number as it is written in the file"""
        if self.H.mode != "sym":
            return v
        from vlib import symx
        if not symx.issym(v):
            return v
        k = 700000001.5 + len(self.numbers)
        self.numbers[k] = v
        return k

    def held(self, v):
        if isinstance(v, dict):
            return {k: self.held(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [self.held(x) for x in v]
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        return self.hold(v)

    def back(self, v):
        if isinstance(v, dict):
            return {k: self.back(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.back(x) for x in v]
        if isinstance(v, float) and v in self.numbers:
            return self.numbers[v]
        return v

    def csv(self, name, xs, ys, integers=False):
        """a spectrum file; the columns of whole numbers are read as integers"""
        sub = os.path.join(self.folder, os.path.dirname(name))
        os.makedirs(sub, exist_ok=True)
        with open(os.path.join(self.folder, name), "w") as f:
            f.write(",x,y\n")
            for k, (x, y) in enumerate(zip(xs, ys)):
                if integers and self.H.mode == "sym":
                    f.write("%d,%d,%d\n" % (k, x, 0))
                elif integers:
                    f.write("%d,%d,%d\n" % (k, x, int(y)))
                else:
                    f.write("%d,%r,%r\n" % (k, self.hold(x), self.hold(y)))
        self.tables[os.path.realpath(os.path.join(self.folder, name))] = (xs, ys, integers)
        return name

    def write(self, spec, name="scene.yml"):
        import yaml
        path = os.path.join(self.folder, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            yaml.safe_dump(self.held(spec), f, sort_keys=False)
        return path

    def parse(self, spec, name="scene.yml"):
        from pvtrace.cli import parse as mod
        path = self.write(spec, name)
        with self.readers():
            return mod.parse(path)

    def text(self, spec):
        import yaml
        return yaml.safe_dump(self.held(spec), sort_keys=False)

    def walk(self, v, f):
        """replaces numbers in a round trip document, in place"""
        if isinstance(v, dict):
            for k in list(v):
                if isinstance(v[k], (dict, list)):
                    self.walk(v[k], f)
                else:
                    n = f(v[k])
                    if n is not v[k]:
                        v[k] = n
        elif isinstance(v, list):
            for k in range(len(v)):
                if isinstance(v[k], (dict, list)):
                    self.walk(v[k], f)
                else:
                    n = f(v[k])
                    if n is not v[k]:
                        v[k] = n

    @contextlib.contextmanager
    def readers(self):
        """readers and writers of documents which know the place holders"""
        if self.H.mode != "sym":
            yield
            return
        import numbers
        import yaml
        import pandas
        import numpy
        from vlib import symx
        numbers.Number.register(symx.SymNum)
        saved = {k: getattr(yaml, k) for k in ("load", "safe_load", "full_load")}
        read = pandas.read_csv

        def wrap(f):
            def g(*a, **k):
                return self.back(f(*a, **k))
            return g

        def read_csv(where, *a, **k):
            df = read(where, *a, **k)
            path = where if isinstance(where, (str, os.PathLike)) else where.name
            xs, ys, integers = self.tables[os.path.realpath(path)]
            return Frame(df, xs, ys, integers)
        stack = numpy.column_stack

        def column_stack(*a, **k):
            return numpy.array(stack(*a, **k), dtype=object)
        try:
            from ruamel.yaml import YAML
        except ImportError:
            YAML = None
        if YAML is not None:
            rload, rdump = YAML.load, YAML.dump

            def load(y, stream):
                data = rload(y, stream)
                self.walk(data, lambda v: self.numbers.get(v, v) if isinstance(v, float) else v)
                return data

            def dump(y, data, stream=None, **k):
                self.walk(data, lambda v: self.hold(v) if symx.issym(v) else v)
                return rdump(y, data, stream, **k)
            YAML.load, YAML.dump = load, dump
        for k, f in saved.items():
            setattr(yaml, k, wrap(f))
        pandas.read_csv = read_csv
        numpy.column_stack = column_stack
        try:
            yield
        finally:
            numpy.column_stack = stack
            for k, f in saved.items():
                setattr(yaml, k, f)
            pandas.read_csv = read
            if YAML is not None:
                YAML.load, YAML.dump = rload, rdump


def table(xs, ys, integers):
    """the two columns, stored as numpy would store them"""
    import numpy as np

    class Column(np.ndarray):
        """numbers in an array of objects; whole ones are cut when stored, like in an integer array"""

        def __setitem__(self, key, value):
            if getattr(self, "whole", False):
                def cut(v):
                    return v.trunc() if hasattr(v, "trunc") else int(v)
                value = np.asarray([cut(v) for v in np.ravel(value)], dtype=object).reshape(np.shape(value)) if np.ndim(value) else cut(value)
            super().__setitem__(key, value)

        def __array_finalize__(self, obj):
            # arithmetic and conversions give ordinary numbers; views of whole numbers are whole
            self.whole = False

        def astype(self, kind, *a, **k):
            if np.dtype(kind).kind == "f":
                return np.asarray(self.copy())
            return super().astype(kind, *a, **k)

        def __getitem__(self, key):
            r = super().__getitem__(key)
            if isinstance(r, Column):
                r.whole = self.whole
            return r
    a = np.empty((len(xs), 2), dtype=object)
    for k, (x, y) in enumerate(zip(xs, ys)):
        a[k, 0], a[k, 1] = x, y
    a = a.view(Column)
    a.whole = integers
    return a


class Frame:
    """what is used of a DataFrame with one index column and two value columns"""

    def __init__(self, df, xs, ys, integers):
        assert df.shape == (len(xs), 2), "spectrum files have an index and two columns"
        self.values = table(xs, ys, integers)
        self.iloc = Iloc(self)
        self.shape = df.shape

    def to_numpy(self, dtype=None, copy=False):
        return self.values if dtype is None else self.values.astype(dtype)

    def astype(self, kind):
        self.values = self.values.astype(kind)
        return self


class Iloc:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        f = Frame.__new__(Frame)
        f.values = self.frame.values[key]
        f.iloc = Iloc(f)
        f.shape = f.values.shape
        return f


class Draws:
    """the same arbitrary draws for the scene's rule and for the reference"""

    def __init__(self, H, n=4):
        self.us = [H.real("draw%d" % k, 0, 1, hi_open=True) for k in range(n)]

    def run(self, f):
        import numpy as np
        state = [0]

        def u():
            state[0] += 1
            return self.us[(state[0] - 1) % len(self.us)]

        def uniform(low=0.0, high=1.0, size=None):
            if size is None:
                return low + (high - low) * u()
            vals = [low + (high - low) * u() for _ in range(size if isinstance(size, int) else size[0])]
            return np.array(vals, dtype=object)
        saved = np.random.uniform
        np.random.uniform = uniform
        try:
            return f()
        finally:
            np.random.uniform = saved


def tree(scene):
    from anytree import PreOrderIter
    return {n.name: n for n in PreOrderIter(scene.root)}
