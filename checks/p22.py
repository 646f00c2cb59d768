"""Command-line queries over symbolic result databases.

The real commands run through their command-line parsers; the SQL text they build is evaluated by a small SQL
interpreter over rows of solver terms (replays use a real SQLite file with pvtrace's schema)."""
import io, json, os, shutil, tempfile, contextlib
from vlib.harness import Job

PROPERTY = "P22"
PRELOAD = ("pvtrace.cli.count", "pvtrace.cli.spectrum", "pvtrace.cli.time", "pvtrace.cli.db", "pvtrace.cli.main", "termplotlib", "pandas")
BOUNDS = {"database": "up to 3 events (thorough: 4) of any kinds, shared in every way between rays, each row with any hit/container/adjacent/component/facet text "
                      "(or NULL) from listed names, any source, any normal (or NULL), wavelength, duration, position",
          "queries": "every command of count, spectrum and time; with no filter, any normal-component filter, facet, source, tolerance and their combinations; "
                     "csv, json and plot output"}
ASSUMPTIONS = ["SQLite's evaluation of the SQL subset is modelled by vlib/minisql.py (replays use SQLite itself)",
               "normals lie at least 1e-9 from the edge of the tolerance", "wavelengths and durations of distinct values differ by more than rounding"]

KINDS = ["GENERATE", "REFLECT", "TRANSMIT", "ABSORB", "SCATTER", "EMIT", "EXIT", "KILL", "NONRADIATIVE", "REACT"]
SURF = {"reflected": ("REFLECT", "adjacent"), "entering": ("TRANSMIT", "adjacent"), "escaping": ("TRANSMIT", "container")}
VOL = {"lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}
NODES = ["box", "Box", "world", "it's"]
FACETS = ["top", "left"]
SOURCES = ["lamp", "dye"]
COLS = ["throw_id", "x", "y", "z", "i", "j", "k", "wavelength", "source", "travelled", "duration"]
ECOLS = ["ray_id", "kind", "component", "hit", "container", "adjacent", "facet", "ni", "nj", "nk"]

FILTERS = {
    "none": {},
    "nx": {"--nx": ("1", 1)},
    "nx-neg": {"--nx": ("-0.6", (-3, 5))},
    "ny-zero": {"--ny": ("0", 0)},
    "nz": {"--nz": ("-1.0", -1)},
    "nxyz-tol": {"--nx": ("0", 0), "--ny": ("0", 0), "--nz": ("1", 1), "--atol": ("0.25", (1, 4))},
    "atol-zero": {"--nz": ("1", 1), "--atol": ("0", 0)},
    "facet": {"--facet": ("top", "top")},
    "source": {"--source": ("dye", "dye")},
    "all": {"--nx": ("1", 1), "--nz": ("0", 0), "--facet": ("left", "left"), "--source": ("lamp", "lamp"), "--atol": ("1e-3", (1, 1000))},
}


class Row:
    pass


def partitions(n):
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return out


def database(H, n, kinds, ids):
    """n symbolic (ray, event) row pairs; text values are codes into listed names, 0 is NULL"""
    rows = []
    for r in range(n):
        R = Row()
        R.throw = ids[r]
        R.wavelength = H.real("w%d" % r, 1, 5000)
        R.duration = H.real("t%d" % r, 0, 1e6)
        R.source = H.int("src%d" % r, 1, len(SOURCES))
        R.kind = H.int("kind%d" % r, 1, len(kinds))
        for f, dom in (("hit", NODES), ("container", NODES), ("adjacent", NODES), ("facet", FACETS)):
            setattr(R, f, H.int("%s%d" % (f, r), 0, len(dom)))
        R.nonnull = H.bool("hasnormal%d" % r)
        R.normal = [H.real("n%s%d" % (c, r), -1, 1) for c in "xyz"]
        rows.append(R)
    return rows


def sym_db(H, rows, kinds):
    from vlib import minisql, symx
    db = minisql.DB(symx)
    dom = db.dom
    import pvtrace.cli.main as mm
    with open(mm.SCHEMA) as f:
        db.script(f.read())
    z3 = symx.z3

    def text(code, names, nullable=True):
        first = dom.code(names[0])
        for i, s in enumerate(names):
            if dom.code(s) != first + i:
                raise symx.Unsupported("text domain")
        x = minisql.Text(code.t + (first - 1), dom)
        return minisql.Null(symx.mkb(code.t == 0), x) if nullable else x
    for i, R in enumerate(rows):
        db.insert_row("ray", [R.throw, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, R.wavelength, text(R.source, SOURCES, False), 0.0, R.duration])
        n = [minisql.Null(symx.mkb(z3.Not(symx.bt(R.nonnull))), v) for v in R.normal]
        db.insert_row("event", [i + 1, text(R.kind, kinds, False), None, text(R.hit, NODES), text(R.container, NODES), text(R.adjacent, NODES),
                                text(R.facet, FACETS)] + n)
    return db


def real_db(rows, kinds, path):
    import sqlite3
    import pvtrace.cli.main as mm
    mm.prepare_database(path)
    c = sqlite3.connect(path)
    nm = lambda code, names: names[int(code) - 1] if int(code) > 0 else None
    for i, R in enumerate(rows):
        c.execute("INSERT INTO ray (%s) VALUES (%s)" % (",".join(COLS), ",".join("?" * 11)),
                  (R.throw, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, float(R.wavelength), nm(R.source, SOURCES), 0.0, float(R.duration)))
        n = [float(v) if R.nonnull else None for v in R.normal]
        c.execute("INSERT INTO event (%s) VALUES (%s)" % (",".join(ECOLS), ",".join("?" * 10)),
                  [i + 1, nm(R.kind, kinds), None, nm(R.hit, NODES), nm(R.container, NODES), nm(R.adjacent, NODES), nm(R.facet, FACETS)] + n)
    c.commit()
    c.close()


class Captured:
    def __init__(self):
        self.out, self.frames, self.hist, self.plots = [], [], [], []
        self.error = None


def run_sym(H, db, app, argv, path):
    """run the command with sqlite3, printing, table output and plotting captured"""
    import sqlite3, builtins, pandas, numpy, termplotlib, typer, click
    from vlib import minisql
    cap = Captured()

    class DF:
        def __init__(self, data=None, columns=None, index=None, **k):
            self.data, self.columns, self.index = list(data), list(columns or []), list(index if index is not None else range(len(data)))

        def _w(self, kind, buf):
            cap.frames.append((kind, self))
            tok = "<<%d>>" % (len(cap.frames) - 1)
            if buf is None:
                return tok
            buf.write(tok)

        def to_csv(self, buf=None, **k):
            return self._w("csv", buf)

        def to_json(self, buf=None, **k):
            if len(set(int(i) for i in self.index)) != len(self.index) and k.get("orient", "columns") in ("columns", "index"):
                raise ValueError("DataFrame index must be unique for orient='columns'.")
            return self._w("json", buf)

    class Fig:
        def hist(self, counts, edges, *a, **k):
            cap.plots.append((counts, edges))

        def show(self):
            cap.out.append(("plot", len(cap.plots)))

    def histogram(a, *x, **k):
        cap.hist.append(list(a))
        return ("counts", len(cap.hist) - 1), ("edges", len(cap.hist) - 1)
    saved = (sqlite3.connect, builtins.print, pandas.DataFrame, numpy.histogram, termplotlib.figure, typer.echo, click.echo)
    sqlite3.connect = lambda *a, **k: minisql.Connection(db)
    builtins.print = lambda *a, **k: cap.out.append(("print",) + a)
    typer.echo = click.echo = lambda m=None, *a, **k: cap.out.append(("print", m))
    pandas.DataFrame, numpy.histogram, termplotlib.figure = DF, histogram, Fig
    try:
        call(app, argv, cap)
    finally:
        sqlite3.connect, builtins.print, pandas.DataFrame, numpy.histogram, termplotlib.figure, typer.echo, click.echo = saved
    return cap


def call(app, argv, cap):
    import typer
    cmd = typer.main.get_command(app)
    try:
        cmd(argv, standalone_mode=False)
    except SystemExit as e:
        cap.error = e
    except Exception as e:
        cap.error = e


def run_real(app, argv):
    import termplotlib, numpy
    cap = Captured()

    class Fig:
        def hist(self, counts, edges, *a, **k):
            cap.plots.append((numpy.array(counts), numpy.array(edges)))

        def show(self):
            cap.out.append(("plot", len(cap.plots)))
    saved = termplotlib.figure
    termplotlib.figure = Fig
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            call(app, argv, cap)
    finally:
        termplotlib.figure = saved
    cap.text = buf.getvalue()
    return cap


def expected(H, rows, kinds, cmd, node, filt):
    """for each row, the condition that it is one of the rows asked for"""
    ni = NODES.index(node) + 1
    out = []
    for R in rows:
        c = []
        if cmd in SURF:
            k, col = SURF[cmd]
            c += [R.kind == (kinds.index(k) + 1 if k in kinds else -1), R.hit == ni, getattr(R, col) == ni]
        else:
            k = VOL[cmd]
            c += [R.kind == (kinds.index(k) + 1 if k in kinds else -1), R.container == ni]
        tol = H.q(1, 10 ** 6)
        if "--atol" in filt:
            v = filt["--atol"][1]
            tol = H.q(*v) if isinstance(v, tuple) else H.q(v)
        for a, opt in enumerate(("--nx", "--ny", "--nz")):
            if opt in filt:
                v = filt[opt][1]
                v = H.q(*v) if isinstance(v, tuple) else H.q(v)
                d = abs(R.normal[a] - v)
                m = H.q(2 if H.mode == "sym" else 1, 10 ** 9)
                H.assume(H.Or(d == 0, d >= tol + m, d <= tol - m))
                c += [R.nonnull, d <= tol]
        if "--facet" in filt:
            c.append(R.facet == FACETS.index(filt["--facet"][1]) + 1)
        if "--source" in filt:
            c.append(R.source == SOURCES.index(filt["--source"][1]) + 1)
        out.append(H.And(*c))
    return out


def query(H, what, cmd, filt, n, output=None, ids=None):
    import importlib
    mod = importlib.import_module("pvtrace.cli." + what)
    kinds = KINDS
    node = "box" if what == "count" else H.pick("node", ["box", "it's"])
    throws = H.pick("rays", partitions(n))
    names = H.pick("ids", [[0, 1, 2, 3], [7, 2, 0, 5]]) if what != "count" else [0, 1, 2, 3]
    throws = [names[t] for t in throws]
    rows = database(H, n, kinds, throws)
    f = FILTERS[filt]
    want = expected(H, rows, kinds, cmd, node, f)
    if what != "count":
        # distinct values differ by more than text output rounds
        vals = [R.wavelength if what == "spectrum" else R.duration for R in rows]
        for i in range(n):
            for j in range(i):
                d = abs(vals[i] - vals[j])
                H.assume(H.Or(d == 0, d > H.q(2 if H.mode == "sym" else 1, 1000)))
    d = tempfile.mkdtemp(prefix="pv22")
    path = os.path.join(d, "db.sqlite3")
    argv = [cmd]
    for opt, v in f.items():
        argv += [opt, v[0]] if not v[0].startswith("-") else [opt + "=" + v[0]]
    if output:
        argv += ["--output", output]
    argv += ["--", node, path]
    try:
        if H.mode == "sym":
            open(path, "w").close()
            db = sym_db(H, rows, kinds)
            cap = run_sym(H, db, mod.app, argv, path)
        else:
            real_db(rows, kinds, path)
            cap = run_real(mod.app, argv)
    finally:
        shutil.rmtree(d)
    if what == "count":
        count_check(H, cap, rows, want)
    else:
        value_check(H, cap, rows, want, what, output or "plot")


def count_check(H, cap, rows, want):
    H.check(cap.error is None, "the command succeeds on a valid database" + ("" if cap.error is None else ""))
    if cap.error is not None:
        return
    total = 0
    for t in sorted({R.throw for R in rows}):
        c = H.Or(*[w for w, R in zip(want, rows) if R.throw == t])
        total = total + H.If(c, 1, 0)
    if H.mode == "sym":
        H.check(len(cap.out) == 1 and len(cap.out[0]) == 2, "one number is printed")
        got = cap.out[0][1]
    else:
        H.check(cap.text.strip().lstrip("-").isdigit(), "one number is printed")
        got = int(cap.text.strip())
    H.check(got == total, "the printed count is the number of distinct rays that satisfy the query")


def value_check(H, cap, rows, want, what, output):
    vals = [R.wavelength if what == "spectrum" else R.duration for R in rows]
    any_ = H.Or(*want)
    if cap.error is not None:
        dup = H.Or(*[H.And(want[i], want[j], H.Not(vals[i] == vals[j])) for i in range(len(rows)) for j in range(i)
                     if rows[i].throw == rows[j].throw])
        if output == "json" and isinstance(cap.error, ValueError) and "unique" in str(cap.error):
            H.check(dup, "json output fails only when one ray has several values (known finding)")
            H.known("json-several-values")
            return
        H.fail("the command succeeds on a valid database")
        return
    H.check(True, "the command succeeds on a valid database")
    if H.mode == "sym":
        if not cap.out:
            H.check(H.Not(any_), "nothing is printed only when no ray matches")
            return
        H.check(any_, "values are printed only when a ray matches")
        H.check(len(cap.out) == 1, "one table or plot is produced")
        if output == "plot":
            H.check(cap.out[0][0] == "plot" and len(cap.plots) == 1 and len(cap.hist) >= 1, "a histogram is plotted")
            counts, edges = cap.plots[0]
            H.check(isinstance(counts, tuple) and counts[0] == "counts" and edges == ("edges", counts[1]), "the plotted counts and edges belong together")
            got = [(None, v) for v in cap.hist[counts[1]]]
        else:
            s = str(cap.out[0][1]).strip()
            H.check(s.startswith("<<") and s.endswith(">>") and s[2:-2].isdigit(), "one table or plot is produced")
            kind, df = cap.frames[int(s[2:-2])]
            H.check(kind == output, "the requested format is written")
            H.check([str(c) for c in df.columns] == [UNIT[what]], "the column is named after its unit")
            got = [(int(i), v) for i, v in zip(df.index, df.data)]
            H.check(len(df.index) == len(df.data), "every value carries its ray")
    else:
        import numpy, pandas
        if output == "plot":
            if not cap.plots:
                H.check(not any_, "nothing is printed only when no ray matches")
                return
            exp = pairs_of(rows, want, vals)
            c, e = numpy.histogram([v for _, v in exp])
            ok = len(c) == len(cap.plots[0][0]) and (c == cap.plots[0][0]).all() and numpy.allclose(e, cap.plots[0][1])
            H.check(ok, "exactly the values of the matching rays are reported, once per ray")
            return
        txt = cap.text.strip()
        if not txt:
            H.check(not any_, "nothing is printed only when no ray matches")
            return
        if output == "csv":
            df = pandas.read_csv(io.StringIO(txt), index_col=0)
            got = [(int(i), float(v)) for i, v in zip(df.index, df[df.columns[0]])]
            cols = [str(c) for c in df.columns]
        else:
            j = json.loads(txt)
            cols = list(j)
            got = [(int(k), float(v)) for k, v in j[cols[0]].items()]
        H.check(cols == [UNIT[what]], "the column is named after its unit")
    L = "exactly the values of the matching rays are reported, once per ray"
    close = (lambda a, b: a == b) if H.mode == "sym" else (lambda a, b: abs(a - b) <= 1e-6)
    for i, R in enumerate(rows):
        H.check(H.Implies(want[i], H.Or(*[close(v, vals[i]) for t, v in got if t is None or t == R.throw])), L)
    for k, (t, v) in enumerate(got):
        H.check(H.Or(*[H.And(want[i], close(v, vals[i])) for i, R in enumerate(rows) if t is None or t == R.throw]), L)
        if output != "plot":
            for t2, v2 in got[:k]:
                if t == t2:
                    H.check(H.Not(close(v, v2)), L)
    if output == "plot":
        # one sample per distinct (ray, value) pair
        cnt = 0
        for i, R in enumerate(rows):
            earlier = [H.And(want[j], vals[j] == vals[i]) for j in range(i) if rows[j].throw == R.throw]
            cnt = cnt + H.If(H.And(want[i], H.Not(H.Or(*earlier)) if earlier else True), 1, 0)
        H.check(cnt == len(got), L)


UNIT = {"spectrum": "nanometers", "time": "seconds"}


def pairs_of(rows, want, vals):
    return sorted({(R.throw, v) for R, w, v in zip(rows, want, vals) if w})


_Job = Job


def Job(*a, **k):
    return _Job(*a, opts={"plain": True}, **k)


JOBS = []
for c in list(SURF) + list(VOL):
    fs = FILTERS if c in SURF else ("none", "source")
    for f in fs:
        JOBS.append(Job("count/%s/%s" % (c, f), query, what="count", cmd=c, filt=f, n=3))
        JOBS.append(Job("count4/%s/%s" % (c, f), query, what="count", cmd=c, filt=f, n=4, tiers=("thorough",)))
    for w in ("spectrum", "time"):
        for f in fs:
            JOBS.append(Job("%s/%s/%s/csv" % (w, c, f), query, what=w, cmd=c, filt=f, n=2 if f != "none" else 3, output="csv"))
            JOBS.append(Job("%s4/%s/%s/csv" % (w, c, f), query, what=w, cmd=c, filt=f, n=3 if f != "none" else 4, output="csv", tiers=("thorough",)))
        JOBS.append(Job("%s/%s/none/json" % (w, c), query, what=w, cmd=c, filt="none", n=2, output="json"))
        JOBS.append(Job("%s/%s/none/plot" % (w, c), query, what=w, cmd=c, filt="none", n=2))
