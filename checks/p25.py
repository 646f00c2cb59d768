"""The studio server: edits succeed as a whole or change nothing, moves change one placement, uploads stay in their folder."""
import asyncio
import contextlib
import os
import shutil
import tempfile
from vlib.harness import Job
from vlib import kern, symtext
from vlib.docs import Doc, tree

PROPERTY = "P25"
PRELOAD = kern.PRELOAD + ("jsonschema", "yaml", "ruamel.yaml", "pvtrace.light.light", "pvtrace.light.event", "pvtrace.cli.parse", "pvtrace.studio.server")
BOUNDS = {"uploads": "every name of up to 9 (thorough: 12) ASCII characters, some with a given ending; a document in the working directory, elsewhere or behind a link",
          "edits": "applying a valid or one of 14 invalid documents or edits after another one, with any one of the calls it makes failing",
          "moves": "any world position and any locations in a tree up to three deep with listed directions, nodes given one by one or by YAML aliases",
          "outside": "names with characters outside ASCII; two requests at once; partly written files; the web pages"}
ASSUMPTIONS = ["files are written to a recording stand-in (uploads) or a scratch folder (documents)", "an edit which fails does so by an exception"]
WORLD = {"sphere": {"radius": 1.0e6, "material": {"refractive-index": 1.0}}}


class App:
    """the server's routes"""

    def __init__(self, path):
        from pvtrace.studio import server
        self.studios = made = []
        real = server.Studio

        class Studio(real):
            def __init__(self, *a, **k):
                made.append(self)
                super().__init__(*a, **k)
        server.Studio = Studio
        try:
            self.app = server.create_app(path)
        finally:
            server.Studio = real

    def call(self, method, path, payload=None):
        """(status, answer)"""
        import json
        import inspect
        for r in self.app.routes:
            if getattr(r, "path", None) == path and method in (getattr(r, "methods", None) or ()):
                if payload is not None:
                    out = r.endpoint(payload)
                else:
                    out = r.endpoint()
                if inspect.iscoroutine(out):
                    out = asyncio.run(out)
                if hasattr(out, "status_code"):
                    return out.status_code, json.loads(bytes(out.body))
                return 200, out
        raise AssertionError("no route " + path)

    @property
    def studio(self):
        return self.studios[-1]


# ---- uploads -------------------------------------------------------------------

class Writes:
    """records which files would be written; nothing is written outside the scratch folder"""

    def __init__(self, folder):
        self.folder, self.files = folder, []

    @contextlib.contextmanager
    def watch(self):
        import builtins
        import pathlib
        import io
        P = pathlib.Path
        saved = [(P, k, getattr(P, k)) for k in ("write_text", "write_bytes", "open", "rename", "replace", "touch", "unlink", "mkdir", "symlink_to")]
        saved += [(os, k, getattr(os, k)) for k in ("open", "rename", "replace", "unlink", "remove", "makedirs", "mkdir")]
        saved += [(shutil, k, getattr(shutil, k)) for k in ("move", "copyfile", "copy")]
        saved += [(builtins, "open", builtins.open), (io, "open", io.open)]
        W = self

        def write(self, data, *a, **k):
            if not isinstance(data, (str, bytes)):
                raise TypeError("data must be str")
            W.files.append((self, data))
            return len(data)
        orig = {(o, k): f for o, k, f in saved}

        class Sink(io.StringIO):
            def __init__(self, where):
                super().__init__()
                self.name = where
                W.files.append([where, None])

            def write(self, s):
                W.files[-1][1] = s
                return len(s)

        def opener(o, k, first):
            def f(*a, **kw):
                mode = kw.get("mode", a[1] if len(a) > 1 else "r")
                if isinstance(mode, str) and any(c in mode for c in "wax+"):
                    return Sink(a[0])
                return orig[(o, k)](*a, **kw)
            return f

        def refuse(name):
            def f(*a, **k):
                W.files.append((a[0] if name in ("touch", "unlink", "mkdir", "makedirs", "remove", "symlink_to", "os.open") else a[1], None))
                raise OSError("not here: " + name)
            return f
        P.write_text = P.write_bytes = write
        P.open = opener(P, "open", True)
        builtins.open = opener(builtins, "open", True)
        io.open = builtins.open
        for k in ("rename", "replace", "touch", "unlink", "mkdir", "symlink_to"):
            setattr(P, k, refuse(k))
        for k in ("rename", "replace", "unlink", "remove", "makedirs", "mkdir"):
            setattr(os, k, refuse(k))
        for k in ("move", "copyfile", "copy"):
            setattr(shutil, k, refuse(k))
        try:
            with symtext.paths():
                yield self
        finally:
            for o, k, f in saved:
                setattr(o, k, f)


def upload(H, n, ending, where):
    length = n - len(ending)
    codes = [H.int("c%d" % k, 1, 127) for k in range(length)]
    name = symtext.Text(codes + list(ending)) if H.mode == "sym" else "".join(chr(c) for c in codes) + ending
    folder = os.path.realpath(tempfile.mkdtemp(prefix="pv25"))
    old = os.getcwd()
    try:
        home = os.path.join(folder, "home")
        os.mkdir(home)
        os.mkdir(os.path.join(folder, "links"))
        real = os.path.join(home, "scene.yml")
        with open(real, "w") as f:
            f.write("version: '1.0'\n")
        path, beside = real, home
        if where == "here":
            os.chdir(home)
            path = "scene.yml"
        elif where == "linked":
            path = os.path.join(folder, "links", "scene.yml")
            os.symlink(real, path)
        app = App(path)
        text = "nm,a\n"
        with Writes(folder).watch() as W:
            status, out = app.call("POST", "/api/upload", {"name": name, "content": text})
        with symtext.paths():
            H.check(len(W.files) == (1 if status == 200 else 0), "an upload writes one file or is refused")
            for target, data in W.files:
                full = target if os.path.isabs(str(target)) else os.path.join(os.getcwd(), str(target))
                cs = symtext.chars(str(full))
                # the folder is written out, what follows it is the file's name
                allowed = [os.path.join(folder, d) + "/" for d in ("home", "links")]
                head = [d for d in allowed if cs[:len(d)] == list(d)]
                H.check(bool(head), "an uploaded file is written in the document's folder")
                if not head:
                    continue
                rest = cs[len(head[0]):]
                H.check(len(rest) > 0, "an uploaded file is written in the document's folder")
                slash = [H.Not(c == 47) if not isinstance(c, str) else c != "/" for c in rest]
                H.check(H.And(*slash), "an uploaded file is written in the document's folder")
                if len(rest) <= 2:
                    H.check(H.Not(H.And(*[(c == 46) if not isinstance(c, str) else c == "." for c in rest])), "an uploaded file is written in the document's folder")
                H.check(data == text, "an uploaded file has the uploaded content")
                # and the scene can use it by the name it was saved under
                saved = symtext.chars(out["saved"])
                H.check(len(saved) == len(rest) and all(symtext.is_char(a, b) for a, b in zip(saved, rest)), "an uploaded file can be used by its name")
                used = app.studio.folder if getattr(app.studio, "folder", None) is not None else os.getcwd()
                H.check(os.path.samefile(str(used), head[0]), "an uploaded file can be used by its name")
            if status == 200:
                low = symtext.chars(name)[-4:]
                H.check(len(low) == 4, "only data files are accepted")
    finally:
        os.chdir(old)
        shutil.rmtree(folder, ignore_errors=True)


def spectrum_by_name(H, where):
    """a file uploaded beside the document is the one the scene reads"""
    folder = os.path.realpath(tempfile.mkdtemp(prefix="pv25"))
    old = os.getcwd()
    try:
        with Doc(H) as D:
            os.mkdir(os.path.join(folder, "home"))
            os.mkdir(os.path.join(folder, "links"))
            real = os.path.join(folder, "home", "scene.yml")
            with open(real, "w") as f:
                f.write("version: '1.0'\n")
            path = real
            if where == "here":
                os.chdir(os.path.join(folder, "home"))
                path = "scene.yml"
            elif where == "linked":
                path = os.path.join(folder, "links", "scene.yml")
                os.symlink(real, path)
            app = App(path)
            ys = [H.real("y%d" % k, 0.1, 10) for k in range(3)]
            rows = "".join("%d,%d,%r\n" % (k, 400 + 100 * k, D.hold(y)) for k, y in enumerate(ys))
            status, out = app.call("POST", "/api/upload", {"name": "dye.csv", "content": ",x,y\n" + rows})
            H.check(status == 200, "a data file can be uploaded")
            for d in ("home", "links"):
                D.tables[os.path.join(folder, d, "dye.csv")] = ([400, 500, 600], ys, False)
            spec = {"version": "1.0", "nodes": {"world": WORLD, "ball": {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5, "components": ["dye"]}}}},
                    "components": {"dye": {"absorber": {"coefficient": 2.0, "spectrum": {"file": "dye.csv"}}}}}
            with D.readers():
                status, out = app.call("PUT", "/api/document", {"text": D.text(spec)})
            if status != 200:
                H.note(str(out))
            H.check(status == 200, "an uploaded file can be used by its name")
            if status == 200:
                c = [n for n in tree(app.studio.scene).values() if n.name == "ball"][0].geometry.material.components[0]
                top = H.If(ys[0] >= ys[1], ys[0], ys[1])
                top = H.If(top >= ys[2], top, ys[2])
                H.check_close(c.coefficient(500.0) * top, 2 * ys[1], "an uploaded file can be used by its name")
    finally:
        os.chdir(old)
        shutil.rmtree(folder, ignore_errors=True)


# ---- edits ---------------------------------------------------------------------

def first(H):
    return {"version": "1.0", "nodes": {"world": WORLD, "ball": {"location": [1.0, H.real("a", -50, 50), 3.0], "sphere": {"radius": 2.0, "material": {"refractive-index": 1.5}}},
                                        "rod": {"location": [9.0, 0.0, 0.0], "cylinder": {"length": 2.0, "radius": 1.0, "material": {"refractive-index": 1.4, "components": ["ink"]}}},
                                        "lamp": {"location": [0.0, 0.0, 90.0], "light": {"wavelength": 555}}},
            "components": {"ink": {"absorber": {"coefficient": 1.0}}}, "recorders": {"out": {"node": "ball", "event": "escaping", "histograms": {"wavelength": [400, 700, 3]}}}}


def second(H):
    return {"version": "1.0", "nodes": {"world": WORLD, "cube": {"location": [H.real("b", -50, 50), 0.0, 0.0], "box": {"size": [1.0, 2.0, 3.0], "material": {"refractive-index": 1.6}}},
                                        "sun": {"location": [0.0, 0.0, 90.0], "light": {"wavelength": 600}}}}


def broken(H, kind):
    """documents and edits which are not valid"""
    doc = second(H)
    node = doc["nodes"]["cube"]
    if kind == "yaml":
        return "nodes: [1, 2\n"
    if kind == "list":
        return "- 1\n- 2\n"
    if kind == "empty":
        return ""
    if kind == "type":
        node["box"]["size"] = "large"
    elif kind == "length":
        node["box"]["size"] = [1.0, 2.0]
    elif kind == "component":
        node["box"]["material"]["components"] = ["nothing"]
    elif kind == "parent":
        node["parent"] = "nobody"
    elif kind == "world":
        del doc["nodes"]["world"]
    elif kind == "file":
        doc["components"] = {"dye": {"absorber": {"coefficient": 1.0, "spectrum": {"file": "missing.csv"}}}}
        node["box"]["material"]["components"] = ["dye"]
    elif kind == "infinite":
        node["location"] = [float("inf"), 0.0, 0.0]
    elif kind == "unsupported":
        doc["recorders"] = {"r": {"node": "nobody", "event": "escaping"}}
    return doc


DOCS = ["yaml", "list", "empty", "type", "length", "component", "parent", "world", "file", "infinite", "unsupported"]
EDITS = {"unknown op": {"op": "explode"}, "unknown node": {"op": "move", "node": "nobody", "world_position": [0.0, 0.0, 0.0]}, "root": {"op": "move", "node": "world", "world_position": [1.0, 0.0, 0.0]},
         "bad value": {"op": "set", "path": ["nodes", "ball", "sphere", "radius"], "value": "big"}, "bad key": {"op": "update-recorder", "recorder": "out", "changes": {"name": "x"}},
         "no recorder": {"op": "delete-recorder", "recorder": "nothing"}, "world gone": {"op": "delete-node", "node": "world"}, "faces of a ball": {"op": "add-face-recorders", "node": "ball"},
         "kind": {"op": "add-node", "kind": "teapot"}, "no node": {"op": "add-recorder", "node": "nobody"}, "used": {"op": "delete-component", "component": "nothing"}}


@contextlib.contextmanager
def failing(at):
    """the given call, of those an edit makes, fails"""
    import json
    import yaml
    from pvtrace.studio import server
    import pvtrace.engine as engine
    count = [0]
    spots = []
    for owner, name in ((yaml, "safe_load"), (server, "parse_scene_file"), (engine, "compile_scene"), (server.Studio, "scene_payload"), (server, "jsonable_encoder"),
                        (json, "dumps"), (tempfile, "NamedTemporaryFile"), (os, "unlink"), (server, "_patch"), (server, "_flow")):
        if hasattr(owner, name):
            spots.append((owner, name, getattr(owner, name)))

    def wrap(f, name):
        def g(*a, **k):
            count[0] += 1
            if count[0] == at:
                raise RuntimeError("injected into " + name)
            return f(*a, **k)
        return g
    for owner, name, f in spots:
        setattr(owner, name, wrap(f, name))
    try:
        yield count
    finally:
        for owner, name, f in spots:
            setattr(owner, name, f)


def state(app):
    return app.studio.document, app.studio.scene, app.studio.spec, list(tree(app.studio.scene).items())


def untouched(H, app, before, path, label):
    now = state(app)
    H.check(now[0] == before[0], label)
    H.check(now[1] is before[1], label)
    H.check(now[2] is before[2], label)
    H.check([(k, id(v)) for k, v in now[3]] == [(k, id(v)) for k, v in before[3]], label)
    st, out = app.call("GET", "/api/document")
    H.check(st == 200 and out["text"] == before[0], label)


def opened(H, D):
    path = os.path.join(D.folder, "scene.yml")
    with open(path, "w") as f:
        f.write(D.text(first(H)))
    app = App(path)
    H.check(app.studio.scene is not None, "the document is opened")
    return app, path


LABEL = "an edit that fails leaves the scene and the document as they were"


def faults(H, what):
    """a valid edit, with any one of its calls failing"""
    kern.fake_trimesh(H)
    with Doc(H) as D, D.readers():
        app, path = opened(H, D)
        before = state(app)
        with open(path) as f:
            disk = f.read()
        at = H.size("at", 0, 12)
        with failing(at) as count:
            if what == "document":
                text = D.text(second(H))
                status, out = app.call("PUT", "/api/document", {"text": text})
            elif what == "move":
                status, out = app.call("POST", "/api/patch", {"op": "move", "node": "ball", "world_position": [0.0, 1.0, 2.0]})
            elif what == "add":
                status, out = app.call("POST", "/api/patch", {"op": "add-node", "kind": "box"})
            else:
                status, out = app.call("POST", "/api/patch", {"op": "delete-node", "node": "ball"})
        failed = 0 < at <= count[0]
        if status != 200:
            H.check(failed, "a valid edit succeeds")
            untouched(H, app, before, path, LABEL)
        else:
            names = {"document": {"world", "cube", "sun"}, "move": {"world", "ball", "rod", "lamp"}, "add": {"world", "ball", "rod", "lamp", "box-1"}, "delete": {"world", "rod", "lamp"}}[what]
            H.check(set(tree(app.studio.scene)) == names, "an edit that succeeds replaces the scene")
            H.check(app.studio.scene is not before[1], "an edit that succeeds replaces the scene")
            H.check(set(app.studio.spec["nodes"]) == names, "an edit that succeeds replaces the document")
            if what == "document":
                H.check(app.studio.document == text, "an edit that succeeds replaces the document")
            else:
                H.check(app.studio.document == out["text"], "an edit that succeeds replaces the document")
            H.check({n["name"] for n in out["scene"]["nodes"]} | {n["name"] for n in out["scene"]["lights"]} == names, "the answer describes the new scene")
        with open(path) as f:
            H.check(f.read() == disk, "the file changes only when it is saved")
        # the server is not left in a state in which it cannot go on
        status, out = app.call("PUT", "/api/document", {"text": D.text(second(H))})
        H.check(status == 200 and set(tree(app.studio.scene)) == {"world", "cube", "sun"}, "an edit after one that failed succeeds")
        status, out = app.call("POST", "/api/save")
        with open(path) as f:
            H.check(status == 200 and f.read() == app.studio.document, "saving writes the document")
        H.check(sorted(os.listdir(D.folder)) == ["scene.yml"] or failed, "edits leave no files behind")


def invalid(H, kind):
    kern.fake_trimesh(H)
    with Doc(H) as D, D.readers():
        app, path = opened(H, D)
        before = state(app)
        if kind in DOCS:
            bad = broken(H, kind)
            status, out = app.call("PUT", "/api/document", {"text": bad if isinstance(bad, str) else D.text(bad)})
        else:
            status, out = app.call("POST", "/api/patch", EDITS[kind])
        H.check(status == 422 and out.get("error"), "an invalid edit is refused with a message")
        untouched(H, app, before, path, LABEL)
        H.check(sorted(os.listdir(D.folder)) == ["scene.yml"], "edits leave no files behind")


# ---- moves ---------------------------------------------------------------------
WAYS = [None, (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 2, 2), (2, 3, -6)]


def move(H, who, ways, alias):
    kern.fake_trimesh(H)
    ball = {"sphere": {"radius": 1.0, "material": {"refractive-index": 1.5}}}
    big = {"sphere": {"radius": 500.0, "material": {"refractive-index": 1.2}}}
    with Doc(H) as D, D.readers():
        def place(k, spec, parent=None):
            spec = dict(spec, location=[H.real("l%d%s" % (k, c), -100, 100) for c in "xyz"])
            if ways[k % len(ways)] is not None:
                spec["direction"] = [float(x) for x in ways[k % len(ways)]]
            if parent:
                spec["parent"] = parent
            return spec
        nodes = {"world": WORLD, "host": place(0, big), "inner": place(1, big, "host"), "thing": place(2, ball, "inner"), "kid": place(3, ball, "thing"), "alone": place(4, ball),
                 "lamp": place(5, {"light": {"wavelength": 555}}, "host")}
        doc = {"version": "1.0", "nodes": nodes, "recorders": {"r": {"node": "thing", "event": "escaping"}}}
        text = D.text(doc)
        if alias:
            # the same node written once and used again
            lines = text.splitlines()
            i = next(k for k, l in enumerate(lines) if l.strip() == who + ":")
            lines[i] += " &shared"
            lines.insert(next(k for k, l in enumerate(lines) if l.startswith("recorders:")), "  again: *shared")
            text = "\n".join(lines) + "\n"
        path = os.path.join(D.folder, "scene.yml")
        with open(path, "w") as f:
            f.write(text)
        app = App(path)
        H.check(app.studio.scene is not None, "the document is opened")
        old = tree(app.studio.scene)
        world = [H.real("w" + c, -500, 500) for c in "xyz"]
        status, out = app.call("POST", "/api/patch", {"op": "move", "node": who, "world_position": list(world)})
        H.check(status == 200, "objects can be moved")
        new = tree(app.studio.scene)
        H.check(set(new) == set(old), "moving an object changes only its placement")
        got = new[who].point_to_node((0.0, 0.0, 0.0), app.studio.scene.root)
        for a, b in zip(got, world):
            # locations are written with six decimals
            H.check_close(a, b, "a moved object is at the requested position", tol=3e-6)
        import numpy as np
        for k in old:
            H.check((old[k].parent and old[k].parent.name) == (new[k].parent and new[k].parent.name), "moving an object changes only its placement")
            a, b = np.array(old[k].pose), np.array(new[k].pose)
            for i in range(3):
                for j in range(3 if k == who else 4):
                    H.check_close(a[i][j], b[i][j], "moving an object changes only its placement")
        # and in the text
        import yaml
        specs = yaml.safe_load(app.studio.document)
        was = yaml.safe_load(text)
        for d in (specs, was):
            d["nodes"][who] = {k: v for k, v in d["nodes"][who].items() if k != "location"}
        H.check(same(H, specs, was), "moving an object changes only its placement")


def same(H, a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(H, a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(H, x, y) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None:
        return a == b
    return bool(a == b)


JOBS = []
for where in ("elsewhere", "here", "linked"):
    for n, end in ((0, ""), (1, ""), (3, ""), (6, ".csv"), (9, ".csv"), (7, ".TxT"), (5, ""), (6, ""), (10, ".csv"), (12, ".csv"), (8, "/.csv")):
        quick = (n <= 5 or (n, end) == (6, ".csv") or (n, where) in ((9, "elsewhere"), (7, "here"), (8, "linked")))
        JOBS.append(Job("upload/%s/%d%s" % (where, n, end.replace("/", "-")), upload, n=n, ending=end, where=where, tiers=("quick", "thorough") if quick else ("thorough",)))
    JOBS.append(Job("use/" + where, spectrum_by_name, where=where))
JOBS += [Job("faults/" + w, faults, what=w) for w in ("document", "move", "add", "delete")]
JOBS += [Job("invalid/" + k, invalid, kind=k) for k in DOCS + list(EDITS)]
n = 0
for who in ("thing", "inner", "alone", "lamp", "host"):
    for i in range(len(WAYS)):
        n += 1
        JOBS.append(Job("move/%s/%d" % (who, i), move, who=who, ways=[WAYS[i], WAYS[(i + 2) % 6], WAYS[(i + 5) % 6], WAYS[(i + 3) % 6]], alias=who != "host" and n % 3 == 0,
                        tiers=("quick", "thorough") if n % 3 != 1 else ("thorough",)))
