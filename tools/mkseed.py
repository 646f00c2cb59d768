"""helper to write /verif/seeded/<id>/ from (file, old, new) edits: used as a module by throw-away authoring scripts"""
import json, os, subprocess, tempfile, shutil
ROOT = "/verif/seeded"


def mk(bid, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, bid)
    os.makedirs(d, exist_ok=True)
    a = tempfile.mkdtemp(prefix="mkseed")
    for f in {e[0] for e in edits}:
        for s in ("a", "b"):
            os.makedirs(os.path.dirname(os.path.join(a, s, f)), exist_ok=True)
            shutil.copy("/repo/" + f, os.path.join(a, s, f))
    for f, old, new in edits:
        p = os.path.join(a, "b", f)
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = subprocess.run(["git", "diff", "--no-index", "--src-prefix=", "--dst-prefix=", "a", "b"], cwd=a, capture_output=True, text=True).stdout
    shutil.rmtree(a)
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the behaviour is right, nonzero when it is broken\n'
                                    'PYTHONPATH=. exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
