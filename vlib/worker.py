"""Runs one symbolic job in its own process.

usage: python -m vlib.worker MODULE JOB TIER OUT.json"""
import sys, os, json, time, traceback, importlib

REPO = os.environ.get("PV_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)


def watch_functions(seen):
    """names of the pvtrace functions that were executed"""
    mon = sys.monitoring
    tid = 4
    mon.use_tool_id(tid, "pvverif")
    pre = os.path.join(REPO, "pvtrace") + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(pre):
            seen.add(fn[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def find_job(module, job):
    mod = importlib.import_module("checks." + module)
    for j in mod.JOBS:
        if j.name == job:
            return mod, j
    raise SystemExit("no job " + job)


def main():
    module, job, tier, out = sys.argv[1:5]
    setup_path()
    import warnings
    warnings.simplefilter("ignore")
    t0 = time.time()
    res = dict(job=job, ok=False)
    seen = set()
    try:
        # third-party imports happen before numpy is patched
        import numpy, pandas, trimesh, anytree, logging  # noqa
        try:
            import scipy.spatial, networkx  # noqa
        except Exception:
            pass
        logging.disable(logging.CRITICAL)
        os.environ["PV_SYMBOLIC"] = "1"
        from vlib import symx, npshim
        mod, j = find_job(module, job)
        mode = j.opts.get("shim", True)
        if mode:
            npshim.install()
        pre = getattr(mod, "PRELOAD", ())
        for m in pre:
            importlib.import_module(m)
        if mode:
            npshim.shadow_modules(("pvtrace",))
        watch_functions(seen)
        budget = float(os.environ.get("PV_JOB_BUDGET", j.timeout or (540 if tier == "quick" else 1500)))
        o = dict(j.opts)
        eng = symx.Engine(query_timeout=o.get("query_timeout", 60 if tier == "quick" else 240),
                          branch_timeout=o.get("branch_timeout", 2.0),
                          max_paths=o.get("max_paths", 20000), deadline=time.time() + budget)
        eng.zero_div = o.get("zero_div", "nonfinite")
        eng.plain = bool(o.get("plain"))
        eng.n_alt = o.get("n_alt", 2)
        eng.max_witness = o.get("max_witness", 1)
        eng.max_violations = o.get("max_violations", 3)
        from vlib.harness import SymH

        def fn():
            H = SymH(eng, tier)
            j.fn(H, **j.params)
        if mode and not o.get("lazy_shadow"):
            def fn2():
                npshim.shadow_modules(("pvtrace",))
                fn()
        else:
            fn2 = fn
        eng.explore(fn2)
        symx.ENG = None
        res.update(ok=True, complete=eng.complete, stats=eng.stats, labels=eng.labels, notes=eng.notes,
                   strat=eng.strat, inconclusive=eng.inconclusive[:20],
                   violations=[dict(label=v["label"], models=v["models"]) for v in eng.violations],
                   witnesses=eng.witnesses, covers=eng.covers)
    except BaseException as e:
        res.update(error=type(e).__name__ + ": " + str(e)[:1500], tb=traceback.format_exc()[-4000:])
    res["wall"] = time.time() - t0
    res["functions"] = sorted(seen)
    with open(out, "w") as f:
        json.dump(res, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
