"""Runs harnesses on concrete inputs against the unpatched implementation.

usage: python -m vlib.replay MODULE TIER TASKS.json OUT.json
       python -m vlib.replay REPLAYFILE.json          (re-run one reported violation)"""
import sys, os, json, traceback, math


def clean(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, str):
            try:
                v = float(v)
            except ValueError:
                continue
        out[k] = v
    return out


def run_one(j, inputs, tier):
    from vlib.harness import ConcH, AssumedOut, script_random, unscript_random
    H = ConcH(clean(inputs), tier)
    saved = script_random(H)
    try:
        try:
            j.fn(H, **j.params)
        except AssumedOut:
            H.assumed_out = all(ok for _, ok, _ in H.results)
        except Exception as e:
            H.results.append(("unexpected %s" % type(e).__name__, False, traceback.format_exc()[-1500:]))
    finally:
        unscript_random(saved)
    fails = [(l, d) for l, ok, d in H.results if not ok]
    return dict(fails=fails, labels=sorted({l for l, _, _ in H.results}), n=len(H.results),
                assumed_out=H.assumed_out, used=H.used)


def main():
    from vlib.worker import setup_path, find_job
    setup_path()
    import warnings, logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import importlib
    if len(sys.argv) == 2:
        spec = json.load(open(sys.argv[1]))
        from vlib import runner
        runner.prepare_env(spec["module"])
        mod, j = find_job(spec["module"], spec["job"])
        r = run_one(j, spec["inputs"], spec.get("tier", "quick"))
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["fails"] and not r["assumed_out"] else 0)
    module, tier, tasks, out = sys.argv[1:5]
    tasks = json.load(open(tasks))
    res = []
    for t in tasks:
        try:
            mod, j = find_job(module, t["job"])
            for m in getattr(mod, "PRELOAD", ()):
                importlib.import_module(m)
            r = run_one(j, t["inputs"], tier)
        except BaseException as e:
            r = dict(error=repr(e) + traceback.format_exc()[-1500:], fails=[], labels=[], n=0, assumed_out=False)
        res.append(r)
        with open(out, "w") as f:
            json.dump(res, f, default=str)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
