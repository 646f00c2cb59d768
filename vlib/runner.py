"""Check driver: runs every job of a check module, replays counterexamples, writes evidence.

usage: python -m vlib.runner MODULE TIER"""
import sys, os, json, time, subprocess, tempfile, shutil, signal, importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("PV_REPO", "/repo")
NPROC = int(os.environ.get("PV_NPROC", "8"))


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE + os.pathsep + REPO
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    return e


def prepare_env(module):
    """build whatever the check needs from /repo's current tree (kernel IR / replay library)"""
    mod = importlib.import_module("checks." + module)
    needs = getattr(mod, "NEEDS", ())
    if "kernel" in needs and "PV_KERNEL_DIR" not in os.environ:
        from vlib import kernelbuild
        os.environ["PV_KERNEL_DIR"] = kernelbuild.prepare()
    return mod


def spawn(args, log):
    return subprocess.Popen([PY, "-B", "-m"] + args, cwd=HERE, env=env(), stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(5)
    except Exception:
        pass


def replay(module, tier, tasks, scratch, tag, timeout=120):
    if not tasks:
        return []
    tin = os.path.join(scratch, "t_%s.json" % tag)
    tout = os.path.join(scratch, "r_%s.json" % tag)
    with open(tin, "w") as f:
        json.dump(tasks, f)
    with open(os.path.join(scratch, "l_%s.txt" % tag), "w") as log:
        p = spawn(["vlib.replay", module, tier, tin, tout], log)
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            kill(p)
    try:
        res = json.load(open(tout))
    except Exception:
        res = []
    while len(res) < len(tasks):
        res.append(dict(error="no result (crash or timeout)", fails=[], labels=[], n=0, assumed_out=False))
    return res


def main():
    module = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] or None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix="pvverif-")
    code = 2
    try:
        code = run(module, tier, only, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        d = os.environ.get("PV_KERNEL_DIR")
        if d and os.environ.get("PV_KERNEL_KEEP") != "1":
            shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(module, tier, only, seed, scratch, t0):
    mod = prepare_env(module)
    prop = mod.PROPERTY
    jobs = [j for j in mod.JOBS if tier in j.tiers and (not only or j.name in only)]
    overall = float(os.environ.get("PV_BUDGET", getattr(mod, "BUDGET", 780) if tier == "quick" else 6 * 3600))
    # long jobs first
    order = sorted(jobs, key=lambda j: -(j.opts.get("weight", 1)))
    pending = list(order)
    running = {}
    results = {}
    failed = []
    viol = None
    unrepro = []
    nproc = getattr(mod, "NPROC", NPROC)
    while pending or running:
        while pending and len(running) < nproc and viol is None:
            j = pending.pop(0)
            out = os.path.join(scratch, "out_%d.json" % len(results) + j.name.replace("/", "_") + ".json")
            log = open(os.path.join(scratch, "log_" + j.name.replace("/", "_") + ".txt"), "w")
            running[j.name] = (spawn(["vlib.worker", module, j.name, tier, out], log), out, time.time(), j, log)
        if viol is not None:
            for p, out, ts, j, log in running.values():
                kill(p)
            break
        time.sleep(0.05)
        for nm in list(running):
            p, out, ts, j, log = running[nm]
            hard = (j.timeout or (240 if tier == "quick" else 1500)) * 1.6 + 60
            if p.poll() is None:
                if time.time() - ts > hard or time.time() - t0 > overall:
                    kill(p)
                    results[nm] = dict(job=nm, ok=False, error="job time limit")
                    del running[nm]
                continue
            log.close()
            del running[nm]
            kill(p)
            try:
                r = json.load(open(out))
            except Exception:
                r = dict(job=nm, ok=False, error="worker died: " + open(log.name).read()[-1500:])
            results[nm] = r
            if r.get("violations"):
                tasks = []
                for v in r["violations"]:
                    for m in v["models"]:
                        tasks.append(dict(job=nm, inputs=m, label=v["label"]))
                rr = replay(module, tier, tasks, scratch, "v_" + nm.replace("/", "_"))
                hit = None
                for t, q in zip(tasks, rr):
                    if q["fails"] and not q.get("assumed_out"):
                        lab = [f for f in q["fails"] if f[0] == t["label"]] or q["fails"]
                        hit = dict(job=nm, label=lab[0][0], detail=lab[0][1], inputs=t["inputs"], solver_label=t["label"])
                        break
                if hit:
                    viol = hit
                else:
                    unrepro.append((nm, [v["label"] for v in r["violations"]], tasks[:2], rr[:2]))
        if time.time() - t0 > overall and pending:
            for j in pending:
                results[j.name] = dict(job=j.name, ok=False, error="not started: overall time limit")
            pending = []

    # witnesses of every asserted label on the real code
    wt = []
    if viol is None:
        for nm, r in results.items():
            for w in r.get("witnesses") or []:
                wt.append(dict(job=nm, inputs=w["inputs"], labels=w["labels"]))
    chunks = [wt[i::4] for i in range(4)] if len(wt) > 8 else [wt]
    wres = []
    if wt:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(replay, module, tier, c, scratch, "w%d" % i, 300) for i, c in enumerate(chunks) if c]
            cs = [c for c in chunks if c]
            for c, f in zip(cs, fs):
                wres += list(zip(c, f.result()))
    validated = [w for w, q in wres if q["n"] and not q["fails"] and not q.get("assumed_out")]
    mism = [(w["job"], q["fails"][:2], q.get("error"), q.get("assumed_out"), w["inputs"]) for w, q in wres
            if q["fails"] or not q["n"] or q.get("error")]

    problems = []
    tot = dict(paths=0, infeasible=0, branches=0, feas_queries=0, queries=0, unsat=0, sat=0, unknown=0, trivially=0,
               solver_s=0.0, max_depth=0)
    funcs = set()
    labels = {}
    strat = {}
    for nm, r in results.items():
        funcs.update(r.get("functions") or [])
        if not r.get("ok"):
            problems.append("%s: %s" % (nm, r.get("error", "?")[:600]))
            continue
        for k in tot:
            tot[k] = max(tot[k], r["stats"].get(k, 0)) if k == "max_depth" else tot[k] + r["stats"].get(k, 0)
        for k, v in r["strat"].items():
            strat[k] = strat.get(k, 0) + v
        for l, d in r["labels"].items():
            q = labels.setdefault(l, dict(n=0, unsat=0, trivial=0, witnessed=0))
            for k in q:
                q[k] += d.get(k, 0)
        if r["inconclusive"]:
            problems.append("%s inconclusive: %s" % (nm, "; ".join(r["inconclusive"][:3])))
        for c, okc in (r.get("covers") or {}).items():
            if not okc:
                problems.append("%s: cover goal not reached: %s" % (nm, c))
        if not r["labels"] and not r["violations"]:
            problems.append("%s: no assertion reached (vacuous)" % nm)
        elif not r["violations"] and r["complete"] and not any(d["witnessed"] for d in r["labels"].values()):
            problems.append("%s: no reachable assertion (vacuous)" % nm)
    for u in unrepro:
        problems.append("counterexample not reproduced on the real code: %s %s" % (u[0], u[1]))
    if only is None and viol is None:
        want = getattr(mod, "EXPECT_LABELS", ())
        for l in want:
            if l not in labels:
                problems.append("expected assertion never reached: " + l)
    if wt and not validated and viol is None:
        problems.append("no witness validated on the real code")

    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    if viol:
        rd = os.path.join(evd, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(module=module, property=prop, tier=tier, **viol), f, indent=1, default=str)
    from vlib.harness import known_findings
    kf = known_findings()
    found = sorted({k[6:] for r in results.values() for k in (r.get("notes") or {}) if k.startswith("known:")})
    for k in found:
        if k in kf:
            print("KNOWN-FINDING: property=%s %s" % (kf[k][0], kf[k][1]))
    samples = [dict(job=w["job"], inputs=w["inputs"], assertions=w["labels"][:12]) for w, q in wres[:6]]
    cov = dict(
        explanation=mod.__doc__ or "",
        states=tot["paths"] + tot["infeasible"],
        transitions=tot["branches"],
        traces_validated_against_impl=len(validated),
        samples=samples or [dict(job=n) for n in results],
        jobs={n: dict(wall=round(r.get("wall", 0), 2), paths=(r.get("stats") or {}).get("paths"),
                      queries=(r.get("stats") or {}).get("queries"), error=r.get("error"),
                      notes=[k for k in (r.get("notes") or {})][:4]) for n, r in results.items()},
        paths=tot["paths"], infeasible_paths=tot["infeasible"], branch_queries=tot["feas_queries"],
        assertion_queries=tot["queries"], discharged_unsat=tot["unsat"], folded_true=tot["trivially"],
        sat=tot["sat"], unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2), max_branch_depth=tot["max_depth"],
        deciding_strategies=strat, assertions=labels, functions_encoded=sorted(funcs) + list(getattr(mod, "KERNEL_FUNCS", ())),
        bounds=getattr(mod, "BOUNDS", {}), witness_mismatches=[str(m)[:400] for m in mism[:8]], witnesses=len(wt),
        problems=problems,
    )
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
              level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", ())), wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0)
    with open(os.path.join(evd, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s tier=%s jobs=%d paths=%d assertion_queries=%d unsat=%d folded=%d branch_queries=%d solver_s=%.1f "
          "witnesses validated %d/%d wall=%.1fs" % (prop, tier, len(jobs), tot["paths"], tot["queries"], tot["unsat"],
                                                  tot["trivially"], tot["feas_queries"], tot["solver_s"],
                                                  len(validated), len(wt), time.time() - t0))
    for m in mism[:4]:
        print("  witness mismatch:", str(m)[:600])
    for p in problems:
        print("  problem:", p[:900])
        if os.environ.get("PV_VERBOSE"):
            nm = p.split(":")[0].split(" ")[0]
            if nm in results and results[nm].get("tb"):
                print(results[nm]["tb"])
    if os.environ.get("PV_VERBOSE"):
        for u in unrepro:
            print("UNREPRO", u)
        for n, r in sorted(results.items(), key=lambda x: -x[1].get("wall", 0)):
            print("   job %-40s %6.1fs paths=%s q=%s %s" % (n, r.get("wall", 0), (r.get("stats") or {}).get("paths"),
                                                    (r.get("stats") or {}).get("queries"), r.get("strat")))
            for k in (r.get("notes") or {}):
                print("       note:", k[-1600:])
    for k in known_lines(prop):
        print(k)
    if viol:
        print("violated: %s in %s: %s" % (viol["label"], viol["job"], str(viol["detail"])[:600]))
        print("inputs:", json.dumps(viol["inputs"], default=str)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        return 2
    return 0


def known_lines(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                out.append(l)
    return out


if __name__ == "__main__":
    main()
