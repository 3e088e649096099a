"""python run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE] [--sub NAME] [--scale F]"""
import argparse, collections, importlib, json, os, shutil, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ["OMP_WAIT_POLICY"] = "passive"
if len(sys.argv) > 1 and sys.argv[1] in ("C06", "C29"):
    os.environ.pop("OMP_THREAD_LIMIT", None)
else:
    os.environ["OMP_THREAD_LIMIT"] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--nproc", type=int, default=int(os.environ.get("VERIF_NPROC", "0")) or os.cpu_count() or 4)
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    t_start = time.time()

    import build
    variant = "asan" if args.pid in ("C29",) else "opt"
    path = build.build(variant)
    if variant == "asan" and os.environ.get("VERIF_ASAN_CHILD") != "1":
        import subprocess
        env = dict(os.environ)
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        stdcpp = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
        env["LD_PRELOAD"] = lib + " " + stdcpp
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        env["VERIF_ASAN_CHILD"] = "1"
        env["VERIF_T0"] = str(t_start)
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
    if "VERIF_T0" in os.environ:
        t_start = float(os.environ["VERIF_T0"])
    os.environ.pop("LD_PRELOAD", None)
    sys.path.insert(0, path)
    os.environ["PYTHONPATH"] = path
    os.environ["TREECORR_BUILD"] = path
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import treecorr
    assert treecorr.__file__.startswith(path), treecorr.__file__
    import hypothesis, core  # noqa
    mod = importlib.import_module("props." + args.pid.lower())
    subs = {s.name: s for s in mod.SUBS}

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        ok, msg = core.run_one_forked(subs[rep["sub"]], rep["case"], 600)
        print(msg)
        print("REPLAY", "passes" if ok else "FAILS")
        if not ok:
            print("VIOLATION property=%s replay=%s" % (args.pid, args.replay))
        return 0 if ok else 1

    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"] if k["property"] == args.pid]

    budget = float(os.environ.get("VERIF_BUDGET", 420 if args.tier == "quick" else 3000))
    soft = time.time() + budget
    hard = soft + 150
    work = tempfile.mkdtemp(prefix="vrun-" + args.pid)
    os.environ["VERIF_TMP"] = work
    # The search itself.
    tasks = []
    plan = {}
    for s in mod.SUBS:
        if args.sub and s.name not in args.sub:
            continue
        n = s.quick if args.tier == "quick" else s.thorough
        n = max(1, int(n * args.scale))
        shard = s.shard or max(1, (n + args.nproc - 1) // args.nproc)
        if args.tier == "thorough":
            shard = max(shard, n // 64)
        i = 0
        while n > 0:
            m = min(shard, n)
            name = "%s-%d" % (s.name, i)
            sd = (args.seed * 1000003 + sum(ord(c) * (j + 1) for j, c in enumerate(args.pid + s.name)) * 101 + i) % (2**31)
            plan[name] = (s, m, sd)
            tasks.append((i, name))
            n -= m
            i += 1
    tasks.sort()
    tl = []
    for i, name in tasks:
        s, m, sd = plan[name]
        tl.append((name, lambda s=s, m=m, sd=sd, name=name: core.run_task(args.pid, s, sd, m, work, name, soft)))

    tot = collections.Counter()
    tags = collections.Counter()
    per_sub = {s.name: collections.Counter() for s in mod.SUBS}
    hashes = set()
    samples = []
    failures = []
    errors = []
    fail_time = [None]

    def on_done(name, status, killed):
        s, m, sd = plan[name]
        rf = os.path.join(work, name + ".json")
        if os.path.exists(rf):
            with open(rf) as f:
                res = json.load(f)
            st = res["stats"]
            for k in ("evaluations", "nontrivial", "skipped", "timeout"):
                tot[k] += st[k]
                per_sub[s.name][k] += st[k]
            tags.update({s.name + "/" + k: v for k, v in st["tags"].items()})
            hashes.update(s.name + h for h in st["hashes"])
            if sum(1 for x in samples if x["sub"] == s.name) < 2 and st["samples"]:
                samples.append(dict(sub=s.name, case=st["samples"][0]))
            if res["error"]:
                errors.append((name, res["error"]))
            if res["fail"]:
                failures.append((s, res["fail"]["case"], res["fail"]["exc"]))
                fail_time[0] = fail_time[0] or time.time()
            return
        # crashed, was killed or ended with an error
        try:
            with open(os.path.join(work, name + ".case")) as f:
                case = json.loads(f.read())
        except Exception:
            case = None
        logf = os.path.join(work, name + ".log")
        log = open(logf, errors="replace").read()[-6000:] if os.path.exists(logf) else ""
        if case is None or (status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3):
            if killed and fail_time[0]:
                return
            errors.append((name, "task ended abnormally status=%s killed=%s\n%s" % (status, killed, log)))
            return
        if killed and fail_time[0]:
            return
        failures.append((s, case, ("HANG " if killed else "CRASH status=%s " % status) + log))
        fail_time[0] = fail_time[0] or time.time()

    def should_stop():
        if fail_time[0] and not args.keep_going:
            if time.time() - fail_time[0] > 75:
                return "kill"
            return True
        return False

    pool = core.Pool(args.nproc, work)
    pool.run(tl, hard, on_done, should_stop)

    # Known findings: re-run the recorded inputs.
    for k in known:
        if k.get("status", "known") != "known":
            continue
        ok, msg = core.run_one_forked(subs[k["sub"]], k["case"], 300)
        if not ok:
            print("KNOWN-FINDING: property=%s %s" % (args.pid, k["what"]))

    rc = 0
    nviol = 0
    seen = set()
    if failures:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        failures.sort(key=lambda f: len(core.canon(f[1])))
        for s, case, exc in failures:
            hang = exc.startswith("HANG") or exc.startswith("CRASH")
            if len(seen) < 3:
                ok, msg = core.run_one_forked(s, case, s.timeout)
            else:
                ok, msg = False, ""
            if hang and ok:
                errors.append((s.name, "crash/hang did not reproduce: " + exc[-1500:]))
                if exc.startswith("HANG"):
                    continue        # a slow machine is inconclusive
            if not ok and exc.startswith("CRASH"):
                exc = exc + "\n" + msg
            nviol += 1
            if s.name in seen:
                continue
            seen.add(s.name)
            path = os.path.join(rd, "%s-%s-%s.json" % (args.pid, s.name, core.hashlib.md5(core.canon(case).encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump(dict(property=args.pid, sub=s.name, case=case, exc=exc, reproduced=not ok), f, indent=1)
            print("--- %s/%s case: %s" % (args.pid, s.name, core.canon(case)[:1500]))
            print(exc[-2500:])
            print("VIOLATION property=%s replay=%s" % (args.pid, os.path.relpath(path, VERIF)))
            rc = 1
    ev = dict(property=args.pid, tier=args.tier, seed=args.seed, level="exploration",
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=len(hashes),
                            rule=getattr(mod, "RULE", ""), samples=samples,
                            skipped_out_of_domain=tot["skipped"], not_run_time_budget=tot["timeout"],
                            per_sub={k: dict(v) for k, v in per_sub.items()},
                            classes=dict(sorted(tags.items()))),
              assumptions=getattr(mod, "ASSUMPTIONS", []),
              violations=nviol, wall_s=round(time.time() - t_start, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", args.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d cases, %d distinct non-trivial, %d skipped, %d over budget, %.1fs" % (
        args.pid, args.tier, tot["evaluations"], len(hashes), tot["skipped"], tot["timeout"], ev["wall_s"]))
    for k, v in per_sub.items():
        if v: print("   %-24s %s" % (k, dict(v)))
    if errors and rc == 0:
        for n, e in errors[:3]:
            print("ERROR", n, e)
        return 2
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
