"""Runner: generated-case search with Hypothesis, shrinking, replay files, evidence.

A property module (pbt/props/cNN.py) defines SUBS, a list of Sub.  Each Sub has a Hypothesis strategy producing a JSON
value (the case) and a function check(case, ctx) that raises on a violation.  check uses ctx.tag(...) to classify and
ctx.trivial(...) to declare a case not counting as non-trivial.
"""
import collections, hashlib, json, os, random, re, shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(AssertionError):
    pass


class Skip(Exception):
    """The case is outside the domain of the oracle (e.g. a separation within rounding of a bin edge)."""


def fail(msg):
    raise Violation(msg)


class Sub:
    def __init__(self, name, strategy, check, quick=200, thorough=None, shard=None, timeout=120, rule=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shard = shard              # examples per forked task
        self.timeout = timeout          # secs a replay of one case may take before it is called a hang
        self.rule = rule


class Ctx:
    def __init__(self):
        self.tags = []
        self.nontrivial = True
        self.tmpdir = None

    def tag(self, *t):
        self.tags.extend(str(x) for x in t)

    def trivial(self, why="trivial"):
        self.nontrivial = False
        self.tags.append("trivial:" + why)

    def tmp(self):
        if self.tmpdir is None:
            self.tmpdir = tempfile.mkdtemp(prefix="vpbt", dir=os.environ.get("VERIF_TMP"))
        return self.tmpdir

    def close(self):
        if self.tmpdir is not None:
            shutil.rmtree(self.tmpdir, ignore_errors=True)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def exec_case(sub, case):
    ctx = Ctx()
    try:
        sub.check(case, ctx)
    except Skip as e:
        ctx.nontrivial = False
        ctx.tags.append("skip:" + str(e))
    finally:
        ctx.close()
    return ctx


def run_task(pid, sub, seed, n, outdir, name, deadline, shrink_secs=40):
    """Run in a forked child.  Writes outdir/name.json; the current case is kept in outdir/name.case."""
    import warnings
    warnings.simplefilter("ignore")
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    stats = dict(evaluations=0, nontrivial=0, skipped=0, timeout=0, tags=collections.Counter(), hashes=[], samples=[])
    st = dict(first_fail=None, failing={}, last_fail=None, last_exc=None, current=None)
    casefile = os.path.join(outdir, name + ".case")
    fd = os.open(casefile, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    # deterministic state for anything using global RNGs
    import numpy as np

    def body(case):
        now = time.time()
        key = canon(case)
        if st["first_fail"] is not None:
            if now - st["first_fail"] > shrink_secs and key not in st["failing"]:
                return
        elif now > deadline:
            stats["timeout"] += 1
            return
        b = key.encode()
        os.pwrite(fd, b, 0)
        os.ftruncate(fd, len(b))
        np.random.seed(12345)
        random.seed(12345)
        try:
            ctx = exec_case(sub, case)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt,)):
                raise
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            st["failing"][key] = 1
            st["last_fail"] = case
            st["last_exc"] = "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-3000:]))
            raise Violation("failed") from None
        stats["evaluations"] += 1
        stats["tags"].update(set(ctx.tags))
        if any(t.startswith("skip:") for t in ctx.tags):
            stats["skipped"] += 1
        if ctx.nontrivial:
            stats["nontrivial"] += 1
            stats["hashes"].append(hashlib.md5(b).hexdigest()[:12])
            if len(stats["samples"]) < 1 or (len(key) < 600 and len(stats["samples"]) < 2):
                stats["samples"].append(case)

    t = given(sub.strategy)(body)
    t = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                 suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                 verbosity=Verbosity.quiet, print_blob=False)(t)
    t = hypothesis.seed(seed)(t)
    err = None
    try:
        t()
    except BaseException as e:
        if st["last_fail"] is None:
            err = "harness error: " + "".join(traceback.format_exc()[-4000:])
    res = dict(stats=dict(stats, tags=dict(stats["tags"])), error=err,
               fail=None if st["last_fail"] is None else dict(case=st["last_fail"], exc=st["last_exc"]))
    tmp = os.path.join(outdir, name + ".tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(outdir, name + ".json"))


class Pool:
    """Forks one child per task, at most nproc at a time; survives crashes and hangs of the code under test."""

    def __init__(self, nproc, outdir):
        self.nproc, self.outdir, self.running = nproc, outdir, {}

    def run(self, tasks, hard_deadline, on_done, should_stop):
        """tasks: list of (name, fn).  on_done(name, status, timed_out)."""
        tasks = list(tasks)
        while tasks or self.running:
            while tasks and len(self.running) < self.nproc and not should_stop():
                name, fn = tasks.pop(0)
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        os.setpgid(0, 0)
                        log = os.open(os.path.join(self.outdir, name + ".log"),
                                      os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                        os.dup2(log, 1); os.dup2(log, 2)
                        fn()
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush(); sys.stderr.flush()
                        os._exit(code)
                self.running[pid] = (name, time.time())
            if should_stop() and tasks:
                tasks = []
            done = False
            for pid in list(self.running):
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    name, t0 = self.running.pop(pid)
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError: pass
                    on_done(name, status, False)
                    done = True
            if time.time() > hard_deadline or should_stop() == "kill":
                for pid in list(self.running):
                    name, t0 = self.running.pop(pid)
                    try: os.killpg(pid, signal.SIGKILL)
                    except OSError: pass
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                    os.waitpid(pid, 0)
                    on_done(name, None, True)
                tasks = []
            if not done:
                time.sleep(0.01)


def run_one_forked(sub, case, timeout):
    """Execute one case in a fresh child.  Returns (ok, message)."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            os.setpgid(0, 0)
            import warnings
            warnings.simplefilter("ignore")
            import numpy as np
            np.random.seed(12345)
            random.seed(12345)
            try:
                ctx = exec_case(sub, case)
                msg = "ok " + " ".join(ctx.tags)
            except BaseException as e:
                code = 1
                msg = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
            os.write(w, msg.encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    buf = b""
    os.set_blocking(r, False)
    status = None
    while True:
        try:
            d = os.read(r, 65536)
            buf += d
        except BlockingIOError:
            pass
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            try:
                while True:
                    d = os.read(r, 65536)
                    if not d: break
                    buf += d
            except BlockingIOError:
                pass
            break
        if time.time() - t0 > timeout:
            try: os.killpg(pid, signal.SIGKILL)
            except OSError: pass
            try: os.kill(pid, signal.SIGKILL)
            except OSError: pass
            os.waitpid(pid, 0)
            os.close(r)
            return False, "HANG: no result after %d s" % timeout
        time.sleep(0.005)
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    msg = buf.decode(errors="replace")
    if os.WIFSIGNALED(status):
        return False, "CRASH: signal %d %s" % (os.WTERMSIG(status), msg)
    if os.WEXITSTATUS(status) not in (0,):
        return False, msg or "CRASH: exit status %d" % os.WEXITSTATUS(status)
    return True, msg
