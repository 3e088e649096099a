"""Builds TreeCorr from /repo's current working tree into /verif/.build/<hash>/ (never inside /repo).

The extension is compiled with the same command lines as the repository's own build (so that an unchanged source file is
a compiler-cache hit), plus an optional sanitizer variant.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))


def _files():
    pats = ["treecorr/*.py", "src/*.cpp", "include/*.h", "scripts/*"]
    out = []
    for p in pats:
        out += glob.glob(os.path.join(REPO, p))
    return sorted(out)


def tree_hash(variant):
    h = hashlib.sha256(variant.encode())
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fd:
            h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build(variant="opt", verbose=False):
    """Returns the directory to put on sys.path."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(variant)
    dest = os.path.join(BUILD, variant + "-" + key)
    with open(os.path.join(BUILD, "lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "OK")):
            os.utime(os.path.join(dest, "OK"))
            return dest
        # keep at most a few old builds
        old = sorted(glob.glob(os.path.join(BUILD, variant + "-*")), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        pkg = os.path.join(dest, "treecorr")
        os.makedirs(pkg)
        for f in glob.glob(os.path.join(REPO, "treecorr/*.py")):
            shutil.copy(f, pkg)
        os.makedirs(os.path.join(dest, "scripts"))
        for f in glob.glob(os.path.join(REPO, "scripts/*")):
            if os.path.isfile(f):
                shutil.copy(f, os.path.join(dest, "scripts"))
        inc = os.path.join(pkg, "include")
        os.makedirs(inc)
        for f in glob.glob(os.path.join(REPO, "include/*.h")):
            shutil.copy(f, inc)
        _compile(variant, dest, pkg, verbose)
        with open(os.path.join(dest, "OK"), "w") as f:
            f.write(key)
    return dest


def _compile(variant, dest, pkg, verbose):
    obj = os.path.join(dest, "obj")
    os.makedirs(obj)
    py = "/opt/venv/bin/python"
    pyinc = sysconfig.get_paths()["include"]
    import pybind11
    pbinc = os.path.join(os.path.dirname(pybind11.__file__), "include")
    incs = ["-I/opt/venv/include", "-I" + pyinc, "-Iinclude", "-I" + pbinc]
    base = "-fno-strict-overflow -Wsign-compare -DNDEBUG -g -O2 -Wall -fPIC".split()
    env = dict(os.environ)
    if variant == "opt":
        post = "-fopenmp -O3 -ffast-math -std=c++11".split()
        link = []
    elif variant == "asan":
        base = "-fno-strict-overflow -DNDEBUG -g1 -fPIC -w".split()
        post = ("-fopenmp -O1 -ffast-math -std=c++11 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
                "-fsanitize=address,bounds,null,vptr,object-size,shift,integer-divide-by-zero,return "
                "-fno-sanitize-recover=undefined").split()
        post = [p for p in post if "vptr" not in p] + ["-fsanitize=address,bounds,null,shift,integer-divide-by-zero,return"]
        link = ["-fsanitize=address,undefined"]
    else:
        raise ValueError(variant)
    use_ccache = shutil.which("ccache") and os.path.isdir("/opt/ccache")
    if use_ccache:
        env["CCACHE_DIR"] = "/opt/ccache"
        env["CCACHE_MAXSIZE"] = "2G"
    cxx = (["ccache"] if use_ccache else []) + ["g++"]
    srcs = sorted(glob.glob(os.path.join(REPO, "src/*.cpp")))

    def run(cmd):
        r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode and cmd[0] == "ccache":
            r = subprocess.run(cmd[1:], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

    def one(s):
        rel = os.path.relpath(s, REPO)
        o = os.path.join(obj, os.path.basename(s)[:-4] + ".o")
        run(cxx + base + incs + ["-c", rel, "-o", o] + post)
        return o
    order = sorted(srcs, key=lambda s: -os.path.getsize(s))
    with ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as pool:
        objs = list(pool.map(one, order))
    so = os.path.join(pkg, "_treecorr" + sysconfig.get_config_var("EXT_SUFFIX"))
    r = subprocess.run(["g++", "-shared"] + objs + ["-o", so, "-fopenmp"] + link, env=env, cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("link failed: " + r.stdout[-4000:])
    shutil.rmtree(obj)


if __name__ == "__main__":
    for v in (sys.argv[1:] or ["opt"]):
        print(build(v))
