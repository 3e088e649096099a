"""C29: whatever is accepted is processed without memory errors, crashes or hangs (AddressSanitizer / UBSan build)."""
import contextlib
import copy
import gc
import os
import pickle
import tempfile
import numpy as np
from hypothesis import strategies as st
from core import Sub, Skip, fail

RULE = ("The native code is compiled with AddressSanitizer, bounds/null/shift/division UBSan checks and checked standard containers.  ops: histories of up to 7 operations (2-point and 3-point correlations of every kind, "
        "binning and metric, with extreme bins; k-means; neighbour queries; pair sampling; patches, copies, pickles, dropping catalogs and fields in any order) on degenerate catalogs (coincident, collinear, "
        "grids whose separations fall exactly on bin edges, exponentially spaced, poles, antipodes, single objects, scales 1e-25..1e25, extreme and zero weights) with 1..8 threads; arrays: constructor and query arguments of "
        "drawn type, shape, layout, byte order and length.  Each call must return finite arrays of the right shape or raise an explained Python error.  Non-trivial: at least one native call completed.")
ASSUMPTIONS = ["positions up to 1e25 and weights within 1e-8..1e8 (squares overflow single precision sizes beyond)", "query separations are not within rounding of the distance to an object", "negative weights and NaN results of divisions by zero total weight are only checked for memory errors"]

OK_ERRORS = (ValueError, ArithmeticError, TypeError, RuntimeError, NotImplementedError, OverflowError, IndexError, AttributeError, KeyError)
TYPES2 = [a + b for i, a in enumerate("nkzvgtq") for j, b in enumerate("nkzvgtq") if (a == b) or a == "n" or (a == "k" and b != "n")]
FC = {"k": ["k"], "z": ["z1", "z2"], "v": ["v1", "v2"], "g": ["g1", "g2"], "t": ["t1", "t2"], "q": ["q1", "q2"]}

cat_s = st.fixed_dictionaries(dict(n=st.sampled_from([1, 1, 2, 3, 5, 12, 40, 150]), seed=st.integers(0, 9999), lay=st.sampled_from(["uniform", "point", "two", "line", "grid", "grid", "cgrid", "cgrid", "exp", "poles", "anti", "same-x", "circle"]),
                                   w=st.sampled_from(["none", "none", "ones", "zeros", "wide", "tiny", "neg", "onezero"]), np=st.sampled_from([0, 0, 0, 2, 3, 7]), keep=st.booleans()))
op2 = st.fixed_dictionaries(dict(op=st.just("2pt"), t=st.sampled_from(TYPES2), bt=st.sampled_from(["Log", "Log", "Linear", "TwoD"]), nb=st.sampled_from([1, 2, 3, 7, 50, 400]), mn=st.sampled_from([0., 1e-8, 0.01, 0.25, 1., 1.]), ratio=st.sampled_from([1 + 1e-9, 1.0001, 2., 4., 10., 1e6, 1e25]),
                                 slop=st.sampled_from([None, 0, 0.3, 1, 20]), aslop=st.sampled_from([None, 0, 5]), brute=st.sampled_from([None, None, True, 1, 2]), metric=st.sampled_from([None, None, None, "Arc", "Rperp", "OldRperp", "FisherRperp", "Rlens", "Periodic"]), rpar=st.sampled_from([None, None, None, (-1., 1.), (0., 0.5), (0.5, 0.5)]).map(lambda v: None if v is None else list(v)),
                                 top=st.sampled_from([None, 0, 1, 3, 12]), mint=st.sampled_from([None, 0, 2]), th=st.sampled_from([1, 1, 2, 8]), auto=st.booleans(), split=st.sampled_from(["mean", "median", "middle", "random"]), sample=st.sampled_from([None, None, 0, 1, 5, 1000]), var=st.sampled_from(["shot", "shot", "jackknife", "bootstrap", "sample"]), per=st.sampled_from([1., 2., 7.])))
op3 = st.fixed_dictionaries(dict(op=st.just("3pt"), t=st.sampled_from(["NNN", "KKK", "GGG"]), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), nb=st.sampled_from([1, 2, 5, 20]), mn=st.sampled_from([1e-8, 0.01, 0.25, 1., 1.]), ratio=st.sampled_from([1 + 1e-9, 1.5, 4., 10., 1e6]),
                                 nu=st.sampled_from([1, 2, 5]), nv=st.sampled_from([1, 2, 7]), mnu=st.sampled_from([0., 0., 0.5, 1.]), mxu=st.sampled_from([1., 1., 0.5]), mnv=st.sampled_from([0., 0., 0.2]), mxv=st.sampled_from([1., 1., 0.2, 0.9]), maxn=st.sampled_from([0, 1, 5, 40]), slop=st.sampled_from([None, 0, 1, 20]), aslop=st.sampled_from([None, 0, 5]),
                                 brute=st.booleans(), metric=st.sampled_from([None, None, "Arc", "Periodic"]), top=st.sampled_from([None, 0, 2]), th=st.sampled_from([1, 2, 8]), cats=st.integers(1, 3), ordered=st.booleans(), algo=st.sampled_from([None, None, "triangle", "multipole"]), sas=st.booleans(), per=st.sampled_from([1., 2., 7.])))
opk = st.fixed_dictionaries(dict(op=st.just("kmeans"), np=st.sampled_from([1, 2, 3, 5, 12, 200]), init=st.sampled_from(["tree", "random", "kmeans++"]), alt=st.booleans(), iters=st.sampled_from([0, 1, 200]), tol=st.sampled_from([0., 1e-5, 1.]), top=st.sampled_from([0, 1, 3, 10]), mn=st.sampled_from([0., 0.3, 100.]), which=st.booleans(), cen=st.sampled_from(["init", "coincident", "far", "data"])))
opn = st.fixed_dictionaries(dict(op=st.just("near"), at=st.sampled_from(["object", "far", "origin", "zero"]), sep=st.sampled_from([0., 1e-12, 0.51855, 1.0371, 10.371, 1e20]), top=st.sampled_from([0, 3]), mn=st.sampled_from([0., 0.5]), f=st.sampled_from("NKG")))
opx = st.fixed_dictionaries(dict(op=st.sampled_from(["drop", "copy", "pickle", "patches", "again", "gc", "nofields", "combine"]), pick=st.integers(0, 99)))
ops = st.fixed_dictionaries(dict(coords=st.sampled_from(["flat", "flat", "3d", "3d", "sphere", "rdr"]), scale=st.sampled_from([0, 0, 0, -25, -6, 6, 25]), c1=cat_s, c2=cat_s, ops=st.lists(st.one_of(op2, op2, op3, opk, opn, opx), min_size=1, max_size=7)))


def points(c, d):
    n, r = c["n"], np.random.RandomState(c["seed"])
    U = r.random_sample((n, d))
    i = np.arange(n)
    l = c["lay"]
    if l == "point": return np.full((n, d), 0.25)
    if l == "two": return np.where((i % 2)[:, None], 0.25, 1.25) * np.ones(d)
    if l == "line": return np.outer(i, [1.] + [0.] * (d - 1))
    if l == "grid": return np.floor(U * 5)
    if l == "cgrid": return np.floor(U * 5) - 2
    if l == "exp": return np.outer(2. ** -(i % 50), np.ones(d))
    if l == "poles": return np.where((i % 2)[:, None], 1., -1.) * np.array([0.] * (d - 1) + [1.]) + (U - 0.5) * 1e-9 * (i % 3 == 2)[:, None]
    if l == "anti": return (U[:1] + 0.1) * np.where(i % 2, 1., -1.)[:, None]
    if l == "same-x": U[:, 0] = 0.5
    if l == "circle": return np.column_stack([np.cos(2 * np.pi * i / n), np.sin(2 * np.pi * i / n)] + [np.zeros(n)] * (d - 2))
    return U * 3


def columns(c, coords, scale):
    r = np.random.RandomState(c["seed"] + 1)
    n = c["n"]
    d = {}
    s = 10. ** scale
    if coords == "flat": P = points(c, 2); d["x"], d["y"] = P[:, 0] * s, P[:, 1] * s
    elif coords == "3d": P = points(c, 3); d["x"], d["y"], d["z"] = P[:, 0] * s, P[:, 1] * s, P[:, 2] * s
    else:
        P = points(c, 2)
        if c["lay"] in ("poles", "anti"):
            d["ra"] = np.where(np.arange(n) % 2, 0., np.pi) + (P[:, 0] - P[:, 0].min()) * 0.
            d["dec"] = np.where(np.arange(n) % 2, 1., -1.) * (np.pi / 2 if c["lay"] == "poles" else 0.3)
        else: d["ra"], d["dec"] = P[:, 0], np.clip(P[:, 1], -np.pi / 2, np.pi / 2)
        if coords == "rdr": d["r"] = (0.5 + np.floor(r.random_sample(n) * 4)) * s
    w = c["w"]
    if w == "ones": d["w"] = np.ones(n)
    if w == "zeros": d["w"] = (r.random_sample(n) < 0.3) * 1.; d["w"][0] = 1.
    if w == "onezero": d["w"] = np.ones(n); d["w"][-1] = 0.
    if w == "wide": d["w"] = 10. ** r.uniform(-8, 8, n)
    if w == "tiny": d["w"] = np.full(n, 1e-8)
    if w == "neg": d["w"] = r.normal(size=n)
    for f in FC:
        for q in FC[f]: d[q] = r.normal(size=n) * (r.random_sample() < 0.9)
    if c["np"]: d["patch"] = r.randint(0, c["np"], n)
    return d


def make(c, coords, scale):
    import treecorr
    d = columns(c, coords, scale)
    if c["w"] == "zeros" and c["np"] or (c["w"] == "onezero" and c["np"]): del d["patch"]
    kw = dict(ra_units="rad", dec_units="rad") if "ra" in d else {}
    if c["w"] == "onezero" and c["n"] == 1: d["w"][:] = 1
    return treecorr.Catalog(verbose=0, keep_zero_weight=c["keep"], **kw, **d)


class Watch:
    """Captures the native standard error (failed assertions are only printed)."""
    def __enter__(self):
        if os.environ.get("C29RAW"): return self
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(2)
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, et, ev, tb):
        if os.environ.get("C29RAW"): return
        os.dup2(self.old, 2)
        os.close(self.old)
        self.f.seek(0)
        t = self.f.read().decode("utf8", "replace")
        self.f.close()
        if t:
            os.write(2, t.encode())
        if "Failed Assert" in t: fail("an internal check of the native code failed: %s" % t[:300])
        if "runtime error" in t: fail("undefined behaviour: %s" % t[:300])


def finite(name, a, shape=None):
    a = np.asarray(a)
    if shape is not None and a.shape != shape: fail("%s has shape %s, expected %s" % (name, a.shape, shape))
    if a.dtype.kind in "fc" and not np.isfinite(a).all(): fail("%s is not finite: %s" % (name, a.ravel()[:8]))


def attempt(ctx, what, f):
    """f() or an explained Python error."""
    try:
        r = f()
    except OK_ERRORS as e:
        if not str(e).strip(): fail("%s raises %r without an explanation" % (what, e))
        if isinstance(e, (AttributeError, KeyError, IndexError)): ctx.tag("odd:%s %s" % (type(e).__name__, str(e)[:50]))
        ctx.tag("refused:" + type(e).__name__)
        return None
    ctx.done += 1
    return r


def two(op, cats, scale, ctx, neg, coords):
    import treecorr
    s = 10. ** scale if coords != "sphere" else 1.
    t = op["t"]
    kw = dict(bin_type=op["bt"], verbose=0)
    mn = op["mn"] * s
    nb = op["nb"]
    if op["bt"] == "TwoD": kw.update(nbins=min(nb, 50), max_sep=max(mn, 1e-8 * s) * min(op["ratio"], 1e6))
    elif op["bt"] == "Linear": kw.update(nbins=nb, min_sep=mn, max_sep=max(mn, 1e-8 * s) * min(op["ratio"], 1e6))
    else: kw.update(nbins=nb, min_sep=max(mn, 1e-8 * s), max_sep=max(mn, 1e-8 * s) * op["ratio"])
    for k, q in (("bin_slop", "slop"), ("angle_slop", "aslop"), ("brute", "brute"), ("metric", "metric"), ("max_top", "top"), ("min_top", "mint")):
        if op[q] is not None: kw[k] = op[q]
    if op["metric"] == "Periodic": kw["period"] = op["per"] * s
    if op["rpar"]: kw.update(min_rpar=op["rpar"][0] * s, max_rpar=op["rpar"][1] * s)
    kw.update(num_threads=op["th"], split_method=op["split"], var_method=op["var"], num_bootstrap=5)
    c = attempt(ctx, "2pt", lambda: getattr(treecorr, t.upper() + "Correlation")(**kw))
    if c is None: return None
    shape = c.rnom.shape
    finite("rnom", c.rnom)
    a, b = (cats[0], None) if op["auto"] and t[0] == t[1] else (cats[0], cats[-1])
    def go():
        c.process(a, b)
        return c
    if attempt(ctx, "process", go) is None: return None
    names = ["meanr", "meanlogr", "weight", "npairs"] + (["xi"] if t in ("kk", "nk", "nz", "kz", "nv", "kv", "ng", "kg", "nt", "kt", "nq", "kq") else []) + (["xip", "xim"] if t[0] == t[1] and t[0] in "zvgtq" else [])
    for q in names:
        v = getattr(c, q)
        if neg: finite(q, 0, None) if v.shape == shape else fail("%s has shape %s" % (q, v.shape))
        elif q == "meanlogr" and op["bt"] != "Log": finite(q, np.where(np.isneginf(v), 0, v), shape)   # a pair at zero separation
        else: finite("%s of %s" % (q, t), v, shape)
    if not neg and (c.npairs < 0).any(): fail("negative npairs")
    if op["sample"] is not None and b is not None:
        def sam():
            i1, i2, sep = c.sample_pairs(op["sample"], a, b, min_sep=kw.get("min_sep", 0.), max_sep=kw["max_sep"])
            if len(i1) and (i1.min() < 0 or i1.max() >= a.ntot or i2.min() < 0 or i2.max() >= b.ntot): fail("sample_pairs gives index outside the catalogs")
        attempt(ctx, "sample_pairs", sam)
    return c


def three(op, cats, scale, ctx, neg, coords):
    import treecorr
    s = 10. ** scale if coords != "sphere" else 1.
    kw = dict(bin_type=op["bt"], verbose=0, nbins=op["nb"], min_sep=op["mn"] * s, max_sep=op["mn"] * s * op["ratio"], brute=op["brute"], num_threads=op["th"])
    if op["bt"] == "LogRUV": kw.update(nubins=op["nu"], nvbins=op["nv"], min_u=op["mnu"], max_u=op["mxu"], min_v=op["mnv"], max_v=op["mxv"])
    elif op["bt"] == "LogSAS": kw.update(nphi_bins=op["nv"])
    else: kw.update(max_n=min(op["maxn"], 40) if op["nb"] < 20 else min(op["maxn"], 5))
    for k, q in (("bin_slop", "slop"), ("angle_slop", "aslop"), ("metric", "metric"), ("max_top", "top")):
        if op[q] is not None: kw[k] = op[q]
    if op["metric"] == "Periodic": kw["period"] = op["per"] * s
    c = attempt(ctx, "3pt", lambda: getattr(treecorr, op["t"] + "Correlation")(**kw))
    if c is None: return None
    cc = [cats[0], cats[-1], cats[0]][:op["cats"]]
    if sum(x.ntot for x in cc) > 60 and (op["brute"] or op["slop"] == 0): return None
    if max(x.ntot for x in cc) > 40: return None
    def go():
        c.process(*cc, ordered=op["ordered"], **({"algo": op["algo"]} if op["algo"] else {}))
        return c
    if attempt(ctx, "3pt process", go) is None: return None
    names = ["ntri", "weight"] + (["zeta"] if op["t"] == "KKK" else []) + (["gam0", "gam1", "gam2", "gam3"] if op["t"] == "GGG" else []) + ["meand1", "meand2", "meand3"]
    for q in names:
        v = getattr(c, q)
        if v.shape != c.weight.shape: fail("%s has shape %s" % (q, v.shape))
        if not neg: finite("%s of %s" % (q, op["t"]), v)
    if op["bt"] == "LogMultipole" and op["sas"]:
        def sas():
            return c.toSAS(nphi_bins=op["nv"])
        d = attempt(ctx, "toSAS", sas)
        if d is not None and not neg: finite("weight of toSAS", d.weight)
    return c


def kmeans(op, cat, ctx):
    def go():
        f = cat.getNField(min_size=op["mn"], max_top=op["top"])
        if op["which"]:
            p, cen = f.run_kmeans(op["np"], init=op["init"], alt=op["alt"], max_iter=op["iters"], tol=op["tol"], rng=np.random.RandomState(3))
        else:
            cen = f.kmeans_initialize_centers(op["np"], init=op["init"], rng=np.random.RandomState(3))
            if op["cen"] == "coincident": cen[:] = cen[0]
            if op["cen"] == "far": cen[:] = cen + 1e3 * np.arange(op["np"])[:, None]
            f.kmeans_refine_centers(cen, max_iter=op["iters"], tol=op["tol"], alt=op["alt"])
            p = f.kmeans_assign_patches(cen)
        finite("centers", cen)
        if len(p) != cat.ntot or p.min() < 0 or p.max() >= op["np"]: fail("patch numbers %s outside 0..%d" % (p, op["np"] - 1))
    attempt(ctx, "kmeans", go)


def near(op, cat, ctx, coords, scale):
    s = 10. ** scale
    def go():
        f = getattr(cat, "get%sField" % op["f"])(min_size=op["mn"] * s, max_top=op["top"])
        i = 0
        far = {"object": 0, "far": 1e3 * s, "origin": 0, "zero": 0}[op["at"]]
        if coords in ("flat", "3d"):
            at = [getattr(cat, q)[i] + far if op["at"] != "origin" else 0. for q in ("xy" if coords == "flat" else "xyz")]
        else:
            at = [cat.ra[i] if op["at"] != "origin" else 0., cat.dec[i] if op["at"] != "zero" else np.pi / 2]
            if coords == "rdr": at.append(cat.r[i] if op["at"] != "zero" else 1e-3 * s)
        kw = dict(sep=op["sep"] * (s if coords != "sphere" else 1.))
        if "ra" in ("ra",) and coords in ("sphere", "rdr"): kw.update(ra_units="rad", dec_units="rad")
        if coords == "sphere": kw.update(sep_units="rad")
        n = f.count_near(*at, **kw)
        idx = f.get_near(*at, **kw)
        if len(idx) and (idx.min() < 0 or idx.max() >= cat.ntot or len(set(idx.tolist())) != len(idx)): fail("get_near gives %s for %d objects" % (idx, cat.ntot))
        if n != len(idx): fail("count_near %d, get_near %d" % (n, len(idx)))
    attempt(ctx, "near", go)


def check_ops(case, ctx):
    import treecorr
    ctx.done = 0
    with Watch(), np.errstate(all="ignore"):
        cats = [attempt(ctx, "Catalog", lambda: make(c, case["coords"], case["scale"])) for c in (case["c1"], case["c2"])]
        neg = any(c["w"] == "neg" for c in (case["c1"], case["c2"]))
        if any(c is None for c in cats): return
        hist = []
        for op in case["ops"]:
            o = op["op"]
            ctx.tag(o)
            if o == "2pt": hist.append(two(op, cats, case["scale"], ctx, neg, case["coords"]))
            elif o == "3pt": hist.append(three(op, cats, case["scale"], ctx, neg, case["coords"]))
            elif o == "kmeans": kmeans(op, cats[op["np"] % 2], ctx)
            elif o == "near": near(op, cats[op["top"] % 2], ctx, case["coords"], case["scale"])
            elif o == "drop": cats = [attempt(ctx, "Catalog", lambda: make(c, case["coords"], case["scale"])) for c in (case["c1"], case["c2"])] if op["pick"] % 2 else [cats[0].copy(), cats[0]]
            elif o == "copy": cats = [copy.copy(c) if op["pick"] % 2 else copy.deepcopy(c) for c in cats]; hist = [copy.copy(h) for h in hist]
            elif o == "pickle": cats = [pickle.loads(pickle.dumps(c)) for c in cats]; hist = [pickle.loads(pickle.dumps(h)) for h in hist]
            elif o == "patches":
                p = attempt(ctx, "get_patches", lambda: cats[0].get_patches())
                if p: cats = [p[op["pick"] % len(p)], cats[1]]
            elif o == "again":
                for h in [h for h in hist if h is not None][:2]:
                    if isinstance(h, treecorr.Corr2) or max(c.ntot for c in cats) < 20: attempt(ctx, "again", lambda: h.process(cats[0]) if op["pick"] % 2 and h._letter1 == h._letter2 else h.process(*[cats[i] for i in range(2)]))
            elif o == "gc": gc.collect()
            elif o == "nofields":
                for c in cats: c.clear_cache()
            elif o == "combine":
                hs = [h for h in hist if h is not None]
                if len(hs) > 1: attempt(ctx, "combine", lambda: hs[0].__iadd__(hs[-1]))
        del cats, hist
        gc.collect()
    if not ctx.done: ctx.trivial("nothing completed")


KINDS = ["f8", "f8", "f4", "i4", "i8", ">f8", "list", "tuple", "strided", "reversed", "fortran", "readonly", "bool", "object", "2d", "0d", "short", "long", "empty", "complex", "str", "u1", "none", "scalar", "inf", "nan", "offset"]
arr = st.fixed_dictionaries(dict(n=st.sampled_from([1, 2, 7, 30]), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "3d", "sphere", "rdr"]), kinds=st.lists(st.tuples(st.integers(0, 20), st.sampled_from(KINDS)), max_size=4).map(lambda v: [list(q) for q in v]),
                                 cen=st.sampled_from(["good", "good", "f4", "int", "cols", "1d", "strided", "fortran", "empty", "3dim", "list", "readonly", "nan", "big"]), use=st.sampled_from(["kmeans", "assign", "refine", "patch_centers", "near", "R", "patch", "sep", "select"]), npc=st.integers(1, 6)))


def mangle(a, kind, r):
    n = len(a)
    if kind in ("f8", "f4", "i4", "i8", ">f8", "bool", "complex", "u1", "object", "str"):
        t = {"complex": complex, "object": object, "bool": bool, "str": str}.get(kind, kind)
        return np.abs(a).astype(t) if kind == "u1" else a.astype(t)
    if kind == "list": return list(a)
    if kind == "tuple": return tuple(a)
    if kind == "strided": b = np.zeros(2 * n); b[::2] = a; return b[::2]
    if kind == "reversed": return a[::-1].copy()[::-1]
    if kind == "fortran": return np.asfortranarray(np.column_stack([a, a]))[:, 0]
    if kind == "readonly": b = a.copy(); b.flags.writeable = False; return b
    if kind == "2d": return a.reshape(-1, 1)
    if kind == "0d": return np.array(a[0])
    if kind == "short": return a[:-1]
    if kind == "long": return np.concatenate([a, a])
    if kind == "empty": return a[:0]
    if kind == "none": return None
    if kind == "scalar": return float(a[0])
    if kind == "inf": b = a.astype(float); b[0] = np.inf; return b
    if kind == "nan": b = a.astype(float); b[0] = np.nan; return b
    if kind == "offset":
        b = np.zeros(8 * n + 1, dtype=np.uint8)[1:].view(np.uint8)
        v = b[:8 * n].view("f8") if False else np.frombuffer(b"\0" + a.tobytes(), dtype="u1")[1:].view("f8")
        return v


def centers(kind, cen, r):
    if kind == "f4": return cen.astype("f4")
    if kind == "int": return np.round(cen).astype(int)
    if kind == "cols": return cen[:, :-1].copy() if len(cen) % 2 else np.column_stack([cen, cen[:, 0]])
    if kind == "1d": return cen[:, 0].copy()
    if kind == "strided": b = np.zeros((2 * len(cen), 2 * cen.shape[1])); b[::2, ::2] = cen; return b[::2, ::2]
    if kind == "fortran": return np.asfortranarray(cen)
    if kind == "empty": return cen[:0]
    if kind == "3dim": return cen[:, :, None]
    if kind == "list": return cen.tolist()
    if kind == "readonly": b = cen.copy(); b.flags.writeable = False; return b
    if kind == "nan": b = cen.copy(); b[0, 0] = np.nan; return b
    if kind == "big": return cen * 1e12
    return cen


def check_arr(case, ctx):
    import treecorr
    ctx.done = 0
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    coords = case["coords"]
    d = dict(x=r.uniform(0, 5, n), y=r.uniform(0, 5, n)) if coords in ("flat", "3d") else dict(ra=r.uniform(0, 1, n), dec=r.uniform(-1, 1, n))
    if coords == "3d": d["z"] = r.uniform(0, 5, n)
    if coords == "rdr": d["r"] = r.uniform(1, 5, n)
    d.update(w=r.uniform(0.5, 2, n), wpos=r.uniform(0.5, 2, n), k=r.normal(size=n), g1=r.normal(size=n), g2=r.normal(size=n), flag=r.randint(0, 2, n) * 1., patch=r.randint(0, 3, n) * 1.)
    for q in ("wpos", "flag", "patch"):
        if r.randint(2): del d[q]
    if "patch" in d: d["patch"] = d["patch"].astype(int)
    names = sorted(d)
    odd = False
    clean = dict(d)
    for i, kind in case["kinds"]:
        q = names[i % len(names)]
        if len(np.atleast_1d(clean[q])) == 0: continue
        d[q] = mangle(clean[q], kind, r)
        odd = odd or kind in ("inf", "nan", "complex", "object", "str", "2d", "0d", "none", "scalar", "bool", "u1", "i4", "i8", "f4", "short", "long", "empty")
        ctx.tag(kind)
    kw = dict(ra_units="rad", dec_units="rad") if "ra" in d else {}
    d = {q: v for q, v in d.items() if v is not None}
    with Watch(), np.errstate(all="ignore"):
        cat = attempt(ctx, "Catalog", lambda: treecorr.Catalog(verbose=0, **kw, **d))
        if cat is None:
            if not odd and "flag" not in d: fail("valid arrays refused: %s" % case["kinds"])
            return
        ok = "flag" not in d and "wpos" not in d
        if not odd and ok:
            for q in d:
                if q in ("x", "y", "z", "ra", "dec", "r", "w", "k", "g1", "g2") and not np.array_equal(getattr(cat, q), clean[q]) and q not in ("x", "y", "z"): fail("%s is %s, given %s" % (q, getattr(cat, q), clean[q]))
        for cls in ("NN", "KK", "GG"):
            def go():
                c = getattr(treecorr, cls + "Correlation")(min_sep=0.1, max_sep=3, nbins=3, verbose=0)
                c.process(cat)
                return c
            if cls == "KK" and cat.k is None or cls == "GG" and cat.g1 is None: continue
            c = attempt(ctx, cls, go)
            if c is not None and not odd: finite("weight", c.weight)
        dim = 2 if coords == "flat" else 3
        cen = centers(case["cen"], r.uniform(0.1, 1, (case["npc"], dim)), r)
        use = case["use"]
        ctx.tag(use + "/" + case["cen"])
        f = attempt(ctx, "field", lambda: cat.getNField())
        if f is None: return
        if use == "kmeans":
            for v in (0, -1, 2.5, "3", None, case["npc"], 10 ** 6): attempt(ctx, "kmeans", lambda: f.run_kmeans(v, rng=np.random.RandomState(1)))
        elif use == "assign":
            p = attempt(ctx, "assign", lambda: f.kmeans_assign_patches(cen))
            if p is not None and (len(p) != cat.ntot or p.min() < 0 or p.max() >= len(cen)): fail("assigned %s for %d centers" % (p, len(cen)))
            if p is None and not odd and case["cen"] in ("good", "f4", "int", "strided", "fortran", "readonly", "big"): fail("valid centers refused")
            if p is not None and case["cen"] in ("cols", "1d", "empty", "3dim"): fail("centers of shape %s accepted for %d-dimensional positions" % (np.shape(cen), dim))
        elif use == "refine":
            x = attempt(ctx, "refine", lambda: f.kmeans_refine_centers(cen) or 1)
            if x is not None and case["cen"] in ("cols", "1d", "empty", "3dim"): fail("centers of shape %s accepted" % (np.shape(cen),))
        elif use == "patch_centers":
            d2 = {q: v for q, v in d.items() if q != "patch"}
            c2 = attempt(ctx, "patch_centers", lambda: treecorr.Catalog(verbose=0, **kw, **d2, patch_centers=cen))
            if c2 is not None:
                attempt(ctx, "nn", lambda: treecorr.NNCorrelation(min_sep=0.1, max_sep=3, nbins=3, verbose=0).process(c2))
                if case["cen"] in ("cols", "1d", "empty", "3dim"): fail("centers of shape %s accepted" % (np.shape(cen),))
        elif use == "near":
            pos = [1., 1.] + ([2.] if coords in ("3d", "rdr") else [])
            u = dict(ra_units="rad", dec_units="rad") if coords in ("sphere", "rdr") else {}
            if coords == "sphere": u["sep_units"] = "rad"
            for a in (pos, pos[:1], [np.array(q) for q in pos], [np.array([q]) for q in pos], [str(q) for q in pos], pos + [1.], [1e25] * len(pos), [None] * len(pos)):
                for sep in (1., 0., 1e25, "1"): attempt(ctx, "near", lambda: (f.count_near(*a, sep=sep, **u), f.get_near(*a, sep=sep, **u)))
        elif use == "R":
            g = treecorr.GGCorrelation(min_sep=0.1, max_sep=3, nbins=3, verbose=0)
            if cat.g1 is not None and attempt(ctx, "gg", lambda: g.process(cat) or 1):
                for R in (1., [1.], [], np.array([[1., 2.]]), [0.], [np.nan], "1", [1e300], [1e-300]): attempt(ctx, "mapsq", lambda: g.calculateMapSq(R=R))
        elif use == "patch":
            for p in ([0] * cat.ntot, [-1] * cat.ntot, np.arange(cat.ntot) * 1000, [0.5] * cat.ntot, 5, -5, "a", np.arange(cat.ntot + 1), np.zeros((cat.ntot, 1), int)):
                d2 = {q: v for q, v in d.items() if q != "patch"}
                c2 = attempt(ctx, "patch", lambda: treecorr.Catalog(verbose=0, **kw, **d2, patch=p))
                if c2 is not None: attempt(ctx, "nn", lambda: treecorr.NNCorrelation(min_sep=0.1, max_sep=3, nbins=3, verbose=0).process(c2))
        elif use == "sep":
            for v in (0., -1., np.nan, np.inf, 1e300, 1e-320, "2", None): 
                for k in ("min_sep", "max_sep", "bin_size", "nbins", "bin_slop", "angle_slop", "max_top", "min_top", "period", "num_threads"):
                    o = dict(min_sep=0.1, max_sep=3, nbins=3)
                    if k == "bin_size": del o["nbins"]
                    if k == "bin_size" and isinstance(v, float) and (v < 1e-3): continue
                    if v == 1e300 and k in ("nbins",): continue
                    o[k] = v
                    def go():
                        c = treecorr.NNCorrelation(verbose=0, **o)
                        if c.nbins < 10 ** 5: c.process(cat)
                        return c
                    attempt(ctx, "nn", go)
        elif use == "select":
            for idx in ([], [0], [-1], [n + 5], slice(None), np.zeros(n, bool), np.ones(n, bool)): attempt(ctx, "select", lambda: treecorr.NNCorrelation(min_sep=0.1, max_sep=3, nbins=3, verbose=0).process(cat[idx] if hasattr(cat, "__getitem__") else cat))
    if not ctx.done: ctx.trivial("nothing completed")


SUBS = [Sub("ops", ops, check_ops, quick=700, timeout=100),
        Sub("arrays", arr, check_arr, quick=700, timeout=100)]
