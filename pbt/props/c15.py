"""C15: copies, pickles, printed representations and equality."""
import copy
import os
import pickle
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
import core
from core import Sub, Skip
from props.c13 import World, T2, T3

RULE = ("catalog: a catalog is built (arrays or file, optional columns, patches, options), put into a drawn state (cached fields, patches made, unloaded, statistics used) and cloned by "
        "copy/deepcopy/pickle/repr; the clone must be equal, hold identical contents, give bit-identical correlations, share no array and be unaffected by changes to the other.  "
        "cat-eq/corr-eq: one entry or one option is changed and equality must notice, in both directions.  corr: the same for correlation objects in every state of a history, "
        "including objects read back from a file, with the same further operations applied to both.  Non-trivial: the object holds data with pairs (corr) or optional columns/patches (catalog).")
ASSUMPTIONS = ["copy.copy is shallow by definition and exempt from the no-sharing rule", "loggers and random generators given by the user are not part of the copied state",
               "array printing is set to full precision while taking repr"]

COLS = ["x", "y", "z", "ra", "dec", "r", "w", "wpos", "k", "z1", "z2", "v1", "v2", "g1", "g2", "t1", "t2", "q1", "q2", "patch"]
COPIERS = ["copy", "deepcopy", "pickle2", "pickle5", "copy2", "repr", "shallow"]


def fail(*a):
    core.fail(" ".join(str(q) for q in a))


def clone(o, how):
    if how == "copy": return o.copy()
    if how == "copy2": return pickle.loads(pickle.dumps(o.copy())).copy()
    if how == "deepcopy": return copy.deepcopy(o)
    if how == "pickle2": return pickle.loads(pickle.dumps(o, 2))
    if how == "pickle5": return pickle.loads(pickle.dumps(o, 5))
    if how == "shallow": return copy.copy(o)
    import treecorr
    with np.printoptions(threshold=np.inf, floatmode="unique", precision=17):
        s = repr(o)
    return eval(s, dict(treecorr=treecorr, array=np.array, nan=np.nan, inf=np.inf, int64=np.int64, int32=np.int32, np=np,
                        **{n: getattr(treecorr, n) for n in dir(treecorr) if n.endswith("Correlation")}))


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b, equal_nan=True) and np.asarray(a).dtype == np.asarray(b).dtype
    return a == b


cat_strat = st.fixed_dictionaries(dict(
    geo=gen.geom(), c=gen.cat_spec(30, 1), fields=st.sets(st.sampled_from("kzvgtq"), max_size=3).map(sorted), wpos=st.booleans(), keep=st.booleans(),
    patch=st.sampled_from(["none", "none", "array", "array", "npatch", "centers", "single"]), np=st.integers(2, 4), units=st.sampled_from(["rad", "deg", "arcmin"]),
    file=st.sampled_from([None, None, None, "FITS", "ASCII"]), var=st.booleans(), name=st.booleans(),
    state=st.lists(st.sampled_from(["field", "patches", "lowpatches", "centers", "var", "unload", "clear_cache", "resize", "sumw", "proc", "load"]), max_size=3),
    how=st.sampled_from(COPIERS), mut=st.integers(0, 3), col=st.integers(0, 20), row=st.integers(0, 40), cmut=st.sampled_from(["eps", "one", "none"]),
))


def build(case, ctx):
    """A zero-argument function that builds the catalog (always in the same way)."""
    import treecorr
    d = gen.make(case["c"], case["geo"])
    if not (ref2.wts(d) != 0).any():
        raise Skip("no live objects")
    kw = gen.catkw(d, case["fields"])
    n = d["n"]
    co = d["coords"]
    if co in ("sphere", "rdr"):
        f = dict(rad=1., deg=180 / np.pi, arcmin=10800 / np.pi)[case["units"]]
        kw.update(ra=kw["ra"] * f, dec=kw["dec"] * f, ra_units=case["units"], dec_units=case["units"])
    elif co == "flat" and case["units"] != "rad":
        kw.update(x_units=case["units"], y_units=case["units"])
    opt = dict(verbose=0)
    if case["keep"]: opt["keep_zero_weight"] = True
    if case["var"] and case["fields"]:
        opt.update({"var" + f: 0.37 for f in case["fields"]})
    if case["wpos"] and d["w"] is not None:
        kw["wpos"] = d["w"] + 0.5
    patch = case["patch"]
    npt = min(case["np"], n)
    if patch == "array":
        kw["patch"] = np.arange(n) % npt
    elif patch == "npatch":
        if n < 2 * npt or co != "flat": patch = "none"
        else: opt["npatch"] = npt
    elif patch == "centers":
        c = ref2.cart(d)[:npt]
        if len(np.unique(c, axis=0)) < npt: patch = "none"
        else: opt["patch_centers"] = np.array(c)
    elif patch == "single":
        opt.update(patch=1, npatch=3)
    if case["file"]:
        cols = {k: v for k, v in kw.items() if isinstance(v, np.ndarray)}
        rest = {k: v for k, v in kw.items() if not isinstance(v, np.ndarray)}
        fn = os.path.join(ctx.tmp(), "c." + ("fits" if case["file"] == "FITS" else "txt"))
        names = list(cols)
        from treecorr.util import make_writer
        with make_writer(fn, precision=17, file_type=case["file"]) as w:
            w.write(names, [np.asarray(cols[k]) for k in names])
        opt.update(file_name=fn, file_type=case["file"], **rest)
        for i, k in enumerate(names):
            opt[k + "_col"] = k
        return (lambda: treecorr.Catalog(rng=np.random.RandomState(3), **opt)), d, patch
    kw.update(opt)
    if case["name"] and not case["file"]:
        def mk():
            c = treecorr.Catalog(rng=np.random.RandomState(3), **kw)
            c.name = "something"
            return c
        return mk, d, patch
    return (lambda: treecorr.Catalog(rng=np.random.RandomState(3), **kw)), d, patch


def measure(cat, geo, fields, npatch):
    """Correlations of the catalog, as a list of arrays."""
    import treecorr
    ext = gen.sky_extent(geo)
    mx = min(ext, 1.8) if geo["coords"] == "sphere" else ext
    kw = dict(min_sep=0.05 * mx, max_sep=mx, nbins=3, verbose=0, num_threads=1, bin_slop=0)
    out = []
    for f in ["n"] + list(fields)[:1]:
        x = getattr(treecorr, f.upper() * 2 + "Correlation")(**kw)
        x.process(cat)
        out += [x.npairs, x.weight, x.meanr, x.meanlogr]
        for nm in cmp.xi_names(f.upper() * 2): out.append(getattr(x, nm))
        out.append(np.array(sorted(x.results.keys())))
        if f != "n":
            out.append(getattr(x, "var" + cmp.xi_names(f.upper() * 2)[0]))
    return out


def put_state(cat, case):
    fs = case["fields"]
    for s in case["state"]:
        if s == "field":
            cat.getNField()
            for f in fs: getattr(cat, "get%sField" % f.upper())(min_size=0.1, max_top=3)
        elif s == "patches": cat.get_patches()
        elif s == "lowpatches" and cat.file_name is not None: cat.get_patches(low_mem=True)
        elif s == "centers": cat.get_patch_centers()
        elif s == "var":
            for f in fs: getattr(cat, "var" + f)
        elif s == "unload" and cat.file_name is not None: cat.unload()
        elif s == "load": cat.load()
        elif s == "clear_cache": cat.clear_cache()
        elif s == "resize": cat.resize_cache(3)
        elif s == "sumw": cat.sumw; cat.nobj
        elif s == "proc": measure(cat, case["geo"], fs, 1)


def scalars(c, fields):
    out = dict(ntot=c.ntot, nobj=c.nobj, sumw=c.sumw, sumw2=c.sumw2, coords=c.coords, npatch=c.npatch, name=c.name, nontrivial_w=c.nontrivial_w)
    for f in fields: out["var" + f] = getattr(c, "var" + f)
    return out


def run_cat(case, ctx):
    how = case["how"]
    try:
        mk, d, patch = build(case, ctx)
        ref = mk()
        ref.load()
    except ValueError as e:
        if "No objects" in str(e) or "Catalog has no" in str(e) or "zero" in str(e).lower() or "single" in str(e):
            raise Skip(str(e)[:40])
        raise
    if patch != "single" and ref.npatch > 1 and any(not ref.w[ref.patch == p].any() for p in range(ref.npatch)):
        raise Skip("patch without weight")      # refused: invalid sumw == 0
    if patch == "single" and ref.ntot == 0:
        raise Skip("empty")
    cat = mk()
    put_state(cat, case)
    loaded = cat.loaded
    if patch == "npatch" and not loaded and how in ("shallow", "repr"):
        raise Skip("patches not made yet: they depend on the random generator of the user")
    fields = case["fields"]
    ctx.tag(how, patch, "file" if case["file"] else "arrays", *case["state"])
    if not (fields or patch != "none" or case["wpos"]):
        ctx.trivial("plain catalog")
    cl = clone(cat, how)
    if type(cl) is not type(cat):
        fail("type", type(cl))
    if how != "repr" and cl.loaded != loaded:
        fail("loaded state", cl.loaded, loaded)
    if how != "repr":       # the order of these must not matter
        a, b = scalars(cl, fields), scalars(ref, fields)
        for k in b:
            if not same(a[k], b[k]): fail("%s of the clone" % k, a[k], b[k])
    else:
        if cl.npatch != ref.npatch: fail("npatch of repr", cl.npatch)
        if (cl.coords, cl.ntot, cl.nobj) != (ref.coords, ref.ntot, ref.nobj): fail("counts of repr", (cl.coords, cl.ntot, cl.nobj), (ref.coords, ref.ntot, ref.nobj))
    if not (cl == cat and cat == cl and cl == ref and ref == cl and not (cl != cat)):
        fail("clone is not equal", [c for c in COLS if not same(getattr(cl, c), getattr(cat, c))])
    if cl == object() or cl == None or cl == 3:
        fail("equal to something else")
    snap = {c: copy.deepcopy(getattr(cat, c)) for c in COLS}
    for c in COLS:
        a, b = getattr(cl, c), getattr(ref, c)
        if not same(a, b): fail("column %s" % c, a, b)
        if how not in ("shallow",) and isinstance(a, np.ndarray):
            for c2 in COLS:
                o = getattr(cat, c2)
                if isinstance(o, np.ndarray) and np.shares_memory(a, o): fail("columns %s and %s share memory" % (c, c2))
    if how != "repr":
        if ref.npatch > 1 and patch != "single" and len(np.unique(ref.patch)) == ref.npatch:     # (an empty patch is refused)
            if not same(cl.get_patch_centers(), ref.get_patch_centers()): fail("patch centers", cl.get_patch_centers(), ref.get_patch_centers())
            pa, pb = cl.get_patches(), ref.get_patches()
            if len(pa) != len(pb) or any(not (x == y) for x, y in zip(pa, pb)): fail("patches differ")
        a, b = measure(cl, case["geo"], fields, ref.npatch), measure(ref, case["geo"], fields, ref.npatch)
        for i, (x, y) in enumerate(zip(a, b)):
            if not np.array_equal(x, y): fail("correlation item %d" % i, x, y)
        c2 = clone(cl, "pickle5")
        if not c2 == ref: fail("second generation clone")
    if how != "shallow":
        # changes of the clone do not show in the original and vice versa
        tgt, oth = (cl, cat) if case["mut"] % 2 else (cat, cl)
        for c in COLS:
            v = getattr(tgt, c)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v += 1 if c == "patch" else 0.5
        tgt.clear_cache()
        if tgt.file_name is not None: tgt.unload()
        for c in COLS:
            if not same(getattr(oth, c), snap[c]): fail("column %s of the other object changed" % c, getattr(oth, c), snap[c])


def run_cateq(case, ctx):
    case = dict(case, file=None)
    try:
        mk, d, patch = build(case, ctx)
        a, b = mk(), mk()
    except ValueError as e:
        if "No objects" in str(e) or "Catalog has no" in str(e) or "single" in str(e):
            raise Skip(str(e)[:40])
        raise
    if patch == "npatch":
        raise Skip("random patches")
    if not (a == b and b == a): fail("equal inputs, unequal catalogs")
    cols = [c for c in COLS if isinstance(getattr(b, c), np.ndarray)]
    c = cols[case["col"] % len(cols)]
    v = getattr(b, c)
    i = case["row"] % len(v)
    ctx.tag("eq-" + c, case["cmut"])
    if c in ("x", "y", "z") and b.ra is not None: pass
    if case["cmut"] == "none" and c not in ("x", "y", "ra", "dec"):
        setattr(b, "_" + c, None)
    elif case["cmut"] == "eps" and c != "patch":
        v = v.copy(); v[i] = np.nextafter(v[i], np.inf); setattr(b, "_" + c, v)
    else:
        v = v.copy(); v[i] += 1; setattr(b, "_" + c, v)
    if a == b or b == a or not (a != b): fail("a difference in column %s is not noticed" % c)
    e = clone(b, "deepcopy")
    if not (e == b) or e == a: fail("equality of the copy of the changed catalog")


corr_strat = st.fixed_dictionaries(dict(
    geo=gen.geom(), typ=st.sampled_from(T2 + ["NNN", "KKK", "GGG"]), bins=gen.bins_spec(nbmax=5).map(lambda b: dict(b, fmax=max(b['fmax'], 0.9171))), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), nb=st.integers(1, 3),
    fm=st.sampled_from([0.5, 1.2]), c=st.lists(gen.cat_spec(12, 3, wmodes=("none", "uniform")), min_size=9, max_size=9),
    npatch=st.sampled_from([0, 0, 2, 3]), local=st.just(False), pseed=st.integers(0, 100), mode=st.integers(0, 2), uniform=st.booleans(),
    state=st.lists(st.sampled_from(["proc", "proc", "procno", "fin", "cov", "xi", "cat", "clear", "sm"]), max_size=4).map(lambda l: l if not l or len(l) == 4 else [q for q in l if q.startswith("proc")][:1] + l),
    later=st.lists(st.sampled_from(["proc", "procno", "fin", "cov", "boot", "xi", "add", "write", "clear", "low"]), min_size=1, max_size=4),
    how=st.sampled_from([h for h in COPIERS]), first=st.booleans(), kind=st.integers(0, 4), vm=st.sampled_from(["shot", "shot", "jackknife", "bootstrap"]),
    opts=st.sets(st.sampled_from(["split", "top", "units", "boot", "slop", "angle", "prec", "threads"]), max_size=3).map(sorted), attr=st.integers(0, 20), idx=st.integers(0, 40),
    ia=st.integers(0, 2), ib=st.integers(0, 2), ic=st.integers(0, 2), reload=st.sampled_from([None, None, "all", "plain"]),
))


class W15(World):
    def __init__(self, case):
        three = len(case["typ"]) == 3
        case = dict(case)
        if three and case["geo"]["coords"] == "rdr":
            case["geo"] = dict(case["geo"], coords="flat")
        if three:
            case["npatch"] = min(case["npatch"], 2)
        super().__init__(case, three)
        kw = self.kw
        if case["vm"] != "shot" and case["npatch"] > 1:
            kw["var_method"] = case["vm"]
            if case["vm"] == "bootstrap": kw["num_bootstrap"] = 5
        o = case["opts"]
        if "split" in o: kw["split_method"] = ["mean", "median", "middle"][case["attr"] % 3]
        if "top" in o: kw.update(max_top=2, min_top=1)
        if "boot" in o: kw["num_bootstrap"] = 7
        if "slop" in o and case["mode"] == 0: kw["bin_slop"] = 0.3
        if "angle" in o: kw["angle_slop"] = 0.2
        if "prec" in o: kw["precision"] = 7
        if "threads" in o: kw["num_threads"] = 2
        if "units" in o and case["geo"]["coords"] == "sphere":
            kw.update(sep_units="deg", min_sep=kw.get("min_sep", 0.) * 180 / np.pi, max_sep=kw["max_sep"] * 180 / np.pi)
            if self.bt == "TwoD" and "min_sep" in kw and kw["min_sep"] == 0: del kw["min_sep"]
        kw["num_threads"] = 1

    def fresh(self, **k):
        return self.new(rng=np.random.RandomState(5), **k)

    def act(self, x, what, case, ctx, tag):
        """One operation; returns what it returned, as something comparable."""
        kind = self.kinds[case["kind"] % len(self.kinds)]
        try:
            if what == "proc": self.process(x, kind, case, True, True)
            elif what == "procno": self.process(x, kind, case, False, False)
            elif what == "low": self.low(x, kind, case)
            elif what == "fin": x.finalize(*[0.3] * nvar(self.typ))
            elif what == "cov": return x.cov
            elif what == "boot": return x.estimate_cov("bootstrap")
            elif what == "cat":
                self.process(x, kind, case, True, True)
                return x.estimate_cov("sample")
            elif what == "sm": return x.estimate_cov("shot")
            elif what == "clear": x.clear()
            elif what == "xi":
                if self.typ == "NN":
                    r = self.new(); r.process(self.pools[1][2])
                    return np.array(x.calculateXi(rr=r)[0])
                if self.typ == "NNN" and self.bt != "LogMultipole":
                    r = self.new(); r.process(self.pools[1][2], algo="triangle", patch_method="local" if self.local else "global")
                    return np.array(x.calculateZeta(rrr=r)[0])
            elif what == "add":
                y = self.fresh(); self.process(y, kind, dict(case, ia=(case["ia"] + 1) % 3), True, False); x += y
            elif what == "write":
                fn = os.path.join(ctx.tmp(), "%s.out" % tag)
                x.write(fn, write_patch_results=True, write_cov=False)
                return open(fn).read()
        except (ValueError, RuntimeError, TypeError, AttributeError, np.linalg.LinAlgError) as e:
            return type(e).__name__ + str(e)[:60]
        return None


def sane(ops, fin):
    """Accumulating into a finalized object, or finalizing it again, is documented as meaningless: clear it first."""
    out = []
    for o in ops:
        if o in ("procno", "low", "add", "fin") and fin:
            if o == "fin": continue
            out.append("clear"); fin = False
        if o == "proc" or o == "cat": fin = True
        if o == "clear": fin = False
        out.append(o)
        if o == "fin": fin = True
    return out, fin


def nvar(typ):
    if typ in ("NN", "NNN"): return 0
    if len(typ) == 3: return 3
    return 1 if typ[0] == "N" else 2


def content(W, x):
    d = W.raw(x)
    for nm in ["npatch1", "npatch2", "npatch3", "coords", "metric", "min_sep", "max_sep", "nbins", "bin_size", "sep_units", "bin_type", "bin_slop", "angle_slop", "b",
               "brute", "split_method", "min_top", "max_top", "var_method", "num_bootstrap", "xperiod", "min_rpar", "max_rpar", "bu", "bv", "min_u", "max_v", "nphi_bins",
               "max_n", "nubins", "logr", "rnom", "logd2", "phi", "config"]:
        try:
            if hasattr(x, nm): d[nm] = getattr(x, nm)
        except Exception:
            pass
    for nm in ["varxi", "varxip", "varzeta", "vargam0", "xi", "zeta"]:
        if nm in x.__dict__: d[nm] = x.__dict__[nm]
    d["results"] = sorted(x.results)
    return d


def compare(W, a, b, what):
    ca, cb = content(W, a), content(W, b)
    if set(ca) != set(cb): fail("%s: attributes" % what, sorted(set(ca) ^ set(cb)))
    for k in ca:
        u, v = ca[k], cb[k]
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if not np.array_equal(u, v, equal_nan=True): fail("%s: %s" % (what, k), u, v)
        elif u != v: fail("%s: %s" % (what, k), u, v)
    for ij in a.results:
        x, y = a.results[ij], b.results[ij]
        for n in ("weight", W.count):
            if not np.array_equal(getattr(x, n), getattr(y, n)): fail("%s: results %s" % (what, n))


def run_corr(case, ctx):
    W = W15(case)
    a, r = W.fresh(), W.fresh()      # r: reference object living through the same history without being cloned
    state, fin = sane(case["state"], False)
    for s in state:
        W.act(a, s, case, ctx, "a"); W.act(r, s, case, ctx, "a")
    how = case["how"]
    reload = case["reload"] if fin and how != "repr" and np.any(getattr(a, W.count)) else None
    if reload and W.typ in ("NN", "NNN") and getattr(a, "xi" if W.typ == "NN" else "zeta", None) is None:
        reload = None       # (no covariance before calculateXi/calculateZeta)
    if reload:
        # objects that were read from a file are copied like any other
        fn = os.path.join(ctx.tmp(), "back.out")
        try:
            a.write(fn, write_patch_results=reload == "all", write_cov=True)
        except (ValueError, RuntimeError):
            reload = None
        else:
            a, r = [type(a).from_file(fn, rng=np.random.RandomState(5)) for _ in range(2)]
            ctx.tag("reload-" + reload)
    if how == "repr":
        a, r = W.fresh(), W.fresh()
        cl = clone(a, how)
        for nm in [n for n in content(W, a) if n != "config"]:
            u, v = getattr(a, nm, None), getattr(cl, nm, None)
            if isinstance(u, np.ndarray):
                if not np.array_equal(u, v): fail("repr: %s" % nm, u, v)
            elif u != v: fail("repr: %s" % nm, u, v)
        cl._rng = np.random.RandomState(5)
        ctx.tag("repr")
        if not (cl == a and a == cl): fail("repr is not equal")
        later = [q for q in case["later"] if q != "boot"]
        fin = False
    else:
        cl = clone(a, how)
        compare(W, cl, a, how)
        if reload and not (np.array_equal(cl.cov, r.cov, equal_nan=True) and np.array_equal(cl.cov_diag, r.cov_diag, equal_nan=True)):
            fail("cov of the clone of an object read from a file", cl.cov, r.cov)
        later = case["later"]
    later = sane(later, fin)[0]
    ctx.tag(how, W.typ, W.bt, *["s-" + s for s in state])
    if not (cl == a and a == cl and not (cl != a)): fail("clone is not equal")
    if cl == object() or cl is a: fail("equal to another object")
    if not np.any(getattr(a, W.count)) and how != 'repr': ctx.trivial("no pairs")
    if how == "shallow": return
    for n, v in cl.__dict__.items():
        if isinstance(v, np.ndarray) and v.flags.writeable and isinstance(a.__dict__.get(n), np.ndarray) and np.shares_memory(v, a.__dict__[n]): fail("array %s is shared" % n)
    later = [q for q in later if not (q == "boot" and how in ("copy", "copy2"))]
    # the clone lives on first (or last); the original must not notice
    x, y = (cl, a) if case["first"] else (a, cl)
    ctx.tag(*["l-" + q for q in later])
    outs = {}
    for i, obj in enumerate((x, y, r)):
        snaps = content(W, y) if i == 0 else None
        outs[i] = [W.act(obj, q, case, ctx, "w%d" % i) for q in later]
        if i == 0:
            now = content(W, y)
            for k in snaps:
                u, v = snaps[k], now[k]
                if isinstance(u, np.ndarray):
                    if not np.array_equal(u, v, equal_nan=True): fail("the other object changed: %s" % k, v, u)
                elif u != v: fail("the other object changed: %s" % k, v, u)
    boot_shared = how in ("copy", "copy2") and W.kw.get("var_method") == "bootstrap"
    for i in (0, 1):
        if boot_shared: continue
        compare(W, (x, y)[i], r, "after %s, %s" % (later, "original" if (x, y)[i] is a else how))
        for q, u, v in zip(later, outs[i], outs[2]):
            ok = np.array_equal(u, v, equal_nan=True) if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) else (type(u) == type(v) and u == v)
            if not ok: fail("%s gives another answer (%s, %s)" % (q, "original" if (x, y)[i] is a else how, later), u, v)


def run_correq(case, ctx):
    W = W15(case)
    a, b = W.fresh(), W.fresh()
    kind = W.kinds[case["kind"] % len(W.kinds)]
    W.process(a, kind, case, True, True); W.process(b, kind, case, True, True)
    if not (a == b and b == a): fail("equal histories, unequal objects")
    names = [n for n in W.raw_names + W.xi_names]
    three = W.three
    alts = []
    k = W.kw
    if W.bt != "TwoD": alts.append(dict(min_sep=k["min_sep"] * 1.01))
    alts += [dict(max_sep=k["max_sep"] * 1.01), dict(nbins=k["nbins"] + 1), dict(bin_slop=0.777), dict(angle_slop=0.0777)]
    if not three: alts += [dict(min_rpar=-1.), dict(max_rpar=1.)]
    alts += [dict(period=3.), dict(xperiod=3.), dict(sep_units="arcmin")]
    if W.bt == "LogRUV": alts += [dict(nubins=3), dict(nvbins=3), dict(min_u=0.1), dict(max_u=0.9), dict(min_v=0.1), dict(max_v=0.9)]
    if W.bt == "LogSAS": alts += [dict(nphi_bins=4), dict(min_phi=0.1), dict(max_phi=3.)]
    if W.bt == "LogMultipole": alts += [dict(max_n=3)]
    if not three and W.bt != "TwoD": alts.append(dict(bin_type="Linear" if W.bt == "Log" else "Log"))
    m = len(names) + len(alts) + 2
    j = (case["attr"] * 41 + case["idx"]) % m
    if j < len(names):
        nm = names[j]
        arr = getattr(b, nm)
        if nm == "weight" and three: arr = b.weightr
        elif three and nm in ("zeta", "gam0", "gam1", "gam2", "gam3"):
            q = {"zeta": ["_z1", "_z2"], "gam0": ["_z1", "_z2"], "gam1": ["_z3", "_z4"], "gam2": ["_z5", "_z6"], "gam3": ["_z7", "_z8"]}[nm]
            arr = getattr(b, q[case["idx"] % 2])
            if len(arr) == 0: arr = getattr(b, q[0])
        elif not three and nm in ("xi", "xip", "xip_im", "xim", "xim_im", "xi_im"):
            if not arr.flags.writeable: arr = b._xi1
        if not arr.flags.writeable or arr.size == 0: raise Skip("not stored")
        arr.flat[case["idx"] % arr.size] += 1
        what = nm
    elif j < len(names) + len(alts):
        kw = alts[j - len(names)]
        if set(kw) == {"sep_units"} and "sep_units" in k: raise Skip("same units")
        what = list(kw)[0]
        try:
            a, b = W.fresh(), W.fresh(**kw)
        except (TypeError, ValueError):
            raise Skip("invalid option")
    elif j == m - 2:
        if W.typ not in ("NN", "NNN"): raise Skip("no tot")
        b.tot *= 1.25
        what = "tot"
    else:
        b = W.cls(verbose=0, **{q: v for q, v in k.items()})
        if not (b == b): fail("not equal to itself")
        what = "unprocessed"
    ctx.tag("eq-" + what)
    if a == b or b == a or not (a != b): fail("a difference in %s is not noticed" % what)


SUBS = [Sub("catalog", cat_strat, run_cat, quick=2500), Sub("cat-eq", cat_strat, run_cateq, quick=1500),
        Sub("corr", corr_strat, run_corr, quick=2500), Sub("corr-eq", corr_strat, run_correq, quick=2000)]
