"""C22: cached state never changes what a computation returns."""
import gc
import os
import weakref
from collections import OrderedDict
import numpy as np
from hypothesis import strategies as st
import gen, cmp
from core import Sub, Skip, fail

RULE = ("lru: random calls, resizes and clears of an LRU_Cache (also functions that fail, keys that are equal or hash alike) against an ordered-dict model: results, hits, size, count, last value, values, and which entries are released.  "
        "fields: random field requests of every kind and parameters with cache resizes and clears on one catalog: the returned field has the requested parameters and answers like a freshly built one; repeated requests hit exactly when the model says so.  "
        "history: random sequences of correlations, field requests, k-means runs, statistics, patch queries, unloading, pair sampling, cache changes on shared catalogs (also reusing one correlation object): each result equals, to the last bit, the same operation on fresh catalogs.  "
        "Non-trivial: an eviction or a hit happened (lru, fields); at least two operations preceded the compared one and counted something (history).")
ASSUMPTIONS = ["trees with split_method='random' draw from the rng of the catalog, so that only exact computations (bin_slop=0 or brute) are compared for them",
               "results of unpatched catalogs are compared to the last bit (one thread), those of patched ones to 1e-9 (patched computations may use several threads)"]

lru = st.fixed_dictionaries(dict(size=st.integers(0, 5), ops=st.lists(st.tuples(st.sampled_from(["call"] * 9 + ["fail", "resize", "resize", "clear", "neg"]), st.integers(0, 7), st.integers(0, 6)).map(list), min_size=2, max_size=40)))


class Val:
    def __init__(self, k): self.k = k


def check_lru(case, ctx):
    from treecorr.util import LRU_Cache
    calls = []
    boom = [False]
    def f(*key, logger=None):
        if boom[0]: raise ValueError("boom")
        calls.append(key)
        return Val(key)
    cache = LRU_Cache(f, case["size"])
    M, size = OrderedDict(), case["size"]       # key -> value, least recent first
    refs = []
    KEYS = [(1, "a"), (1.0, "a"), (True, "a"), (2,), (2, None), (), ("a", 1, None), (-1,)]     # the first three are equal
    act = set()
    for op, k, n in case["ops"]:
        if op in ("call", "fail"):
            key = KEYS[k]
            nc = len(calls)
            hit = key in M
            boom[0] = op == "fail"
            try: v = cache(*key, logger=k)
            except ValueError:
                if op != "fail" or hit: raise
                v = None
            boom[0] = False
            if op == "fail" and not hit:
                if v is not None: fail("an error was swallowed")
            else:
                if hit and (len(calls) != nc or v is not M[key]): fail("cache miss for %s, which should be cached" % (key,))
                if not hit and (len(calls) != nc + 1 or calls[-1] != key or v.k != key): fail("%s is not in the cache, but the function was not called" % (key,))
                if hit: M.move_to_end(key); act.add("hit")
                elif size:
                    M[key] = v
                    if len(M) > size: M.popitem(last=False); act.add("evict")
                if not hit: refs.append(weakref.ref(v))
            del v
        elif op == "resize":
            cache.resize(n); size = n
            while len(M) > size: M.popitem(last=False); act.add("evict")
        elif op == "clear": cache.clear(); M.clear()
        elif op == "neg":
            try: cache.resize(-1)
            except ValueError: pass
            else: fail("resize(-1) was accepted")
        if cache.size != size: fail("size is %s, expected %s" % (cache.size, size))
        if cache.count != len(M): fail("count is %s, expected %s" % (cache.count, len(M)))
        if sorted(id(v) for v in cache.values()) != sorted(id(v) for v in M.values()): fail("values %s, expected %s" % ([v.k for v in cache.values()], [v.k for v in M.values()]))
        want = next(reversed(M.values())) if M else None
        if M and cache.last_value is not want: fail("last_value is %s, expected %s" % (cache.last_value and cache.last_value.k, want and want.k))
        if not M and cache.last_value is not None: fail("last_value of an empty cache")
    gc.collect()
    want = None
    live = {id(r()) for r in refs if r() is not None}
    if live != {id(v) for v in M.values()}: fail("%d values are kept alive, %d are cached" % (len(live), len(M)))
    ctx.tag(*act)
    if not act: ctx.trivial()


KIND = "NKZVGTQ"
fld = st.fixed_dictionaries(dict(kind=st.sampled_from("NNNK" + KIND), min_size=st.sampled_from([0, 0, 0.3]), max_size=st.sampled_from([None, None, 2.]), split=st.sampled_from([None, "mean", "median", "middle", "random"]),
                                 brute=st.sampled_from([False, False, True, 1, 0]), min_top=st.sampled_from([None, 0, 0, 2]), max_top=st.sampled_from([0, 1, 3, 10]), coords=st.sampled_from([None, None, "spherical", "3d"])))
fields = st.fixed_dictionaries(dict(n=st.integers(1, 30), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "sphere", "rdr", "3d"]), pool=st.lists(fld, min_size=1, max_size=4),
                                    ops=st.lists(st.tuples(st.sampled_from(["get"] * 8 + ["resize", "resize1", "clear", "clear1", "stats", "copy"]), st.integers(0, 3), st.integers(0, 3)).map(list), min_size=2, max_size=16)))


def mkcat(n, seed, coords, **kw):
    import treecorr
    r = np.random.RandomState(seed)
    P = r.normal(0, 3, (n, 3))
    d = dict(k=np.round(r.normal(0, 1, n) * 64) / 64, w=r.randint(1, 4, n) * 1., verbose=0)
    for s in "zvgtq": d.update({s + "1": np.round(r.normal(0, 1, n) * 64) / 64, s + "2": np.round(r.normal(0, 1, n) * 64) / 64})
    if coords in ("sphere", "rdr"):
        rr = np.sqrt((P ** 2).sum(axis=1))
        d.update(ra=np.arctan2(P[:, 1].copy(), P[:, 0].copy()), dec=np.arcsin(P[:, 2] / rr), ra_units="rad", dec_units="rad")
        if coords == "rdr": d["r"] = rr
    else: d.update({q: P[:, i] for i, q in enumerate("xyz"[:2 if coords == "flat" else 3])})
    d.update(kw)
    return treecorr.Catalog(rng=np.random.RandomState(3), **d)


def fargs(p, coords):
    kw = dict(min_size=p["min_size"], max_size=p["max_size"], brute=p["brute"], min_top=p["min_top"], max_top=p["max_top"])
    if p["split"]: kw["split_method"] = p["split"]
    if p["coords"] and coords == "rdr": kw["coords"] = p["coords"]
    return kw


def probe(f, cat, coords):
    """What a field answers."""
    out = [f.nTopLevelNodes]
    r = np.random.RandomState(1)
    for i in range(3):
        q = r.normal(0, 3, 3)
        if f.coords == "flat": a = [q[0], q[1], 2.5]
        elif f.coords == "3d": a = [q[0], q[1], q[2], 3.]
        else:
            import coord
            a = [coord.CelestialCoord(np.arctan2(q[1], q[0]) * coord.radians, np.arcsin(q[2] / np.sqrt((q ** 2).sum())) * coord.radians), 0.8 * coord.radians]
        out.append(f._count_near(*_xyz(a, f)) if f.min_size else f.count_near(*a))
        out.append(f.get_near(*a).tolist())
    return out


def _xyz(a, f):
    from treecorr.util import parse_xyzsep
    return parse_xyzsep(a, {}, f._coords)


def check_fields(case, ctx):
    c = case
    cat = mkcat(c["n"], c["seed"], c["coords"])
    M = {k: OrderedDict() for k in KIND}
    size = {k: 1 for k in KIND}
    act = set()
    for op, i, n in c["ops"]:
        if op == "get":
            p = c["pool"][i % len(c["pool"])]
            kw = fargs(p, c["coords"])
            f = getattr(cat, "get%sField" % p["kind"])(**kw)
            want = dict(min_size=0. if p["brute"] else float(p["min_size"]), max_size=np.inf if p["max_size"] is None else p["max_size"], split_method=p["split"] or "mean", brute=bool(p["brute"]), coords=kw.get("coords") or cat.coords)
            got = {a: getattr(f, a) for a in want}
            if got != want: fail("requested %s, got a field with %s" % (want, got))
            if type(f).__name__ != p["kind"] + "Field": fail("requested a %sField, got %s" % (p["kind"], type(f)))
            mt = p["max_top"]
            if f.max_top != mt or (p["min_top"] is not None and f.min_top != min(p["min_top"], mt)): fail("requested top levels %s..%s, got %s..%s" % (p["min_top"], mt, f.min_top, f.max_top))
            if f.cat is not cat or cat.field is not f: fail("the field does not belong to the catalog")
            key = (p["kind"], p["min_size"], p["max_size"], want["split_method"], bool(p["brute"]), p["min_top"], p["max_top"], kw.get("coords"))
            m = M[p["kind"]]
            if key in m:
                if m[key] is not f: fail("the field was built anew, although it should be cached: %s" % (key,))
                m.move_to_end(key); act.add("hit")
            else:
                if any(v is f for v in m.values()): fail("the field of other parameters was returned for %s" % (key,))
                if size[p["kind"]]:
                    m[key] = f
                    if len(m) > size[p["kind"]]: m.popitem(last=False); act.add("evict")
                if want["split_method"] != "random":
                    fresh = mkcat(c["n"], c["seed"], c["coords"])
                    g = getattr(fresh, "get%sField" % p["kind"])(**kw)
                    a, b = probe(f, cat, c["coords"]), probe(g, fresh, c["coords"])
                    if a != b: fail("the field answers %s, a fresh one %s" % (a, b))
            del f
        elif op == "resize":
            cat.resize_cache(n)
            for k in KIND: size[k] = n
        elif op == "resize1":
            k = KIND[(i * 4 + n) % 7]
            getattr(cat, k.lower() + "fields").resize(n); size[k] = n
        elif op == "clear":
            cat.clear_cache()
            for k in KIND: M[k].clear()
            if cat.field is not None: fail("cat.field is %s after clear_cache" % cat.field)
        elif op == "clear1":
            k = KIND[(i * 4 + n) % 7]
            getattr(cat, k.lower() + "fields").clear(); M[k].clear()
        elif op == "stats":
            fresh = mkcat(c["n"], c["seed"], c["coords"])
            for a in ("vark", "varg", "varz", "sumw", "ntot", "nobj"):
                if getattr(cat, a) != getattr(fresh, a): fail("%s is %s, of a fresh catalog %s" % (a, getattr(cat, a), getattr(fresh, a)))
        elif op == "copy":
            cat2 = cat.copy()
            if cat2 != cat: fail("copy differs")
            if cat2.field is not None: fail("the copy has the field of the original")
        for k in KIND:
            while len(M[k]) > size[k]: M[k].popitem(last=False); act.add("evict")
            fc = getattr(cat, k.lower() + "fields")
            if fc.size != size[k] or fc.count != len(M[k]): fail("%sField cache holds %d of %d, expected %d of %d" % (k, fc.count, fc.size, len(M[k]), size[k]))
            if set(map(id, fc.values())) != set(map(id, M[k].values())): fail("%sField cache holds other fields than expected" % k)
    ctx.tag(*act)
    if not act: ctx.trivial()


T2 = ["NN", "NN", "KK", "GG", "NG", "NK", "KG", "VV", "NZ", "QQ", "TT"]
op = st.fixed_dictionaries(dict(
    op=st.sampled_from(["corr"] * 5 + ["reuse"] * 3 + ["corr3", "field", "near", "kmeans", "kpp", "stats", "patches", "unload", "load", "resize", "clear", "sample", "cov", "centers", "assign"]), typ=st.sampled_from(T2), a=st.integers(0, 1), b=st.integers(0, 2), set=st.integers(0, 4),
    bt=st.sampled_from(["Log", "Linear", "TwoD"]), slop=st.sampled_from([None, 0, 0.5, 2., "brute", 1, 2]), metric=st.sampled_from(["", "", "", "alt", "rpar"]), split=st.sampled_from(["mean", "median", "middle", "random"]), top=st.sampled_from([None, 0, 2]),
    n=st.integers(0, 5), low=st.booleans(), fcoords=st.sampled_from([None, None, "spherical", "3d"])))
hist = st.fixed_dictionaries(dict(n=st.tuples(st.integers(1, 40), st.integers(1, 40)).map(list), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "flat", "sphere", "rdr", "3d"]), npatch=st.sampled_from([1, 1, 2, 4]), file=st.booleans(),
                                  ops=st.lists(op, min_size=2, max_size=9)))


class Shared:
    def __init__(self, case, d, fresh):
        self.case, self.d, self.fresh = case, d, fresh
        self.cats = {}
        self.corrs = {}

    def cat(self, i):
        if i in self.cats: return self.cats[i]
        c = self.case
        kw = {}
        n, s = c["n"][i], c["seed"] + 17 * i
        if c["npatch"] > 1:
            n = max(n, c["npatch"])
            kw["patch"] = np.random.RandomState(s).permutation(np.arange(n) % c["npatch"])
        cat = mkcat(n, s, c["coords"], **kw)
        if c["file"]:
            import treecorr
            fn = os.path.join(self.d, "c%d.fits" % i)
            if not os.path.exists(fn): cat.write(fn)
            kk = dict(w_col="w", k_col="k", verbose=0)
            for q in "zvgtq": kk.update({q + "1_col": q + "1", q + "2_col": q + "2"})
            if c["coords"] in ("sphere", "rdr"): kk.update(ra_col="ra", dec_col="dec", ra_units="rad", dec_units="rad")
            else: kk.update(x_col="x", y_col="y")
            if c["coords"] == "rdr": kk["r_col"] = "r"
            if c["coords"] == "3d": kk["z_col"] = "z"
            if c["npatch"] > 1: kk["patch_col"] = "patch"
            cat = treecorr.Catalog(fn, rng=np.random.RandomState(3), **kk)
        self.cats[i] = cat
        return cat


def settings(c, o):
    """Correlation parameters of an operation."""
    S = [dict(min_sep=0.5, max_sep=8., nbins=4), dict(min_sep=0.05, max_sep=2., nbins=3), dict(min_sep=2., max_sep=20., nbins=6), dict(min_sep=4., max_sep=6., nbins=1), dict(min_sep=0.5, max_sep=8., nbins=2)][o["set"]]
    kw = dict(S)
    if c["coords"] == "sphere" or (c["coords"] == "rdr" and o["metric"] == "alt" and o["n"] % 2): kw["min_sep"] *= 0.09; kw["max_sep"] *= 0.09
    kw["bin_type"] = o["bt"] if o["bt"] != "TwoD" or c["coords"] == "flat" else "Log"
    if kw["bin_type"] == "TwoD": del kw["min_sep"]
    kw["verbose"] = 0
    if o["slop"] == "brute": kw["brute"] = True
    elif o["slop"] in (1, 2) and isinstance(o["slop"], int): kw["brute"] = o["slop"]
    elif o["slop"] is not None: kw["bin_slop"] = o["slop"]
    kw["split_method"] = o["split"]
    if o["top"] is not None: kw.update(min_top=0, max_top=o["top"])
    m = None
    if o["metric"] and kw["bin_type"] != "TwoD":
        if c["coords"] == "sphere": m = "Arc"
        elif c["coords"] == "rdr": m = "Arc" if o["n"] % 2 else ["Rperp", "OldRperp", "FisherRperp"][o["n"] // 2]
        else: m = "Periodic"; kw["period"] = 50.
        if o["metric"] == "rpar" and c["coords"] in ("rdr", "3d") and m not in ("Arc", "Periodic"): kw.update(min_rpar=-2., max_rpar=5.)
    return kw, m


def corr_args(W, o):
    a = W.cat(o["a"])
    auto = o["typ"][0] == o["typ"][1] and (o["b"] == 2 or o["b"] == o["a"])
    if auto: return [a]
    return [a, W.cat(o["b"] % 2)]


def digest(c, names):
    out = {}
    for k in names: out[k] = np.array(getattr(c, k), copy=True)
    return out


def random_tree(c, o):
    return o["split"] == "random"


def run_op(W, o, ctx, prelude):
    """Execute; the results as a dictionary of arrays."""
    import treecorr
    c = W.case
    op = o["op"]
    if op in ("corr", "reuse", "cov"):
        kw, m = settings(c, o)
        cls = gen.corr_class(o["typ"])
        if op == "reuse":
            # one object, used again and again
            key = (o["typ"], o["set"], kw["bin_type"], "rpar" if "min_rpar" in kw else "")
            if key not in W.corrs: W.corrs[key] = cls(**kw)
            corr = W.corrs[key]
            if W.fresh: pass
        else: corr = cls(**kw)
        ar = corr_args(W, o)
        pk = dict(num_threads=1)
        if m: pk["metric"] = m
        if o["low"]: pk["low_mem"] = True
        with np.errstate(all="ignore"): corr.process(*ar, **pk)
        names = ["npairs", "weight", "meanr", "meanlogr"] + ([] if o["typ"] == "NN" else cmp.xi_names(o["typ"])) + (["tot"] if o["typ"] == "NN" else ["varxi" if hasattr(corr, "varxi") else "varxip"])
        out = digest(corr, names)
        if op == "cov" and c["npatch"] > 1:
            try: out["cov"] = corr.estimate_cov("jackknife")
            except (RuntimeError, ValueError) as e: out["cov"] = np.array(hash(type(e).__name__) % 1000 * 1.)
        if op in ("cov", "corr") and o["typ"] == "NN": pass
        return out
    if op == "corr3":
        a = W.cat(o["a"])
        if a.nobj > 14 or c["coords"] == "rdr": return {}
        bt = ["LogRUV", "LogSAS", "LogMultipole"][o["n"] % 3]
        kw = dict(min_sep=0.5, max_sep=8., nbins=2, bin_type=bt, verbose=0, split_method="mean")
        if bt == "LogRUV": kw.update(nubins=2, nvbins=2)
        elif bt == "LogSAS": kw.update(nphi_bins=3)
        else: kw.update(max_n=2)
        if c["coords"] == "sphere": kw.update(min_sep=0.05, max_sep=0.7)
        if o["slop"] in (0, None, 0.5, 2.): kw["bin_slop"] = o["slop"] or 0.
        k3 = treecorr.KKKCorrelation(**kw)
        with np.errstate(all="ignore"): k3.process(a, num_threads=1, metric="Arc" if c["coords"] == "sphere" else None)
        return digest(k3, ["ntri", "weight", "zeta"])
    a = W.cat(o["a"])
    if op in ("field", "near"):
        kw = dict(min_size=[0, 0, 0.5][o["set"] % 3], max_size=[None, 1.5][o["n"] % 2], split_method=o["split"], brute=o["slop"] == "brute", min_top=0, max_top=o["top"] or 0)
        if c["coords"] == "rdr": kw["coords"] = o["fcoords"]
        f = getattr(a, "get%sField" % o["typ"][1])(**kw)
        if random_tree(c, o) and f.min_size: return {}
        p = probe(f, a, c["coords"])
        if random_tree(c, o): p = p[2:]
        return dict(probe=np.array([repr(p)]))
    if op in ("kmeans", "kpp"):
        if a.nobj < 4: return {}
        f = a.getNField(max_top=3, split_method="mean", coords=o["fcoords"] if c["coords"] == "rdr" else None)
        lab, cen = f.run_kmeans(min(3, a.nobj), init="kmeans++" if op == "kpp" else "tree", rng=np.random.RandomState(o["n"]))
        return dict(labels=lab, centers=cen)
    if op == "assign":
        f = a.getKField(min_top=0, max_top=2, split_method="mean")
        cen = np.random.RandomState(o["n"]).normal(0, 3, (3, 2 if c["coords"] == "flat" else 3))
        if c["coords"] == "sphere": cen /= np.sqrt((cen ** 2).sum(axis=1))[:, None]
        return dict(labels=f.kmeans_assign_patches(cen))
    if op == "stats": return dict(stats=np.array([a.vark, a.varg, a.varz, a.varv, a.vart, a.varq, a.sumw, a.nobj, a.ntot], float))
    if op == "centers": return dict(cen=a.get_patch_centers())
    if op == "patches":
        ps = a.get_patches(low_mem=o["low"])
        return dict(n=np.array([p.ntot for p in ps]), x=np.concatenate([p.k for p in ps]))
    if op == "sample":
        kw, m = settings(c, o)
        if random_tree(c, o): return {}
        corr = treecorr.NNCorrelation(rng=np.random.RandomState(o["n"]), **kw)
        mx = kw["max_sep"]
        i1, i2, sep = corr.sample_pairs(5, a, W.cat(o["b"] % 2), min_sep=mx * 0.3, max_sep=mx * 0.8, metric=m or "Euclidean")
        return dict(i1=i1, i2=i2, sep=sep)
    if W.fresh: return {}
    if op == "unload": a.unload()
    if op == "load": a.load()
    if op == "resize": a.resize_cache(o["n"])
    if op == "clear": a.clear_cache()
    return {}


def check_hist(case, ctx):
    c = case
    d = ctx.tmp()
    W = Shared(c, d, False)
    done = 0
    nontriv = False
    for o in c["ops"]:
        ctx.tag(o["op"])
        out, exc = {}, None
        try: out = run_op(W, o, ctx, done)
        except Exception as e: exc = e
        if o["op"] not in ("unload", "load", "resize", "clear"):
            F = Shared(c, d, True)
            want, wexc = {}, None
            try: want = run_op(F, o, ctx, done) if o["op"] != "reuse" else run_reuse(F, W, o, ctx)
            except Exception as e: wexc = e
            if type(exc) is not type(wexc) or str(exc) != str(wexc): fail("%s: %r on the used catalogs, %r on fresh ones" % (o["op"], exc, wexc))
            for k in want:
                x, y = np.asarray(out[k]), np.asarray(want[k])
                if x.dtype.kind in "US": same = np.array_equal(x, y)
                elif random_tree(c, o) and o["op"] in ("corr", "reuse", "cov"):
                    if o["slop"] not in (0, "brute") or isinstance(o["slop"], float) or o["typ"] not in ("NN", "KK", "NK") or k == "cov" or k not in ("npairs", "weight"): continue
                    if o["slop"] == 0 and c["coords"] != "flat": continue
                    same = np.allclose(x, y, rtol=1e-9)
                elif c["npatch"] > 1 and x.dtype.kind in "fc" and x.shape == y.shape and k not in ("npairs", "ntri"):      # (may use several threads)
                    sc = np.abs(y[np.isfinite(y)]).max() if np.isfinite(y).any() else 0.
                    same = np.allclose(x, y, rtol=1e-9, atol=1e-9 * max(sc, 1e-3), equal_nan=True)
                else: same = np.array_equal(x, y, equal_nan=True)
                if not same: fail("%s %s: %s is\n%s\non the used catalogs, but\n%s\non fresh ones" % (o["op"], o["typ"], k, x, y))
            if done >= 1 and any(np.asarray(v).size and np.asarray(v).dtype.kind in "fi" and np.any(np.asarray(v) != 0) for v in want.values()): nontriv = True
        done += 1
    if not nontriv: ctx.trivial()


def run_reuse(F, W, o, ctx):
    """The same operation with a new correlation object.  It has the parameters of the reused one."""
    c = W.case
    kw, m = settings(c, o)
    key = (o["typ"], o["set"], kw["bin_type"], "rpar" if "min_rpar" in kw else "")
    old = W.corrs[key]
    F.corrs[key] = old.__class__(**old.config)
    F.corrs[key].config = dict(old.config)
    return run_op(F, o, ctx, 0)


SUBS = [Sub("lru", lru, check_lru, quick=4000, thorough=60000),
        Sub("fields", fields, check_fields, quick=1500, thorough=25000),
        Sub("history", hist, check_hist, quick=900, thorough=15000)]
