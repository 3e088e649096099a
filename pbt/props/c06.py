"""C06: results do not depend on how the computation is executed."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail
from props.c05 import setup

RULE = ("exact: a correlation with zero slop is evaluated several times with different row orders, splitting methods, tree depths, "
        "brute-force flags and thread counts; counts must agree exactly and sums to rounding.  threads: a correlation with slop "
        "on 50..1500 objects and 3-point correlations on 20..80 objects evaluated with 1..8 threads and repeatedly on one tree.  "
        "Non-trivial: at least one counted pair/triangle.")
ASSUMPTIONS = ["thread interleavings are sampled by repetition, not enumerated", "tree-cell sums are single precision (3e-6)"]

TYPES = ["NN", "KK", "NK", "NG", "GG", "KG", "VV", "NV", "TT", "QQ", "ZZ", "NZ", "KQ"]
variant = st.fixed_dictionaries(dict(
    split=st.sampled_from(["mean", "median", "middle", "random"]), maxtop=st.sampled_from([0, 1, 3, 6, 10, None]),
    mintop=st.sampled_from([0, 0, 1, 4, 12]), brute=st.sampled_from([None, None, None, True, 1, 2]), threads=st.sampled_from([None, 1, 2, 3, 4, 8, -1]),
    perm=st.integers(0, 5), via=st.sampled_from(["config", "arg", "set"]),
))

exact_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), c1=gen.cat_spec(150, 2, wmodes=["none", "uniform", "wide", "zeros"]), c2=gen.cat_spec(150, 2, wmodes=["none", "uniform", "wide"]),
    typ=st.sampled_from(TYPES), auto=st.booleans(), bins=gen.bins_spec(), vs=st.lists(variant, min_size=2, max_size=4), metric=st.sampled_from(["Euclidean", "Euclidean", "alt"]),
))


def subset(d, idx):
    return {k: (v[idx] if isinstance(v, np.ndarray) else v) for k, v in d.items()}


def run_exact(case, ctx):
    import treecorr
    geo = case["geo"]
    typ = case["typ"]
    c = dict(case, split="mean", slop=0, aslop=0., maxtop=None, brute=None)
    geo, d1, d2, b, bk, kw, metric, period = setup(c)
    if metric == "Periodic" and max(ref2.SPIN[typ[0]], ref2.SPIN[typ[1]]) > 0:
        raise Skip("projections with periodic boundaries")
    auto = case["auto"] and typ[0] == typ[1]
    if not (ref2.wts(d1) != 0).any():
        raise Skip("no live objects")
    B = ref2.Binner(**bk)
    R = ref2.corr2(typ if max(ref2.SPIN[typ[0]], ref2.SPIN[typ[1]]) == 0 else typ, d1, None if auto else d2, B, metric=metric, period=period, tol=3e-7)
    if R["amb"]:
        raise Skip("ambiguous")
    if not R["npairs"].any():
        ctx.trivial("no pairs")
    f1, f2 = gen.fields_of(typ)
    first = None
    ctx.tag(typ, geo["coords"], b["bin_type"], metric, "auto" if auto else "cross")
    for v in case["vs"]:
        k = dict(kw, split_method=v["split"], min_top=v["mintop"])
        if v["maxtop"] is not None:
            k["max_top"] = v["maxtop"]
            k["min_top"] = min(v["mintop"], v["maxtop"])
        elif v["mintop"] > 10:
            k["max_top"] = v["mintop"]
        if v["brute"]:
            k["brute"] = v["brute"]
        p1, p2 = np.arange(d1["n"]), np.arange(d2["n"])
        if v["perm"]:
            rs = np.random.RandomState(v["perm"])
            p1, p2 = rs.permutation(p1), rs.permutation(p2)
        a = [gen.catalog(subset(d1, p1), f1)]
        if not auto:
            a.append(gen.catalog(subset(d2, p2), f2))
        t = v["threads"]
        if t is not None and v["via"] == "config":
            k["num_threads"] = t
        x = gen.corr_class(typ)(**k)
        if t is not None and v["via"] == "set":
            treecorr.set_omp_threads(t if t > 0 else 2)
        x.process(*a, **(dict(num_threads=t) if t is not None and v["via"] == "arg" else {}))
        ctx.tag("threads=%s" % t, v["split"])
        cmp.eq("npairs vs reference %s" % v, x.npairs.ravel(), R["npairs"])
        if first is None:
            first = x
            continue
        cmp.eq("npairs", x.npairs, first.npairs, str(v))
        cmp.close("weight", x.weight, first.weight, 1e-9, None, str(v))
        for nm in cmp.xi_names(typ):
            if auto and nm == "xip_im" and x.bin_type != "TwoD":
                continue
            sc = R["absf"].reshape(x.npairs.shape) / np.where(x.weight == 0, 1, x.weight)
            cmp.close(nm, getattr(x, nm), getattr(first, nm), 6e-6, sc, str(v), atol=1e-12)
        cmp.close("varxi" if hasattr(x, "varxi") else "varxip", getattr(x, "varxi", None) if hasattr(x, "varxi") else x.varxip,
                  getattr(first, "varxi", None) if hasattr(x, "varxi") else first.varxip, 1e-9, None, str(v)) if typ != "NN" else None


thr2 = st.fixed_dictionaries(dict(
    geo=gen.geom(), c1=gen.cat_spec(1500, 50, wmodes=["none", "uniform", "wide"]), c2=gen.cat_spec(800, 50, wmodes=["none", "uniform"]),
    typ=st.sampled_from(TYPES), auto=st.booleans(), bins=gen.bins_spec(), slop=st.sampled_from([None, 0.1, 1.0]), aslop=st.sampled_from([None, 0.3]),
    maxtop=st.sampled_from([None, None, 0, 2, 5]), metric=st.sampled_from(["Euclidean", "Euclidean", "alt"]), split=st.sampled_from(["mean", "median", "middle"]),
    brute=st.just(None), ts=st.lists(st.sampled_from([1, 2, 3, 4, 5, 8, 8]), min_size=2, max_size=5), fresh=st.booleans(),
))


def run_thr2(case, ctx):
    geo, d1, d2, b, bk, kw, metric, period = setup(case)
    typ = case["typ"]
    auto = case["auto"] and typ[0] == typ[1]
    f1, f2 = gen.fields_of(typ)
    if not (ref2.wts(d1) != 0).any():
        raise Skip("no live objects")
    mk = lambda: [gen.catalog(d1, f1)] + ([] if auto else [gen.catalog(d2, f2)])
    a = mk()
    first = None
    ctx.tag(typ, b["bin_type"], "auto" if auto else "cross")
    x = gen.corr_class(typ)(**kw)
    for t in [1] + case["ts"]:
        if case["fresh"]:
            a = mk()
            x = gen.corr_class(typ)(**kw)
        x.process(*a, num_threads=t)
        res = {k: np.array(getattr(x, k)) for k in ["npairs", "weight", "meanr", "meanlogr"] + cmp.xi_names(typ)}
        if first is None:
            first = res
            if not res["npairs"].any():
                ctx.trivial("no pairs")
            continue
        for k in res:
            if k in ("npairs",):
                cmp.eq(k, res[k], first[k], "threads=%s" % t)
            else:
                live = (first["weight"] > 0) if k.startswith("x") or k.startswith("mean") else np.ones(first["weight"].shape, bool)
                cmp.close(k, res[k][live], first[k][live], 1e-9, 1. if k != "weight" else None, "threads=%s" % t)


thr3 = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["flat", "sphere", "3d"]), c1=gen.cat_spec(60, 8, wmodes=["none", "uniform"]), c2=gen.cat_spec(30, 5, wmodes=["none"]), c3=gen.cat_spec(30, 5, wmodes=["none"]),
    typ=st.sampled_from(["NNN", "KKK", "GGG"]), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]),
    ncat=st.integers(1, 3), nbins=st.integers(1, 4), fm=st.sampled_from([0.3, 1.0]), ts=st.lists(st.sampled_from([2, 3, 4, 8]), min_size=1, max_size=3),
    maxtop=st.sampled_from([None, 2, 4]), slop=st.sampled_from([None, 0., 1.0]),
))


def run_thr3(case, ctx):
    import treecorr
    geo = case["geo"]
    typ = case["typ"]
    if typ == "GGG" and geo["coords"] == "3d":
        geo = dict(geo, coords="flat")
    ds = [gen.make(case["c%d" % i], geo) for i in (1, 2, 3)]
    ext = gen.sky_extent(geo)
    mx = ext * case["fm"] if geo["coords"] != "sphere" else min(ext * case["fm"], 1.9)
    kw = dict(bin_type=case["bt"], min_sep=0.05 * mx, max_sep=mx, nbins=case["nbins"])
    if case["bt"] == "LogRUV": kw.update(nubins=3, nvbins=3)
    if case["bt"] == "LogSAS": kw.update(nphi_bins=5)
    if case["bt"] == "LogMultipole": kw.update(max_n=4)
    if case["slop"] is not None: kw["bin_slop"] = case["slop"]
    if case["maxtop"] is not None: kw.update(max_top=case["maxtop"], min_top=0)
    cls = getattr(treecorr, typ + "Correlation")
    fs = gen.fields_of(typ)
    cats = [gen.catalog(d, f) for d, f in zip(ds, fs)]
    a = cats[:case["ncat"]]
    first = None
    algo = {}
    for t in [1] + case["ts"]:
        x = cls(**kw)
        x.process(*a, num_threads=t, **algo)
        res = {k: np.array(v) for k, v in x.__dict__.items() if isinstance(v, np.ndarray)}
        if first is None:
            first = res
            ctx.tag(typ, case["bt"], "%dcat" % len(a))
            if not np.any(res["ntri"]):
                ctx.trivial("no triangles")
            continue
        # Bins whose weight is rounding noise (e.g. only coincident objects, whose contributions cancel) have no defined ratio.
        W = np.abs(first["weightr"])
        dead = W < 1e-9 * max(1., W.max(initial=0.)) if case["bt"] != "LogMultipole" else np.zeros(W.shape, bool)
        for k in res:
            g, w = res[k], first[k]
            if g.shape == dead.shape:
                g, w = g[~dead], w[~dead]
            if not g.size:
                continue
            ok = np.isclose(g, w, rtol=1e-8, atol=1e-9 * max(1., np.nanmax(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 1.), equal_nan=True)
            if not ok.all():
                fail("%s depends on the number of threads (%d): %s vs %s" % (k, t, g[~ok][:5], w[~ok][:5]))


SUBS = [Sub("exact", exact_st, run_exact, quick=2500), Sub("threads2", thr2, run_thr2, quick=1600), Sub("threads3", thr3, run_thr3, quick=1000)]
