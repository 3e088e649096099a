"""C08: splitting catalogs into patches never changes a two-point result."""
import os
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("Catalogs of 1..40 objects, an arbitrary patch assignment for one or both (random, spatial, one object per patch, gaps, k-means, "
        "centers, lists of catalogs), a metric, a bin specification and a way of organising the computation (global/local, low memory, "
        "patches in files) are drawn; the patched result is compared with the unpatched one.  Non-trivial: at least one counted pair and "
        "at least two patches.")
ASSUMPTIONS = ["local auto-correlations count each pair from both sides (as the repository's own tests assert)",
               "tree mode is compared with the direct sum and only for Euclidean distances; other metrics use brute force on both sides"]
TYPES = ["NN", "NN", "NK", "KK", "NZ", "KZ", "ZZ", "NG", "KG", "GG", "NV", "VV", "KT", "TT", "NQ", "QQ"]
COMBOS = [("Euclidean", "flat"), ("Euclidean", "flat"), ("Euclidean", "sphere"), ("Euclidean", "sphere"), ("Euclidean", "3d"), ("Euclidean", "rdr"), ("Arc", "sphere"), ("Arc", "rdr"),
          ("Rperp", "rdr"), ("Rperp", "3d"), ("OldRperp", "rdr"), ("Rlens", "rdr"), ("Rlens", "3d"), ("Periodic", "flat"), ("Periodic", "3d")]
PM = ["none", "rand", "rand", "spatial", "spatial", "one", "gap", "kmeans", "centers", "list"]


def strat(nmax):
    return st.fixed_dictionaries(dict(
        typ=st.sampled_from(TYPES), auto=st.booleans(), combo=st.integers(0, len(COMBOS) - 1), geo=gen.geom(),
        c1=gen.cat_spec(nmax), c2=gen.cat_spec(nmax), bins=gen.bins_spec(nbmax=6), tree=st.integers(0, 3), maxtop=st.sampled_from([0, 3, None]),
        pm1=st.sampled_from(PM), pm2=st.sampled_from(PM), npatch=st.integers(1, 6), pseed=st.integers(0, 1000),
        local=st.booleans(), rpar=st.integers(0, 3),
    ))


def patch_ids(d, mode, npatch, seed):
    n = d["n"]
    rs = np.random.RandomState(seed)
    if mode in ("rand", "gap"):
        p = rs.randint(0, npatch, 4096)[:n]
        if mode == "gap":
            p = np.where(p == npatch // 2, (npatch // 2 + 1) % npatch, p)
    elif mode == "spatial":
        x = ref2.cart(d)[:, 0]
        p = np.argsort(np.argsort(x, kind="stable"), kind="stable") * npatch // n
    elif mode == "one":
        p = np.arange(n) % max(npatch, 1) if n > 8 else np.arange(n)
    else:
        p = np.zeros(n, int)
    return p


def build(d, fields, mode, npatch, seed, centers=None, extra=None):
    """Returns (what to pass to process, number of patches or None if unpatched)."""
    import treecorr
    kw = gen.catkw(d, fields)
    kw.update(verbose=0)
    kw.update(extra or {})
    n = d["n"]
    if mode == "none" or npatch < 2:
        return treecorr.Catalog(**kw), None
    if mode == "kmeans":
        if (ref2.wts(d) != 0).sum() < 2 * npatch:
            mode = "rand"
        else:
            return treecorr.Catalog(npatch=npatch, rng=np.random.RandomState(seed), **kw), npatch
    if mode == "centers":
        rs = np.random.RandomState(seed)
        xyz = ref2.cart(d)
        cen = np.array([xyz[i % n] for i in rs.randint(0, 4096, npatch)])
        if d["coords"] == "rdr":
            cen = gen.unit(cen)
        cen = cen + 0.01 * np.abs(xyz).max() * (rs.random_sample(cen.shape) - 0.5)
        if d["coords"] in ("sphere", "rdr"):
            cen = gen.unit(cen)
        return treecorr.Catalog(patch_centers=cen, **kw), npatch
    p = patch_ids(d, mode, npatch, seed)
    if mode == "list":
        p = patch_ids(d, "rand", npatch, seed)
        out = []
        for i in range(npatch):
            s = p == i
            if s.any() and (ref2.wts(d)[s] != 0).any():
                out.append(treecorr.Catalog(**{k: (v[s] if isinstance(v, np.ndarray) else v) for k, v in kw.items()}))
        return out, len(out)
    return treecorr.Catalog(patch=p, **kw), int(p.max()) + 1


def compare(x, y, typ, auto, what, f=1., tol=1e-9, tot=True, R=None):
    """x: patched, y: unpatched; all pair sums of x should be f times those of y."""
    cmp.eq("npairs", x.npairs, y.npairs * f, what)
    aw = np.abs(y.weight)
    cmp.close("weight", x.weight, y.weight * f, 1e-12, aw.max(initial=0.), what)
    cmp.close("meanr", x.meanr, y.meanr, 1e-7, None, what)
    cmp.close("meanlogr", x.meanlogr, y.meanlogr, 1e-7, 1., what)
    for nm in cmp.xi_names(typ):
        if auto and nm == "xip_im" and x.bin_type != "TwoD":
            continue
        cmp.close(nm, getattr(x, nm), getattr(y, nm), tol, 1., what)
    if typ == "NN":
        if tot:
            cmp.close("tot", x.tot, y.tot * f, 1e-12, None, what)
    else:
        for v in ("varxi", "varxip", "varxim"):
            if hasattr(y, v):
                cmp.close(v, getattr(x, v), getattr(y, v) / f, 1e-6, None, what)


def setup(case):
    metric, co = COMBOS[case["combo"]]
    geo = dict(case["geo"], coords=co)
    typ = case["typ"]
    if metric == "Periodic" and typ not in ("NN", "NK", "KK", "NZ", "KZ", "ZZ"):
        typ = "KK"
    auto = case["auto"] and typ[0] == typ[1] and metric != "Rlens"
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    b = case["bins"]
    if b["bin_type"] == "TwoD" and (co != "flat" or metric != "Euclidean"):
        b = dict(b, bin_type="Log")
    bk = gen.bins_kw(b, geo)
    kw = dict(bk)
    if metric != "Euclidean":
        kw["metric"] = metric
    if metric == "Periodic":
        per = 1.37 * geo["scale"]
        kw["period"] = per
        for d in (d1, d2):
            for c in ("x", "y", "zpos"):
                if c in d: d[c] = np.mod(d[c], per)
        if kw["max_sep"] >= 0.5 * per:
            kw["min_sep"] *= 0.49 * per / kw["max_sep"]
            kw["max_sep"] = 0.49 * per
    if co in ("rdr", "3d") and metric in ("Rperp", "OldRperp", "Rlens") and case["rpar"] == 0:
        kw["min_rpar"] = -0.3 * gen.sky_extent(geo)
        kw["max_rpar"] = 0.3 * gen.sky_extent(geo)
    if co == "rdr" and geo["sky"] == "anti" and metric in ("Rperp", "OldRperp", "Rlens"):
        # projected separations are only meaningful well below 180 degrees
        raise Skip("antipodal objects with a projected metric")
    if co in ("rdr", "3d"):
        for d in (d1, d2):
            if (np.sqrt((ref2.cart(d) ** 2).sum(axis=1)).min() < 1e-3 * geo["scale"]):
                raise Skip("object at the observer")
    if not (ref2.wts(d1) != 0).any() or not (ref2.wts(d2) != 0).any():
        raise Skip("no live objects")
    return metric, co, geo, typ, auto, d1, d2, b, bk, kw


def edges(metric, d1, d2, bk, kw):
    """Skip cases with a pair within rounding of a bin edge or limit (cells of coincident objects are averaged)."""
    if "period" in kw:
        bk = dict(bk, min_sep=kw["min_sep"], max_sep=kw["max_sep"]) if "min_sep" in kw else bk
    R = ref2.corr2("NN", d1, d2, ref2.Binner(**bk), metric=metric, period=[kw["period"]] * 3 if "period" in kw else None,
                   minrpar=kw.get("min_rpar"), maxrpar=kw.get("max_rpar"), tol=1e-9)
    if R["amb"]:
        raise Skip("ambiguous")


def run(case, ctx):
    metric, co, geo, typ, auto, d1, d2, b, bk, kw = setup(case)
    tree = case["tree"] == 0 and metric == "Euclidean"
    if tree:
        R = ref2.corr2(typ, d1, None if auto else d2, ref2.Binner(**bk), tol=3e-7)
        if R["amb"]:
            raise Skip("ambiguous")
        kw.update(bin_slop=0, angle_slop=0., min_top=0)
    else:
        edges(metric, d1, None if auto else d2, bk, kw)
        kw.update(brute=True)
    if case["maxtop"] is not None:
        kw.update(max_top=case["maxtop"], min_top=0)
    f1, f2 = gen.fields_of(typ)
    cls = gen.corr_class(typ)
    y = cls(**kw)
    if auto:
        y.process(gen.catalog(d1, f1))
    else:
        y.process(gen.catalog(d1, f1), gen.catalog(d2, f2))
    c1, n1 = build(d1, f1, case["pm1"], case["npatch"], case["pseed"])
    c2, n2 = (None, None) if auto else build(d2, f2, case["pm2"], case["npatch"], case["pseed"] + 1)
    if n1 is not None and n2 is not None and n1 != n2 and n1 != 1 and n2 != 1:
        raise Skip("different patch sets are refused")
    if (n1 or 1) < 2 and (n2 or 1) < 2:
        ctx.trivial("one patch")
    local = case["local"]
    x = cls(**kw)
    x.process(c1, c2, patch_method="local" if local else "global")
    if not y.npairs.any():
        ctx.trivial("no pairs")
    ctx.tag(typ, metric + "/" + co, b["bin_type"], "auto" if auto else "cross", "local" if local else "global", "tree" if tree else "brute",
            "p1=" + case["pm1"], "p2=" + ("-" if auto else case["pm2"]))
    patched = (n1 or 1) > 1 or (n2 or 1) > 1
    f = 2. if local and auto and (n1 or 1) > 1 and kw["bin_type"] != "TwoD" else 1.
    spin = not (set(typ) <= set("NKZ"))
    compare(x, y, typ, auto, "(%s)" % ("local" if local else "global"), f, tol=6e-6 if tree else (1e-7 if spin else 1e-9))
    # the saved pair results add up to the total
    if x.results:
        z = cls(**kw)
        for r in x.results.values():
            z += r
        cmp.close("sum of per-pair npairs", z.npairs, x.npairs, 1e-12)
        cmp.close("sum of per-pair weights", z.weight, x.weight, 1e-12, np.abs(x.weight).max(initial=0.))
        if typ == "NN":
            cmp.close("sum of per-pair tot", z.tot, x.tot, 1e-12)
        else:
            w = np.where(x.weight == 0, 1., x.weight)
            for nm in cmp.xi_names(typ):
                cmp.close("sum of per-pair " + nm, getattr(z, nm) / w, np.where(x.weight == 0, 0., getattr(x, nm)), 1e-9, 1.)
    elif patched and y.npairs.any() and (not isinstance(c1, list) or len(c1) > 1):
        fail("no per-pair results were saved")


STORE = ["mem", "fits", "fits", "hdf", "memsave", "memsave", "fitssave", "hdfsave", "parts"]
EXT = dict(ascii=".dat", fits=".fits", hdf=".hdf5")


def fstrat(nmax):
    return st.fixed_dictionaries(dict(
        typ=st.sampled_from(TYPES), auto=st.booleans(), combo=st.integers(0, len(COMBOS) - 1), geo=gen.geom(),
        c1=gen.cat_spec(nmax), c2=gen.cat_spec(nmax), bins=gen.bins_spec(nbmax=6), maxtop=st.sampled_from([0, None]),
        pm1=st.sampled_from(["none", "rand", "gap", "spatial", "kmeans", "centers"]), pm2=st.sampled_from(["none", "rand", "rand", "gap", "spatial", "centers"]),
        st1=st.sampled_from(STORE), st2=st.sampled_from(STORE), npatch=st.integers(1, 5), pseed=st.integers(0, 1000),
        local=st.booleans(), rpar=st.just(1), lowmem=st.sampled_from([True, True, False]), unload=st.booleans(), cfile=st.booleans(), bogus=st.booleans(),
    ))


# (ASCII numbers are not read back exactly by pandas, so they are left to the properties about files.)
def store(d, fields, mode, npatch, seed, how, tmp, tag, cfile):
    """Make the patched catalog, arrange the data on disk as requested and return (thing to process, number of patches)."""
    import treecorr
    base, n = build(d, fields, mode, npatch, seed)
    if how == "mem" or (n is None and how == "memsave") or ((n or 1) == 1 and how == "parts"):
        return base, n
    if how == "memsave":
        base, n = build(d, fields, mode, npatch, seed, extra=dict(save_patch_dir=os.path.join(tmp, tag)))
        os.makedirs(os.path.join(tmp, tag), exist_ok=True)
        return base, n
    fmt = "fits" if how == "parts" else how.replace("save", "")
    fn = os.path.join(tmp, tag + EXT[fmt])
    if how == "parts":
        out = []
        for p in base.get_patches():
            i = p._single_patch
            f = os.path.join(tmp, "%s_part%d.fits" % (tag, i))
            p.ra_units = p.dec_units = 1.
            p.write(f)
            kw = colkw(d, fields, None)
            out.append(treecorr.Catalog(f, patch=i, npatch=n, verbose=0, **kw))
        return out, n
    cols = base.write(fn)
    names = None if fmt != "ascii" else cols
    kw = colkw(d, fields, names)
    kw["verbose"] = 0
    if how.endswith("save"):
        kw["save_patch_dir"] = os.path.join(tmp, tag)
        os.makedirs(kw["save_patch_dir"], exist_ok=True)
    if n is not None:
        if mode == "centers":
            if cfile:
                cf = os.path.join(tmp, tag + "_cen.dat")
                base.write_patch_centers(cf)
                kw["patch_centers"] = cf
            else:
                kw["patch_centers"] = base._centers
        elif mode == "kmeans" and cfile and d["n"] >= 2 * npatch and (ref2.wts(d) != 0).sum() >= 2 * npatch:
            kw["npatch"] = n
            kw["rng"] = np.random.RandomState(seed)
        else:
            kw["patch_col"] = "patch" if names is None else cols.index("patch") + 1
            kw["npatch"] = n
    return treecorr.Catalog(fn, **kw), n


def colkw(d, fields, names):
    cols = dict(flat=["x", "y"], sphere=["ra", "dec"], rdr=["ra", "dec", "r"])
    cols["3d"] = ["x", "y", "z"]
    c = list(cols[d["coords"]])
    if d["w"] is not None and (d["w"] != 1).any():
        c.append("w")
    elif d["w"] is not None:
        c.append("w")
    for f in fields:
        c += ["k"] if f == "k" else [f + "1", f + "2"]
    kw = {x + "_col": (x if names is None else names.index(x) + 1) for x in c}
    if "ra_col" in kw:
        kw.update(ra_units="rad", dec_units="rad")
    return kw


def frun(case, ctx):
    metric, co, geo, typ, auto, d1, d2, b, bk, kw = setup(dict(case, rpar=case["rpar"]))
    edges(metric, d1, None if auto else d2, bk, kw)
    kw.update(brute=True)
    if case["maxtop"] is not None:
        kw.update(max_top=case["maxtop"], min_top=0)
    f1, f2 = gen.fields_of(typ)
    cls = gen.corr_class(typ)
    y = cls(**kw)
    if auto:
        y.process(gen.catalog(d1, f1))
    else:
        y.process(gen.catalog(d1, f1), gen.catalog(d2, f2))
    tmp = ctx.tmp()
    c1, n1 = store(d1, f1, case["pm1"], case["npatch"], case["pseed"], case["st1"], tmp, "a", case["cfile"])
    c2, n2 = (None, None) if auto else store(d2, f2, case["pm2"], case["npatch"], case["pseed"] + 1, case["st2"], tmp, "b", case["cfile"])
    if n1 is not None and n2 is not None and n1 != n2 and n1 != 1 and n2 != 1:
        raise Skip("different patch sets are refused")
    if (n1 or 1) < 2 and (n2 or 1) < 2:
        ctx.trivial("one patch")
    if not y.npairs.any():
        ctx.trivial("no pairs")
    for c, how, pm in ((c1, case["st1"], case["pm1"]), (c2, case["st2"], case["pm2"])):
        # known finding: low_mem with patch_centers cannot skip patches without objects (see known_findings.json)
        if not isinstance(c, list) and c is not None and pm in ("centers", "kmeans") and how.replace("save", "") in EXT and case["lowmem"] and c.npatch > 1:
            empty = len(set(c.patch)) < c.npatch
            c.unload()
            if empty and not case.get("strict"):
                raise Skip("known finding: empty patch with patch_centers and low_mem")
    local = case["local"]
    ctx.tag(typ, metric + "/" + co, "auto" if auto else "cross", "local" if local else "global", "low_mem" if case["lowmem"] else "all in memory",
            "%s/%s" % (case["pm1"], case["st1"]))
    x = cls(**kw)
    f = 2. if local and auto and (n1 or 1) > 1 and kw["bin_type"] != "TwoD" else 1.
    spin = not (set(typ) <= set("NKZ"))
    first = None
    for rep in range(2):
        what = "(%s, low_mem=%s, run %d)" % ("local" if local else "global", case["lowmem"], rep + 1)
        x.process(c1, c2, patch_method="local" if local else "global", low_mem=case["lowmem"])
        compare(x, y, typ, auto, what, f, tol=1e-7 if spin else 1e-9)
        if first is None:
            first = x.copy()
        else:
            if set(first.results) != set(x.results):
                fail("the second run saved results for pairs %s, the first for %s" % (sorted(x.results), sorted(first.results)))
            for ij in first.results:
                cmp.close("weight of %s in the second run" % (ij,), x.results[ij].weight, first.results[ij].weight, 1e-12, np.abs(x.weight).max(initial=0.))
        if case["unload"] and not isinstance(c1, list):
            c1.unload()
            if c2 is not None and not isinstance(c2, list):
                c2.unload()


SUBS = [Sub("mem", strat(40), run, quick=6000), Sub("file", fstrat(16), frun, quick=1600)]
