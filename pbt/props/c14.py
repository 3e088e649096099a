"""C14: saved correlation results read back to the same object."""
import os
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("A correlation (type, binning, metric, units, options, patches, randoms) is computed, written in one of the three formats with drawn options (precision, patch results, covariance) "
        "and read back by from_file of its class, of the base class, by read into a fresh object and by read into an object used for something else.  All result arrays, the binning "
        "attributes, coordinates, metric, variances, covariances of every method, estimators with randoms and further written files must agree to the precision of the file.  The object read back also processes new data like a fresh one.  The columns are "
        "also read by an independent parser.  Non-trivial: some bin has pairs/triangles.")
ASSUMPTIONS = ["text files: values agree to the written precision; FITS headers hold 15 significant digits",
               "a lens-field correlation written with randoms stores the compensated values; its patch results stay those of the data alone (documented: the randoms are not part of the file)",
               "rng, logger and thread count are not part of the stored state"]

T2 = ["NN", "NN", "NN", "KK", "NK", "GG", "NG", "KG", "VV", "NZ", "ZZ", "KQ", "TT", "NV", "KZ", "QQ", "NT", "NQ", "KV", "KT"]
T3 = ["NNN", "NNN", "KKK", "GGG"]
METHODS = ["jackknife", "sample", "bootstrap", "marked_bootstrap"]

common = dict(
    geo=gen.geom(), c1=gen.cat_spec(20, 2, wmodes=("none", "uniform", "zeros")), c2=gen.cat_spec(16, 2, wmodes=("none", "uniform")),
    r1=gen.cat_spec(24, 2, wmodes=("none", "uniform")), auto=st.booleans(), npatch=st.sampled_from([0, 0, 2, 3, 4]), pseed=st.integers(0, 99),
    rand=st.sampled_from(["none", "rr", "rr,dr", "rr,dr,rd", "rr,rd"]), calc=st.sampled_from(["before", "write", "never"]),
    fmt=st.sampled_from(["ASCII", "FITS", "HDF"]), ext=st.booleans(), prec=st.sampled_from([None, None, 1, 6, 12, 16]), cprec=st.sampled_from([None, 3, 10]),
    pr=st.booleans(), cov=st.booleans(), vm=st.sampled_from(["shot", "shot"] + METHODS), metric=st.integers(0, 5), units=st.sampled_from([None, None, "deg", "arcmin", "rad", "hours"]),
    opts=st.sets(st.sampled_from(["slop", "slop0", "brute", "brute1", "angle", "top", "split", "boot", "rpar", "threads", "name"]), max_size=3).map(sorted),
    how=st.sampled_from(["class", "base", "read", "used"]), again=st.booleans(), badwrite=st.booleans(), half=st.sampled_from([0, 0, 1, 2]), empty=st.sampled_from([False] * 9 + [True]),
)
strat2 = st.fixed_dictionaries(dict(common, typ=st.sampled_from(T2), bins=gen.bins_spec(nbmax=5)))
strat3 = st.fixed_dictionaries(dict(common, typ=st.sampled_from(T3), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), nb=st.integers(1, 2), nsub=st.integers(1, 2),
                                    c1=gen.cat_spec(8, 3, wmodes=("none", "uniform")), c2=gen.cat_spec(6, 2, wmodes=("none", "uniform")), r1=gen.cat_spec(9, 3, wmodes=("none", "uniform"))))
# several random catalogs together, with all that is needed for patch covariances of the estimator
RND = dict(auto=st.sampled_from([False, False, True]), npatch=st.sampled_from([2, 3, 4]), pr=st.just(True), rand=st.sampled_from(["rr", "rr,dr", "rr,dr,rd", "rr,dr,rd", "rr,rd"]),
           calc=st.sampled_from(["before", "before", "write"]), half=st.just(0), empty=st.just(False))
stratr = st.fixed_dictionaries(dict(common, typ=st.just("NN"), bins=gen.bins_spec(nbmax=4), **RND))

FIRST = {2: ["r_nom", "meanr", "meanlogr"]}


def config(case, three):
    """Constructor arguments, coords and the full set of spec values expected back."""
    geo = case["geo"]
    typ = case["typ"]
    if three and typ == "GGG" and geo["coords"] in ("3d", "rdr"): geo = dict(geo, coords="flat")
    co = geo["coords"]
    ext = gen.sky_extent(geo)
    if three:
        mx = ext * 1.2
        if co == "sphere": mx = min(mx, 1.5)
        kw = dict(bin_type=case["bt"], min_sep=0.1 * mx, max_sep=mx, nbins=case["nb"])
        if case["bt"] == "LogRUV": kw.update(nubins=case["nsub"], nvbins=case["nsub"])
        if case["bt"] == "LogSAS": kw.update(nphi_bins=case["nsub"])
        if case["bt"] == "LogMultipole": kw.update(max_n=case["nsub"])
        mets = dict(flat=["Euclidean", "Periodic"], sphere=["Arc", "Euclidean"], rdr=["Euclidean"])
        mets["3d"] = ["Euclidean"]
    else:
        b = case["bins"]
        if b["bin_type"] == "TwoD" and co != "flat": b = dict(b, bin_type="Log")
        kw = gen.bins_kw(b, geo)
        mets = dict(flat=["Euclidean", "Euclidean", "Periodic"], sphere=["Euclidean", "Arc"], rdr=["Euclidean", "Rperp", "OldRperp", "FisherRperp", "Arc", "Rlens"])
        mets["3d"] = mets["rdr"]
        if (case["auto"] and typ[0] == typ[-1]) or typ == "NN":
            mets["rdr"] = mets["3d"] = mets["rdr"][:5]
    m = mets[co][case["metric"] % len(mets[co])]
    if kw["bin_type"] == "TwoD": m = "Euclidean"
    if m != "Euclidean": kw["metric"] = m
    if m == "Periodic": kw["period" if case["pseed"] % 2 else "xperiod"] = 3 * ext
    if m == "Periodic" and "xperiod" in kw: kw["yperiod"] = 2.7182818284590452 * ext
    if m == "Arc" and co != "sphere":
        kw["max_sep"] = min(kw["max_sep"] / ext, 2.)
        if "min_sep" in kw: kw["min_sep"] = kw["max_sep"] * 0.1
    o = case["opts"]
    if "rpar" in o and m in ("Rperp", "OldRperp", "FisherRperp", "Rlens") and not three: kw.update(min_rpar=-0.37 * ext, max_rpar=1.1 * ext)
    if case["units"] and (co == "sphere" or (m == "Arc" and co != "sphere") or (co == "flat" and m == "Euclidean" and not three)):
        u = case["units"]
        f = dict(deg=180 / np.pi, arcmin=10800 / np.pi, rad=1., hours=12 / np.pi)[u]
        kw["sep_units"] = u
        for k in ("min_sep", "max_sep"):
            if k in kw: kw[k] *= f
    if "slop" in o: kw["bin_slop"] = 0.37
    if "slop0" in o: kw["bin_slop"] = 0
    if "brute" in o: kw["brute"] = True
    if "brute1" in o: kw["brute"] = 1
    if "angle" in o: kw["angle_slop"] = 0.123456789012345
    if "top" in o: kw.update(max_top=3, min_top=1)
    if "split" in o: kw["split_method"] = "median"
    if "boot" in o: kw["num_bootstrap"] = 7
    if "threads" in o: kw["num_threads"] = 2
    if case["cprec"]: kw["precision"] = case["cprec"]
    if case["vm"] != "shot" and case["npatch"]: kw["var_method"] = case["vm"]
    if m == "Periodic" and typ not in ("NN", "NK", "KK", "NNN", "KKK"): pass
    return geo, kw, m


ARR2 = ["npairs", "weight", "meanr", "meanlogr"]
BIN2 = ["bin_type", "nbins", "bin_size", "min_sep", "max_sep", "sep_units", "rnom", "logr", "left_edges", "right_edges", "bin_slop", "angle_slop", "brute", "min_rpar", "max_rpar",
        "xperiod", "yperiod", "zperiod", "var_method", "num_bootstrap", "split_method", "min_top", "max_top", "coords", "metric"]
BIN3 = [b for b in BIN2 if b not in ("left_edges", "right_edges", "rnom", "logr")]


def names(x, typ, three):
    if not three:
        a = list(ARR2) + cmp.xi_names(typ)
        if typ == "NN":
            if hasattr(x, "xi"): a += ["xi", "varxi"]
        elif typ[0] in "NK": a += ["varxi"]
        else: a += ["varxip", "varxim"]
        return a
    a = ["ntri", "weight", "meand1", "meanlogd1", "meand2", "meanlogd2", "meand3", "meanlogd3"]
    if x.bin_type == "LogRUV": a += ["meanu", "meanv"]
    if x.bin_type == "LogSAS": a += ["meanphi"]
    if typ == "NNN":
        if x.zeta is not None: a += ["zeta", "varzeta"]
    elif typ == "KKK": a += ["zeta", "varzeta"]
    else: a += ["gam0", "gam1", "gam2", "gam3", "vargam0", "vargam1", "vargam2", "vargam3"]
    return a


def snapshot(x, typ, three):
    return {n: np.array(getattr(x, n)) for n in names(x, typ, three)}


def binning(x, three):
    d = {}
    for n in (BIN3 if three else BIN2):
        v = getattr(x, n, None)
        if n == "var_method" or n == "num_bootstrap" or n == "split_method":
            v = getattr(x, n, None)
        d[n] = v
    if three:
        for n in ("nubins", "nvbins", "min_u", "max_u", "min_v", "max_v", "ubin_size", "vbin_size", "nphi_bins", "min_phi", "max_phi", "phi_bin_size", "phi_units", "max_n",
                  "logr1d", "rnom1d", "logd2", "u", "v", "phi", "phi1d", "u1d", "v1d"):
            try: d[n] = getattr(x, n, None)
            except Exception: pass
    return d


def same_binning(a, b, what):
    for n in a:
        p, q = a[n], b.get(n)
        if n == "logr" and a["bin_type"] == "TwoD": continue    # log of zero up to rounding at the centre
        if isinstance(p, (int, float, np.ndarray, np.floating, np.integer)) and not isinstance(p, bool):
            if q is None or not np.allclose(np.asarray(p, float), np.asarray(q, float), rtol=1e-12, atol=1e-13 * max(1., a["max_sep"])) or np.shape(p) != np.shape(q):
                fail("%s: %s is %r, was %r" % (what, n, q, p))
        elif p != q:
            fail("%s: %s is %r, was %r" % (what, n, q, p))


def check(case, ctx, three):
    try:
        return check1(case, ctx, three)
    except RuntimeError as e:
        if "sample variance" in str(e): raise Skip("sample variance refused")
        raise


def check1(case, ctx, three):
    import treecorr
    typ = case["typ"]
    geo, kw, metric = config(case, three)
    fs = gen.fields_of(typ)
    ds = [gen.make(case[k], geo) for k in ("c1", "c2", "r1")]
    if any(not (ref2.wts(d) != 0).any() for d in ds): raise Skip("no live objects")
    if case["empty"]:
        # separations far outside
        for d in ds:
            if geo["coords"] not in ("flat", "3d") or metric == "Periodic": raise Skip("empty results only on flat coordinates")
        kw.update(max_sep=kw["max_sep"] * 1e-7)
        if "min_sep" in kw: kw["min_sep"] *= 1e-7
    npt = case["npatch"]
    cats = []
    field = [fs[0], fs[-1], ""]
    for i, d in enumerate(ds):
        ex = {}
        if npt and not (case["half"] == i + 1 and case["rand"] == "none" and not (case["auto"] and typ[0] == typ[-1])):    # (half: one of the two has patches)
            p = np.random.RandomState(case["pseed"] + i).randint(0, npt, 64)[:d["n"]]
            if len(set(p)) < npt: p = np.random.RandomState(case["pseed"] + i).permutation(np.arange(d["n"]) % npt)
            w = ref2.wts(d)
            for k in range(npt):
                if not (w[p == k] != 0).any(): raise Skip("patch without weight")
            ex = dict(patch=p, npatch=npt)
        cats.append(treecorr.Catalog(verbose=0, **gen.catkw(d, field[i], ex)))
    cls = gen.corr_class(typ)
    auto = case["auto"] and typ[0] == typ[-1]
    rs = lambda: np.random.RandomState(8)
    mk = lambda **k: cls(verbose=0, rng=rs(), **dict(kw, **k))
    pk = {}
    if three and case["bt"] == "LogMultipole": pk = dict(patch_method="local")
    if three and case["bt"] == "LogSAS": pk = dict(algo="triangle", patch_method="local" if case["pseed"] % 2 and auto else "global")
    def proc(*a):
        x = mk()
        x.process(*a, **pk)
        return x
    x = proc(cats[0]) if auto else proc(cats[0], cats[1])
    cnt = "ntri" if three else "npairs"
    if not getattr(x, cnt).any(): ctx.trivial("no pairs")
    # randoms
    R = {}
    rand = case["rand"] if typ in ("NN", "NNN") or (typ[0] == "N") else "none"
    if three and case.get("bt") == "LogMultipole": rand = "none"
    if three and rand == "rr,rd" : rand = "rr"
    if three and rand == "rr,dr": rand = "rr,dr,rd"
    if rand != "none":
        if typ == "NN":
            R["rr"] = proc(cats[2])
            if "dr" in rand: R["dr"] = proc(cats[0], cats[2])
            if "rd" in rand: R["rd"] = proc(cats[2], cats[0 if auto else 1])
        elif typ == "NNN":
            R["rrr"] = proc(cats[2])
            if "dr" in rand:
                if "global" in pk.values() or True:
                    R["drr"] = proc(cats[0], cats[2]); R["rdd"] = proc(cats[2], cats[0])
        else:
            R["r" + typ[1].lower()] = proc(cats[2], cats[1])
    if typ == "NN" and R and (R["rr"].tot == 0 or any(r.tot == 0 for r in R.values())): raise Skip("no random weight")
    calc = lambda y, r: (y.calculateZeta if three else y.calculateXi)(**r)
    refused = lambda m: len(x.results) == 0
    wargs = {}
    NX = not three and typ[0] == "N" and typ != "NN"
    if R:
        try:
            c0 = x.copy()
            calc(c0, R)
        except (RuntimeError, ValueError) as e:
            raise Skip("estimator refused: " + str(e)[:30])
        if case["calc"] == "before": calc(x, R)
        elif case["calc"] == "write": wargs = dict(R)
        if case["calc"] == "before" and NX: wargs = dict(R)
    pr, wc = case["pr"], case["cov"]
    if pr and not x.results: ctx.tag("no patch results")
    # the covariance as the original gives it
    src = x.copy()
    src._rng = rs()
    if wargs: calc(src, wargs)
    elif NX or typ == "NK": src.calculateXi()
    try:
        cov = src.cov if wc else None
    except (ValueError, RuntimeError, AttributeError, TypeError) as e:
        cov = None; wc = False
    try:
        want = snapshot(src, typ, three)
    except RuntimeError as e:
        if "sample variance" in str(e): raise Skip("sample variance refused")
        raise
    binx = binning(x, three)
    fmt = case["fmt"]
    suffix = dict(ASCII=".out", FITS=".fits", HDF=".hdf5")[fmt]
    fn = os.path.join(ctx.tmp(), "sub", "c" + (suffix if not case["ext"] else ".foo"))
    ft = None if not case["ext"] else fmt
    prec = case["prec"]
    eff = 4 if prec is None and not case["cprec"] else (case["cprec"] if prec is None else prec)
    ctx.tag(typ, fmt, "rand=" + rand, "calc=" + case["calc"] if R else "", "pr" if pr else "", "cov" if wc else "", "patched" if npt else "", case["how"], metric, kw["bin_type"], "coords=" + geo["coords"])
    if R and case["badwrite"] and typ in ("NN", "NNN"):
        # a refused call leaves no trace
        bad = {k: v for k, v in R.items() if k not in ("rr", "rrr")}
        if bad:
            try:
                x.write(fn, file_type=ft, **bad)
            except (TypeError, ValueError): ctx.tag("refused write")
            else: fail("write with %s only was accepted" % sorted(bad))
    args = dict(file_type=ft, precision=prec, write_patch_results=pr, write_cov=wc, **wargs)
    before = {n: np.array(getattr(x, n)) for n in names(x, typ, three) if not n.startswith("var")} if not wargs else None   # (variances may draw random numbers)
    x._rng = rs()
    x.write(fn, **args)
    if before is not None:
        for n in before: cmp.eq("written object's " + n, np.array(getattr(x, n)), before[n])
    # ---- read it back
    how = case["how"]
    rng = rs()
    if how == "class": y = cls.from_file(fn, file_type=ft, rng=rng)
    elif how == "base": y = (treecorr.Corr3 if three else treecorr.Corr2).from_file(fn, file_type=ft, rng=rng)
    else:
        y = cls(verbose=0, rng=rng, **kw)
        if how == "used":
            y.process(cats[2] if auto and typ in ("NN", "NNN") else cats[0], *([] if auto else [cats[1]]), **pk)
            try: y.cov
            except (ValueError, RuntimeError, AttributeError, TypeError): pass
        y.read(fn, file_type=ft)
    if type(y) is not cls: fail("from_file made a %s" % type(y).__name__)
    tol = 0. if fmt != "ASCII" else 0.51 * 10. ** -eff
    got = snapshot(y, typ, three)
    same_binning(binx, binning(y, three), "after reading")
    if set(want) != set(got) and not (how == "used"): fail("attributes after reading: %s, expected %s" % (sorted(got), sorted(want)))
    for n in want:
        t = tol
        if n.startswith("var"): t = 2.1 * tol + 1e-14   # stored as sigma
        cx = np.iscomplexobj(want[n])
        if cx and tol:
            cmp.close(n + ".re", got[n].real, want[n].real, t + 1e-15, None); cmp.close(n + ".im", got[n].imag, want[n].imag, t + 1e-15, None)
        elif t == 0: cmp.eq(n, got[n], want[n])
        else: cmp.close(n, got[n], want[n], t * (1 + 1e-9) + 1e-15, None)
    if typ in ("NN", "NNN"):
        cmp.close("tot", y.tot, x.tot, 1e-14 if fmt != "ASCII" else 1e-15)
    # ---- covariance
    if wc:
        cp = max(eff, 16) if pr else eff
        ct = 0.71 * 10. ** -cp + 1e-15 if fmt == "ASCII" else 0.
        c2 = y.cov
        cmp.close("cov", c2.real, cov.real, ct * (1 + 1e-9), None)
        if np.iscomplexobj(cov): cmp.close("cov.imag", c2.imag, cov.imag, ct * (1 + 1e-9), None)
        elif np.iscomplexobj(c2): fail("cov became complex")
    sv = None
    if npt and pr and x.results and not (NX and wargs):
        if sorted(x.results) != sorted(y.results): fail("patch results %s, expected %s" % (sorted(y.results), sorted(x.results)))
        for k, r in x.results.items():
            q = y.results[k]
            for n in ([cnt, "weight"] + ([] if three else cmp.xi_names(typ))):
                cmp.close("results[%s].%s" % (k, n), getattr(q, n), getattr(r, n), 1e-13, None, atol=1e-12 if case.get("bt") == "LogMultipole" else 0.)
            if typ in ("NN", "NNN"): cmp.close("results[%s].tot" % (k,), q.tot, r.tot, 1e-13)
        for nm in ("npatch1", "npatch2", "npatch3")[:len(typ)]:
            if getattr(y, nm) != getattr(x, nm): fail("%s is %s, expected %s" % (nm, getattr(y, nm), getattr(x, nm)))
        for m in METHODS:
            def est(z):
                z = z.copy()
                try:
                    return z.estimate_cov(m)
                except (RuntimeError, ValueError) as e:
                    return type(e).__name__
            src._rng = rs(); y._rng = rs()
            a, b = est(src), est(y)
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and isinstance(b, str) and a == b): fail("%s covariance: %s, before: %s" % (m, b if isinstance(b, str) else "given", a if isinstance(a, str) else "given"))
                continue
            sc = max(np.abs(want[n]).max(initial=0.) for n in want if n[:2] in ("xi", "ze", "ga")) if typ not in ("NN", "NNN") or R else 1.
            cmp.close(m + " covariance", b, a, 1e-8 if fmt == "ASCII" and eff < 13 else 1e-9, np.abs(a).max(initial=0.) + 1e-6 * sc ** 2)
            ctx.tag("compared " + m)
    elif not pr:
        if y.results: fail("patch results appeared")
    if typ not in ("NN", "NNN") or (R and pr and case["calc"] != "never"):
        # shot noise variance is still known
        try: a = src.copy().estimate_cov("shot")
        except Exception as e: a = None
        if a is not None:
            b = y.copy().estimate_cov("shot")
            cmp.close("shot covariance", b, a, 3 * tol + 1e-12, None)
    # the covariance attribute belongs to what was read, not to what the object held before
    if not wc and (typ not in ("NN", "NNN")):
        vm = kw.get("var_method", "shot")
        if (vm == "shot" or pr) and "boot" not in vm:
            z = y.copy()
            try: b = z.estimate_cov(vm)
            except (RuntimeError, ValueError): b = None
            if b is not None:
                a = y.cov_diag
                cmp.close("cov attribute", a, b if b.ndim == 1 else b.diagonal(), 1e-12, np.abs(b).max(initial=0.))
    # ---- estimators with the stored counts
    if R and typ in ("NN", "NNN") and case["calc"] != "never":
        R2 = {}
        for k, r in R.items():
            f2 = os.path.join(ctx.tmp(), k + suffix)
            r.write(f2, precision=16, write_patch_results=pr)
            R2[k] = cls.from_file(f2)
        f2 = os.path.join(ctx.tmp(), "dd" + suffix)
        x.write(f2, precision=16, write_patch_results=pr)
        z = cls.from_file(f2)
        a = src.copy()
        if pr or kw.get("var_method", "shot") == "shot":
            va = calc(a, R); vb = calc(z, R2)
            ok = np.asarray((R["rrr"] if three else R["rr"]).weight) != 0
            cmp.close("estimator from files", vb[0][ok], va[0][ok], 1e-11, 10.)
    # ---- what was read is a correlation object like any other: it can be used for new data
    if all(getattr(x, n, None) == getattr(y, n, None) for n in ("min_sep", "max_sep", "bin_size", "nbins", "b", "bin_slop", "angle_slop", "brute", "bin_type")) \
            and (not three or all(np.array_equal(getattr(x._ro, n, None), getattr(y._ro, n, None)) for n in ("bu", "bv", "min_u", "max_u", "min_v", "max_v", "ubin_size", "vbin_size", "phi_bin_size", "max_n"))):
        z = y if case["pseed"] % 3 else y.copy()
        z, f = z.copy() if case["pseed"] % 3 == 2 else z, mk()
        if z is y: y = y.copy()
        for q in (z, f): q.process(*([cats[0]] if auto else [cats[0], cats[1]]), num_threads=1, **pk)
        for n in names(f, typ, three):
            if n.startswith("var") or (typ in ("NN", "NNN") and n in ("xi", "zeta")): continue
            cmp.close("processing again with the object read back (%s): " % case["how"] + n, getattr(z, n), getattr(f, n), 1e-12, None, atol=1e-11 if three else 0.)
        if sorted(z.results) != sorted(f.results): fail("processing again: patch results %s, expected %s" % (sorted(z.results), sorted(f.results)))
        ctx.tag("processed again")
    # ---- idempotent
    if case["again"]:
        f3 = os.path.join(ctx.tmp(), "again" + suffix)
        a2 = dict(precision=prec)
        if typ[0] != "N" or typ in ("NN", "NNN") or True:
            y.write(f3, **a2)
            z = cls.from_file(f3)
            g2 = snapshot(z, typ, three)
            for n in got:
                if n in g2:
                    cmp.close("second round: " + n, g2[n].real, got[n].real, 2 * tol + 1e-14, None)
    columns(case, ctx, fn, fmt, x, src, typ, three, tol, pr or wc, wargs)


def read_columns(fn, fmt, main):
    if fmt == "FITS":
        import fitsio
        d = fitsio.read(fn, ext="main" if main else 1)
        return {n: np.asarray(d[n]) for n in d.dtype.names}
    if fmt == "HDF":
        import h5py
        with h5py.File(fn, "r") as f:
            g = f["main"] if main else f
            return {k: g[k][:] for k in g.keys() if isinstance(g[k], h5py.Dataset)}
    cols = None
    rows = []
    for line in open(fn):
        if line.startswith("##"):
            if cols is not None: break
            continue
        if line.startswith("#"):
            if cols is not None: break
            cols = line[1:].split()
            continue
        rows.append([float(q) for q in line.split()])
    a = np.array(rows).reshape(-1, len(cols))
    return {c: a[:, i] for i, c in enumerate(cols)}


def expected_columns(x, src, typ, three, wargs):
    E = {}
    if not three:
        E.update(r_nom=x.rnom, meanr=x.meanr, meanlogr=x.meanlogr, npairs=x.npairs)
        if typ == "NN":
            E["DD"] = x.weight
            if hasattr(src, "xi"): E["xi"] = src.xi; E["sigma_xi"] = np.sqrt(src.varxi)
            if wargs:
                s = lambda k: wargs[k].weight * (x.tot / wargs[k].tot)
                E["RR"] = s("rr")
                if "dr" in wargs: E["DR"] = s("dr")
                if "rd" in wargs: E["RD" if "dr" in wargs else "DR"] = s("rd")
        else:
            E["weight"] = x.weight
            L = typ
            if typ == "NK": E.update(kappa=src.xi, sigma=np.sqrt(src.varxi))
            elif typ == "KK": E.update(xi=src.xi, sigma_xi=np.sqrt(src.varxi))
            elif typ == "KG": E.update(kgamT=src.xi, kgamX=src.xi_im, sigma=np.sqrt(src.varxi))
            elif typ == "NG": E.update(gamT=src.xi, gamX=src.xi_im, sigma=np.sqrt(src.varxi))
            elif typ == "NV": E.update(vR=src.xi, vT=src.xi_im, sigma=np.sqrt(src.varxi))
            elif typ in ("NT", "NQ"): E.update({typ[1].lower() + "R": src.xi, typ[1].lower() + "R_im": src.xi_im, "sigma": np.sqrt(src.varxi)})
            elif typ == "NZ": E.update(z_real=src.xi, z_imag=src.xi_im, sigma=np.sqrt(src.varxi))
            elif typ[0] == "K": E.update(xi=src.xi, xi_im=src.xi_im, sigma=np.sqrt(src.varxi))
            elif typ[0] == typ[1]: E.update(xip=src.xip, xip_im=src.xip_im, xim=src.xim, xim_im=src.xim_im, sigma_xip=np.sqrt(src.varxip), sigma_xim=np.sqrt(src.varxim))
    else:
        bt = x.bin_type
        if bt == "LogRUV": E.update(r_nom=x.rnom, u_nom=x.u, v_nom=x.v, meanu=x.meanu, meanv=x.meanv)
        elif bt == "LogSAS": E.update(d2_nom=x.d2nom, d3_nom=x.d3nom, phi_nom=x.phi, meanphi=x.meanphi)
        else: E.update(d2_nom=x.d2nom, d3_nom=x.d3nom, n=x.n, weight_re=x.weight.real, weight_im=x.weight.imag)
        for k in "123": E["meand" + k] = getattr(x, "meand" + k); E["meanlogd" + k] = getattr(x, "meanlogd" + k)
        E["ntri"] = x.ntri
        if typ == "NNN":
            if bt != "LogMultipole": E["DDD"] = x.weight
            if src.zeta is not None: E["zeta"] = src.zeta; E["sigma_zeta"] = np.sqrt(src.varzeta)
            if wargs:
                s = lambda k: wargs[k].weight * (x.tot / wargs[k].tot)
                E["RRR"] = s("rrr")
                if "drr" in wargs: E["DRR"] = s("drr"); E["RDD"] = s("rdd")
        else:
            if bt != "LogMultipole": E["weight"] = x.weight
            if typ == "KKK":
                if bt == "LogMultipole": E.update(zeta_re=x.zeta.real, zeta_im=x.zeta.imag)
                else: E["zeta"] = x.zeta
                E["sigma_zeta"] = np.sqrt(x.varzeta)
            else:
                for k in range(4):
                    g = getattr(x, "gam%d" % k)
                    E["gam%dr" % k] = g.real; E["gam%di" % k] = g.imag; E["sigma_gam%d" % k] = np.sqrt(getattr(x, "vargam%d" % k))
    return E


def columns(case, ctx, fn, fmt, x, src, typ, three, tol, main, wargs):
    C = read_columns(fn, fmt, main)
    E = expected_columns(x, src, typ, three, wargs)
    for n, v in E.items():
        if n not in C: fail("column %s is missing in %s" % (n, sorted(C)))
        cmp.close("column " + n, C[n], np.asarray(v).ravel(), tol * (1 + 1e-9) + 1e-14, None)


SUBS = [Sub("two", strat2, lambda c, x: check(c, x, False), quick=1500),
        Sub("three", strat3, lambda c, x: check(c, x, True), quick=800),
        Sub("randoms", stratr, lambda c, x: check(c, x, False), quick=500)]
