"""C11: catalog statistics and shot-noise variances follow their definitions."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("cat: 1..4 catalogs with weights (zero weights kept or not, NaNs), every field and optional user variances; counts, sums, variances and the joint "
        "variances are recomputed from the arrays.  two/three: a correlation of such catalogs (single, list or patches; auto or cross); the variance must be "
        "factor*product of variances/weight in occupied bins and 0 elsewhere.  Non-trivial: a non-zero variance (and an occupied bin).")
ASSUMPTIONS = ["variances computed by subtracting means are compared with a tolerance of 1e-9 relative to the mean square of the field"]

FIELDS = "kzvgtq"
cat1 = gen.cat_spec(20, 1, wmodes=("none", "unit", "uniform", "zeros", "wide"), fmodes=("rand", "const", "sparse", "big"))
one = st.fixed_dictionaries(dict(spec=cat1, keep=st.booleans(), nan=st.integers(0, 3), over=st.sampled_from([False, False, False, True]), unload=st.booleans()))
strat_cat = st.fixed_dictionaries(dict(cats=st.lists(one, min_size=1, max_size=4), low=st.booleans(), order=st.permutations(list(FIELDS)), dyn=st.booleans()))


def col(d, f):
    return d[f] if f == "k" else np.array([d[f].real, d[f].imag])


def wvar(w, f):
    """sum w^2 |f - <f>|^2 / sum w, per component."""
    f = np.atleast_2d(f)
    m = (w * f).sum(axis=1) / w.sum()
    return ((w ** 2 * (f - m[:, None]) ** 2).sum(axis=1) / w.sum()).mean()


def scale2(w, f):
    f = np.atleast_2d(f)
    return (w ** 2 * f ** 2).sum() / w.sum()


OVER = dict(k=0.3, z=0.7, v=1.1, g=0.09, t=2.5, q=0.01)


def clean(c, d, seed):
    """Applies NaNs: NaN in a field or weight makes the row weightless."""
    n = d["n"]
    w = ref2.wts(d).copy()
    rs = np.random.RandomState(seed)
    cols = {f: (d[f].copy()) for f in FIELDS}
    bad = np.zeros(n, bool)
    for i in range(c["nan"]):
        if n > 3:
            j = rs.randint(0, n); f = FIELDS[rs.randint(0, 6)]
            cols[f][j] = np.nan
            bad[j] = True
    w[bad] = 0
    return cols, w, bad


def check_cat(case, ctx):
    import treecorr
    geo = dict(coords="flat", sky="eq", theta=0.1, scale=1., r0=1., cx=0.)
    cats, W, F = [], [], []
    over = case["cats"][0]["over"]
    for i, c in enumerate(case["cats"]):
        d = gen.make(c["spec"], geo)
        cols, w, bad = clean(c, d, i + c["spec"]["seed"])
        if w.sum() == 0: raise Skip("no live objects")
        kw = dict(x=d["x"], y=d["y"], w=d["w"], keep_zero_weight=c["keep"])
        for f in FIELDS:
            if f == "k": kw["k"] = cols["k"]
            else: kw[f + "1"], kw[f + "2"] = cols[f].real, cols[f].imag
        if over:
            for f in FIELDS: kw["var" + f] = OVER[f] * (i + 1)
        cat = treecorr.Catalog(verbose=0, **kw)
        use = w != 0
        nt = len(w) if c["keep"] else use.sum()
        if cat.ntot != nt or len(cat.x) != nt: fail("ntot = %s, expected %s" % (cat.ntot, nt))
        if cat.nobj != use.sum(): fail("nobj = %s, expected %s" % (cat.nobj, use.sum()))
        cmp.close("sumw", cat.sumw, w.sum(), 1e-12)
        vals = {f: np.where(np.isnan(col(dict(cols), f)), 0, col(dict(cols), f)) for f in FIELDS}
        for f in case["order"]:
            got = getattr(cat, "var" + f)
            if over:
                if got != OVER[f] * (i + 1): fail("var%s = %s, given %s" % (f, got, OVER[f] * (i + 1)))
            else:
                cmp.close("var" + f, got, wvar(w, vals[f]), 1e-9, scale2(w, vals[f]))
                if not got >= 0: fail("var%s = %s" % (f, got))
        cats.append(cat); W.append(w); F.append(vals)
    ctx.tag("ncat=%d" % len(cats), "over" if over else "computed")
    w = np.concatenate(W)
    mixed = any(c["over"] != over for c in case["cats"])
    for f in FIELDS:
        fn = getattr(treecorr, "calculateVar" + f.upper())
        arg = cats if len(cats) > 1 or case["dyn"] else cats[0]
        got = fn(arg, low_mem=case["low"])
        if over:
            want = sum(OVER[f] * (i + 1) * x.sum() for i, x in enumerate(W)) / w.sum()
            cmp.close("calculateVar%s of user values" % f, got, want, 1e-9)
        else:
            v = np.concatenate([np.atleast_2d(x[f]) for x in F], axis=1)
            cmp.close("calculateVar%s" % f, got, wvar(w, v), 1e-9, scale2(w, v))
    # a second time (cached)
    for f in FIELDS:
        if not over:
            cmp.close("var%s again" % f, cats[-1].__getattribute__("var" + f), wvar(W[-1], F[-1][f]), 1e-9, scale2(W[-1], F[-1][f]))
    # a catalog without fields
    e = treecorr.Catalog(x=[1., 2.], y=[3., 4.], verbose=0)
    for f in FIELDS:
        if getattr(e, "var" + f) != 0: fail("var%s of a catalog without the field is not 0" % f)
    if len(w) < 2: ctx.trivial("one object")


TYPES = ["NK", "KK", "NZ", "KZ", "ZZ", "NV", "KV", "VV", "NG", "KG", "GG", "NT", "KT", "TT", "NQ", "KQ", "QQ", "NN"]
source = st.fixed_dictionaries(dict(specs=st.lists(cat1, min_size=1, max_size=3), form=st.sampled_from(["cat", "list", "patch", "saved"]), over=st.sampled_from([False, False, True]),
                                    npatch=st.integers(2, 4), pseed=st.integers(0, 99)))
strat2 = st.fixed_dictionaries(dict(typ=st.sampled_from(TYPES), auto=st.booleans(), a=source, b=source, geo=gen.geom(), bins=gen.bins_spec(nbmax=6), low=st.booleans(),
                                    method=st.sampled_from(["default", "shot", "cov"]), copy=st.sampled_from(["", "", "copy", "pickle"])))


def build(s, f, geo, npatch=None, ctx=None):
    """Catalog argument plus the variances (None if there is no field)."""
    import treecorr
    specs = s["specs"] if s["form"] == "list" else s["specs"][:1]
    cats, W, V, O = [], [], [], []
    for i, sp in enumerate(specs):
        d = gen.make(sp, geo)
        w = ref2.wts(d)
        if w.sum() == 0: raise Skip("no live objects")
        kw = gen.catkw(d, f)
        if f and s["over"]: kw["var" + f] = OVER[f] * (i + 1)
        if s["form"] in ("patch", "saved"):
            if s["form"] == "saved":
                import tempfile
                kw["save_patch_dir"] = tempfile.mkdtemp(dir=ctx.tmp())
            p = np.random.RandomState(s["pseed"]).randint(0, npatch, 64)[:d["n"]]
            live = [(w[p == q] != 0).any() for q in range(npatch)]
            if not all(live): raise Skip("an empty patch")
            kw["patch"] = p
        cats.append(treecorr.Catalog(verbose=0, **kw))
        W.append(w); O.append(OVER.get(f, 0) * (i + 1))
        if f: V.append(np.atleast_2d(col(d, f)))
    w = np.concatenate(W)
    if not f: return cats, None, 1.
    v = np.concatenate(V, axis=1)
    if s["over"]: var = sum(o * x.sum() for o, x in zip(O, W)) / w.sum()
    else: var = wvar(w, v)
    return cats, var, scale2(w, v)


def check2(case, ctx):
    import treecorr, copy, pickle
    typ = case["typ"]
    auto = case["auto"] and typ[0] == typ[1]
    geo = case["geo"]
    b = case["bins"]
    if b["bin_type"] == "TwoD" and geo["coords"] != "flat": b = dict(b, bin_type="Log")
    f1, f2 = gen.fields_of(typ)
    A, B = case["a"], case["b"]
    npatch = A["npatch"]
    if auto and A["form"] in ("patch", "saved") and A["specs"][0]["n"] < npatch: raise Skip("too few objects")
    if not auto and A["form"] == "list" == B["form"]:
        k = min(len(A["specs"]), len(B["specs"]))
        A, B = dict(A, specs=A["specs"][:k]), dict(B, specs=B["specs"][:k])
    if not auto and sorted([A["form"], B["form"]]) in (["list", "patch"], ["list", "saved"]):
        A = dict(A, form="cat")
    ca, va, sa = build(A, f1, geo, npatch, ctx)
    if auto: cb, vb, sb = ca, va, sa
    else: cb, vb, sb = build(B, f2, geo, npatch, ctx)
    x = gen.corr_class(typ)(verbose=0, **gen.bins_kw(b, geo), **({"var_method": "shot"} if case["method"] == "shot" else {}))
    un = lambda c, s: c if s["form"] == "list" else c[0]
    args = (un(ca, A),) if auto else (un(ca, A), un(cb, B))
    x.process(*args, low_mem=case["low"])
    if case["copy"] == "copy": x = x.copy()
    elif case["copy"] == "pickle": x = pickle.loads(pickle.dumps(x))
    if typ == "NN":
        num, sc = 1., 1.
        x.calculateXi(rr=x.copy()) if False else None
        ctx.trivial("NN has no variance before calculateXi")
        return
    if typ[0] == "N": num, sc = vb, sb
    else: num, sc = va * vb, sa * sb
    if typ[0] not in "NK": num, sc = 2 * num, 2 * sc
    W = x.weight
    want = np.where(W > 0, num / np.where(W > 0, W, 1), 0.)
    tol = np.where(W > 0, sc / np.where(W > 0, W, 1), 0.)
    if case["method"] == "cov":
        c = x.cov
        ww = want.ravel() if typ[0] in "NK" else np.tile(want.ravel(), 2)
        tt = tol.ravel() if typ[0] in "NK" else np.tile(tol.ravel(), 2)
        cmp.close("cov", c, np.diag(ww), 1e-9, np.diag(tt))
        cmp.close("cov_diag", x.cov_diag, ww, 1e-9, tt)
        cmp.close("estimate_cov", x.estimate_cov("shot"), ww, 1e-9, tt)
    for nm in (["varxi"] if typ[0] in "NK" else ["varxip", "varxim"]):
        got = getattr(x, nm)
        cmp.close(nm, got, want, 1e-9, tol)
        if (got[W == 0] != 0).any(): fail("%s is not 0 in empty bins" % nm)
    ctx.tag("typ=" + typ, "auto" if auto else "cross", "form=%s,%s" % (A["form"], B["form"]), "over" if A["over"] or B["over"] else "computed", b["bin_type"])
    if not (want > 0).any(): ctx.trivial("no variance")


source3 = st.fixed_dictionaries(dict(specs=st.lists(gen.cat_spec(7, 2, layouts=["uniform", "cluster"], fmodes=("rand", "big", "sparse")), min_size=1, max_size=2),
                                     form=st.sampled_from(["cat", "list", "patch"]), over=st.sampled_from([False, False, True]), npatch=st.just(2), pseed=st.integers(0, 99)))
strat3 = st.fixed_dictionaries(dict(typ=st.sampled_from(["KKK", "GGG"]), ncat=st.integers(1, 3), s=st.tuples(source3, source3, source3),
                                    bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), ordered=st.booleans(), algo=st.booleans(), cov=st.booleans()))


def check3(case, ctx):
    import treecorr
    typ = case["typ"]
    f = typ[0].lower()
    geo = dict(coords="flat", sky="eq", theta=0.1, scale=1., r0=1., cx=0.)
    n = case["ncat"]
    forms = [s["form"] for s in case["s"][:n]]
    S = [dict(s, form=forms[0] if forms[0] != "cat" and s["form"] != "cat" else s["form"]) for s in case["s"][:n]]
    k = min([len(s["specs"]) for s in S if s["form"] == "list"] + [9])
    S = [dict(s, specs=s["specs"][:k]) for s in S]
    B = [build(s, f, geo, 2) for s in S]
    bt = case["bt"]
    kw = dict(LogRUV=dict(nbins=3, min_sep=0.05, max_sep=2., nubins=2, nvbins=2), LogSAS=dict(nbins=3, min_sep=0.05, max_sep=2., nphi_bins=3),
              LogMultipole=dict(nbins=3, min_sep=0.05, max_sep=2., max_n=2))[bt]
    x = gen.corr_class(typ)(verbose=0, bin_type=bt, **kw)
    args = [b[0] if s["form"] == "list" else b[0][0] for b, s in zip(B, S)]
    pk = {}
    if bt == "LogMultipole" or (bt == "LogSAS" and case["algo"]):
        if bt == "LogSAS": pk["algo"] = "multipole"
        pk["patch_method"] = "local"
    elif bt == "LogSAS": pk["algo"] = "triangle"; pk["patch_method"] = "global"
    x.process(*args, ordered=case["ordered"], **pk)
    v = [b[1] for b in B]; sc = [b[2] for b in B]
    if n == 1: v, sc = v * 3, sc * 3
    elif n == 2: v, sc = [v[0], v[1], v[1]], [sc[0], sc[1], sc[1]]
    fac = (1 if typ == "KKK" else 4) * (2 if bt != "LogRUV" else 1)
    W = x.weight if bt != "LogMultipole" else x.weightr
    if bt == "LogMultipole":
        # The weight of a multipole bin is complex; the variance uses the weight of the n=0 bins (or is refused).
        W = np.abs(x.weight)
    num, s = fac * np.prod(v), fac * np.prod(sc)
    W = np.asarray(W, float)
    if bt == "LogMultipole": W = None
    names = ["varzeta"] if typ == "KKK" else ["vargam0", "vargam1", "vargam2", "vargam3"]
    ctx.tag("typ=" + typ, bt, "ncat=%d" % n, "algo" if case["algo"] else "", "over" if any(q["over"] for q in S) else "computed")
    if abs(x._var_num - num) > 1e-9 * (abs(num) + s): fail("variance numerator %s, expected %s" % (x._var_num, num))
    if W is None:
        return
    good = W > 1e-9 * W.max() if W.size else W > 0
    want = np.where(good, num / np.where(good, W, 1), 0.)
    tol = np.where(good, s / np.where(good, W, 1), 0.)
    for nm in names:
        got = getattr(x, nm)
        cmp.close(nm, got[good], want[good], 1e-9, tol[good])
        if (got[x.weightr == 0] != 0).any(): fail("%s is not 0 in empty bins" % nm)
    if case["cov"]:
        c = x.cov_diag
        ww = want.ravel() if typ == "KKK" else np.tile(want.ravel(), 4)
        gg = good.ravel() if typ == "KKK" else np.tile(good.ravel(), 4)
        tt = tol.ravel() if typ == "KKK" else np.tile(tol.ravel(), 4)
        cmp.close("cov_diag", c[gg], ww[gg], 1e-9, tt[gg])
    if not (want > 0).any(): ctx.trivial("no variance")


SUBS = [Sub("cat", strat_cat, check_cat, quick=2500), Sub("two", strat2, check2, quick=2500), Sub("three", strat3, check3, quick=800)]
