"""C23: LogRUV three-point correlations = direct sum over triangles."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, ref3, cmp, tri
from core import Sub, Skip, fail

RULE = ("One, two or three catalogs of 1..22 objects (4 coordinate systems x sky regions x layouts x weight modes), an r,u,v binning "
        "(range, units, numbers of bins) and a mode (brute force or zero slop) are drawn; counts, weights, mean sides, ratios and "
        "fields are compared with an independent numpy sum over all triangles.  Non-trivial: at least one triangle is counted; cases "
        "with a triangle within rounding of a bin edge (or isosceles, or collinear) are skipped.")
ASSUMPTIONS = ["triangles with two coincident vertices are not triangles", "objects of exactly zero weight are not counted",
               "the centroid of a triangle wrapped by the Periodic metric is not defined, so GGG is not used with it"]

SPEC = st.fixed_dictionaries(dict(min_u=st.sampled_from([0., 0., 0.1, 0.35]), max_u=st.sampled_from([1., 1., 0.9, 0.6]), nu=st.integers(1, 4),
                                  min_v=st.sampled_from([0., 0., 0.1, 0.35]), max_v=st.sampled_from([1., 1., 0.9, 0.6]), nv=st.integers(1, 4)))


def run(case, ctx):
    s = case["spec"]
    kw = dict(nubins=s["nu"], nvbins=s["nv"])
    for a, d in (("min_u", 0.), ("max_u", 1.), ("min_v", 0.), ("max_v", 1.)):
        if s[a] != d:
            kw[a] = s[a]
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, kw, "LogRUV")
    B = ref3.RUV(case["nbins"], mn, mx, s["min_u"], s["max_u"], s["nu"], s["min_v"], s["max_v"], s["nv"])
    R = ref3.corr3(case["typ"], ds, B, case["ordered"], metric, period, tol=1e-9 if geo["coords"] != "sphere" else 1e-8)
    if R["amb"]:
        raise Skip("ambiguous")
    tri.process(c, cats, case["ordered"])
    tri.tags(case, geo, metric, ctx, R)
    tri.compare(c, R, dict(case, _ds=ds), geo, metric, cats, su, tol_f=1e-8 if geo["coords"] == "flat" else 1e-6)


LIM = st.tuples(st.sampled_from([0., 0., 0.05, 0.2, 0.5, 0.8, 0.95]), st.sampled_from([0.02, 0.05, 0.1, 0.3, 1.]))
NARROW = st.tuples(LIM, LIM, st.integers(1, 2)).map(lambda t: dict(
    min_u=t[0][0], max_u=min(1., t[0][0] + t[0][1]), nu=t[2], min_v=t[1][0], max_v=min(1., t[1][0] + t[1][1]), nv=t[2]))


SUBS = [
    Sub("narrow", tri.strat(16, 5, NARROW), run, quick=2500),
    Sub("small", tri.strat(8, 1, SPEC), run, quick=6000),
    Sub("medium", tri.strat(22, 8, SPEC), run, quick=3000),
]


def spec_strat():
    lim = st.fixed_dictionaries(dict(lo=st.sampled_from([None, 0., 0.1, 0.35, 0.6]), hi=st.sampled_from([None, 1., 0.9, 0.7]),
                                     size=st.sampled_from([None, 0.03, 0.11, 0.25, 0.4]), n=st.sampled_from([None, 1, 2, 3, 7, 20])))
    return st.fixed_dictionaries(dict(u=lim, v=lim, nbins=st.integers(1, 12), min_sep=st.sampled_from([0.1, 1., 3.7]),
                                      ratio=st.sampled_from([1.3, 4., 25.]), drop=st.sampled_from(["nbins", "bin_size", "min_sep", "max_sep"])))


def limits(q, dflt, top=1.):
    """(lo, hi, size, n) as documented from any consistent subset; raises Skip for over-determined input."""
    lo, hi, size, n = q["lo"], q["hi"], q["size"], q["n"]
    if n is not None and size is not None:
        if lo is not None and hi is not None:
            return None
        if lo is not None or hi is None:
            lo = 0. if lo is None else lo
            hi = min(lo + n * size, top) if hi is None else hi
        else:
            lo = max(hi - n * size, 0.)
    lo = 0. if lo is None else lo
    hi = top if hi is None else hi
    if n is None:
        s = dflt if size is None else size
        n = int(np.ceil((hi - lo - 1e-10) / s))
    return lo, hi, (hi - lo) / n, n


def spec(case, ctx):
    import treecorr
    case = dict(case)
    mn = case["min_sep"]
    mx = mn * case["ratio"]
    nb = case["nbins"]
    bs = np.log(mx / mn) / nb
    full = dict(nbins=nb, bin_size=bs, min_sep=mn, max_sep=mx)
    del full[case["drop"]]
    kw = dict(full, bin_type="LogRUV")
    for a in "uv":
        q = case[a]
        if q["n"] is not None and q["size"] is not None and q["lo"] is None and q["hi"] is None:
            # documented: three of the four
            q = case[a] = dict(q, lo=0.)
        for key, name in (("lo", "min_" + a), ("hi", "max_" + a), ("size", a + "bin_size"), ("n", "n%sbins" % a)):
            if q[key] is not None:
                kw[name] = q[key]
    want = {a: limits(case[a], bs) for a in "uv"}
    if any(w is None for w in want.values()):
        ctx.trivial("over-determined")
        try:
            treecorr.NNNCorrelation(**kw)
        except TypeError:
            return
        fail("four of min, max, size and number accepted: %s" % kw)
    if case["drop"] == "nbins" and abs(bs * nb - np.log(mx / mn)) > 0:
        kw["bin_size"] = bs * (1 + 1e-9)        # rounding must not add a bin
    c = treecorr.NNNCorrelation(verbose=0, **kw)
    ctx.tag("drop-" + case["drop"])
    if c.nbins != nb:
        fail("nbins %s, expected %s" % (c.nbins, nb))
    cmp.close("range", [c.min_sep, c.max_sep, c.bin_size], [mn, mx, bs], 1e-8)
    lr = np.log(mn) + (np.arange(nb) + 0.5) * bs
    cmp.close("logr1d", c.logr1d, lr, 1e-8, 1.)
    for a, got in (("u", (c.min_u, c.max_u, c.ubin_size, c.nubins)), ("v", (c.min_v, c.max_v, c.vbin_size, c.nvbins))):
        lo, hi, size, n = want[a]
        ctx.tag("%s-n" % a if case[a]["n"] is not None else "%s-size" % a)
        if got[3] != n:
            fail("n%sbins %s, expected %s (%s)" % (a, got[3], n, kw))
        cmp.close(a + " limits", got[:3], [lo, hi, size], 1e-12, 1., str(kw))
        cen = lo + (np.arange(n) + 0.5) * size
        if a == "u":
            cmp.close("u1d", c.u1d, cen, 1e-12, 1.)
        else:
            cmp.close("v1d", c.v1d, np.concatenate([-cen[::-1], cen]), 1e-12, 1.)
    shape = (nb, want["u"][3], 2 * want["v"][3])
    if c.ntri.shape != shape or c.meanu.shape != shape or c.rnom.shape != shape:
        fail("shape %s, expected %s" % (c.ntri.shape, shape))
    cmp.close("rnom", c.rnom[:, 0, 0], np.exp(lr), 1e-8)
    cmp.eq("u", c.u[0, :, 0], c.u1d)
    cmp.eq("v", c.v[0, 0, :], c.v1d)


def total_strat(nmax):
    return tri.strat(nmax, 3, SPEC, types=["NNN", "KKK"], layouts=["uniform", "cluster", "two", "tight"], metrics=("Euclidean",), extra=dict(
        slop=st.sampled_from([None, None, 0.3, 1., 3.]), aslop=st.sampled_from([None, 0.1, 1.]),
        split=st.sampled_from(["mean", "median", "middle"])))


def total(case, ctx):
    """Every triangle is counted once, whatever the slop, when the bins are wide enough for all of them."""
    case = dict(case, mode="slop0", spec=dict(min_u=0., max_u=1., nu=1, min_v=0., max_v=1., nv=1), units=None)
    ds, geo, metric, period = tri.data(case)
    kw = dict(bin_type="LogRUV", nbins=1, min_sep=1e-9 * gen.sky_extent(geo), max_sep=1e3 * gen.sky_extent(geo), nubins=1, nvbins=1,
              split_method=case["split"])
    if geo["coords"] == "sphere":
        kw["max_sep"] = 2.01
    if case["slop"] is not None:
        kw["bin_slop"] = case["slop"] / kw["nbins"] / np.log(kw["max_sep"] / kw["min_sep"])     # slop relative to the separation
    if case["aslop"] is not None:
        kw["angle_slop"] = case["aslop"]
    if case["maxtop"] is not None:
        kw.update(max_top=case["maxtop"], min_top=0)
    if not all((ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    c = gen.corr_class(case["typ"])(verbose=0, **kw)
    cats = [gen.catalog(d, "" if case["typ"] == "NNN" else "k", verbose=0) for d in ds]
    tri.process(c, cats, case["ordered"])
    ordered = case["ordered"]
    B = ref3.RUV(1, kw["min_sep"], kw["max_sep"])
    R = ref3.corr3(case["typ"], ds, B, ordered)
    if R["zero"]:
        raise Skip("coincident objects")
    if len(ds) > 1 and ordered:
        # which order fits may change with the slop, so only the unordered total is exact
        tri.process(c, cats, False)
        R = ref3.corr3(case["typ"], ds, B, False)
    if R["amb"]:
        raise Skip("ambiguous")
    ctx.tag(case["typ"], geo["coords"], "cats%d" % len(ds), "slop%s" % case["slop"])
    if R["ntri"].sum() == 0:
        ctx.trivial("no triangles")
    cmp.close("total number", c.ntri.sum(), R["ntri"].sum(), 1e-12)
    cmp.close("total weight", c.weight.sum(), R["weight"].sum(), 1e-9)
    if case["typ"] == "KKK":
        cmp.close("total of the field products", (c.zeta * c.weight).sum(), R["zeta"].sum(), 1e-9, R["abs"].sum())


SUBS.append(Sub("spec", spec_strat(), spec, quick=3000))
SUBS.append(Sub("total", total_strat(30), total, quick=1500))
