"""C24: LogSAS three-point correlations = direct sum over triangles."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, ref3, cmp, tri
from core import Sub, Skip, fail
from props import c23

RULE = ("One, two or three catalogs of 1..22 objects (4 coordinate systems x sky regions x layouts x weight modes), a (d2,d3,phi) binning "
        "(range, units of sides and angle, numbers of bins) and a mode (brute force or zero slop, triangle algorithm) are drawn; counts, "
        "weights, mean sides and angles and projected fields are compared with an independent numpy sum over all triangles and apexes.  "
        "Non-trivial: at least one triangle is counted; cases with a triangle within rounding of a bin edge or collinear are skipped.")
ASSUMPTIONS = ["triangles with two coincident vertices are not triangles", "objects of exactly zero weight are not counted",
               "with spherical coordinates and the Euclidean metric the angle that is binned is that of the chord triangle",
               "the centroid of a triangle wrapped by the Periodic metric is not defined, so GGG is not used with it"]

SPEC = st.fixed_dictionaries(dict(lo=st.sampled_from([0., 0., 0.2, 0.7]), hi=st.sampled_from([np.pi, np.pi, 2.6, 1.3]),
                                  n=st.integers(1, 5), units=st.sampled_from([None, None, "deg", "hours"])))


def spec_kw(s):
    pu = tri.UN[s["units"]]
    kw = dict(nphi_bins=s["n"])
    if s["units"]:
        kw["phi_units"] = s["units"]
    if s["lo"] != 0.:
        kw["min_phi"] = s["lo"] / pu
    if s["hi"] != np.pi:
        kw["max_phi"] = s["hi"] / pu
    return kw, pu


def run(case, ctx):
    s = case["spec"]
    kw, pu = spec_kw(s)
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, kw, "LogSAS")
    B = ref3.SAS(case["nbins"], mn, mx, s["lo"], s["hi"], s["n"])
    R = ref3.corr3(case["typ"], ds, B, case["ordered"], metric, period, tol=1e-9 if geo["coords"] != "sphere" else 1e-8)
    if R["amb"]:
        raise Skip("ambiguous")
    tri.process(c, cats, case["ordered"], algo="triangle")
    tri.tags(case, geo, metric, ctx, R)
    if s["units"]:
        ctx.tag("phi-units")
    tri.compare(c, R, dict(case, _ds=ds), geo, metric, cats, su, pu, tol_f=1e-8 if geo["coords"] == "flat" else 1e-6)


NARROW = st.tuples(st.sampled_from([0., 0., 0.05, 0.1, 0.2, 0.4, 0.8, 1.6, 2.4, 2.8, 3.0]), st.sampled_from([0.05, 0.1, 0.2, 0.4, 0.8, 4.]),
                   st.integers(1, 3)).map(lambda t: dict(lo=t[0], hi=min(np.pi, t[0] + t[1]), n=t[2], units=None))


SUBS = [
    Sub("narrow", tri.strat(16, 5, NARROW), run, quick=3000),
    Sub("small", tri.strat(8, 1, SPEC), run, quick=5000),
    Sub("medium", tri.strat(22, 8, SPEC), run, quick=3000),
]


def spec_strat():
    lim = st.fixed_dictionaries(dict(lo=st.sampled_from([None, 0., 0.1, 0.7, 1.6]), hi=st.sampled_from([None, np.pi, 3., 2.1]),
                                     size=st.sampled_from([None, 0.03, 0.11, 0.25, 0.7]), n=st.sampled_from([None, 1, 2, 3, 7, 20])))
    return st.fixed_dictionaries(dict(phi=lim, units=st.sampled_from([None, None, "radians", "degrees", "hours", "arcmin", "arcsec"]),
                                      nbins=st.integers(1, 9), min_sep=st.sampled_from([0.1, 1., 3.7]),
                                      ratio=st.sampled_from([1.3, 4., 25.]), drop=st.sampled_from(["nbins", "bin_size", "min_sep", "max_sep"])))


def spec(case, ctx):
    import treecorr
    mn = case["min_sep"]
    mx = mn * case["ratio"]
    nb = case["nbins"]
    bs = np.log(mx / mn) / nb
    kw = dict(nbins=nb, bin_size=bs, min_sep=mn, max_sep=mx, bin_type="LogSAS")
    del kw[case["drop"]]
    if case["drop"] == "nbins":
        kw["bin_size"] = bs * (1 + 1e-9)
    q = dict(case["phi"])
    if q["n"] is not None and q["size"] is not None and q["lo"] is None and q["hi"] is None:
        q["lo"] = 0.
    pu = 1.
    if case["units"] is not None and q["size"] is None:
        # phi_units is for min_phi, max_phi and meanphi
        import coord
        pu = coord.AngleUnit.from_name(case["units"]) / coord.radians
        kw["phi_units"] = case["units"]
        ctx.tag("units")
    for key, name, f in (("lo", "min_phi", pu), ("hi", "max_phi", pu), ("size", "phi_bin_size", 1.), ("n", "nphi_bins", 1)):
        if q[key] is not None:
            kw[name] = q[key] / f if key != "n" else q[key]
    want = c23.limits(q, bs, np.pi)
    if want is None:
        ctx.trivial("over-determined")
        try:
            treecorr.NNNCorrelation(**kw)
        except TypeError:
            return
        fail("four of min, max, size and number accepted: %s" % kw)
    c = treecorr.NNNCorrelation(verbose=0, **kw)
    lo, hi, size, n = want
    ctx.tag("drop-" + case["drop"], "n" if q["n"] is not None else "size")
    if c.nbins != nb or c.nphi_bins != n:
        fail("nbins %s, nphi_bins %s, expected %s, %s" % (c.nbins, c.nphi_bins, nb, n))
    cmp.close("range", [c.min_sep, c.max_sep, c.bin_size], [mn, mx, bs], 1e-8)
    cmp.close("phi limits", [c.min_phi, c.max_phi, c.phi_bin_size], [lo, hi, size], 1e-12, 4., str(kw))
    lr = np.log(mn) + (np.arange(nb) + 0.5) * bs
    cen = lo + (np.arange(n) + 0.5) * size
    cmp.close("logr1d", c.logr1d, lr, 1e-8, 1.)
    cmp.close("phi1d", c.phi1d, cen, 1e-12, 4.)
    cmp.close("d2nom", c.d2nom, np.exp(lr)[:, None, None] + np.zeros((nb, nb, n)), 1e-8)
    cmp.close("d3nom", c.d3nom, np.exp(lr)[None, :, None] + np.zeros((nb, nb, n)), 1e-8)
    cmp.close("phi", c.phi, cen[None, None, :] + np.zeros((nb, nb, n)), 1e-12, 4.)
    for a in ("ntri", "weight", "meand1", "meand2", "meand3", "meanphi", "meanlogd2"):
        if getattr(c, a).shape != (nb, nb, n):
            fail("shape of %s: %s" % (a, getattr(c, a).shape))


def total(case, ctx):
    """All (triangle, apex) combinations are counted once, whatever the tree, when the bins are wide enough for all of them."""
    case = dict(case, slop=0., aslop=0.)    # with slop the orientation is approximate too: nearly flat triangles may be lost
    ds, geo, metric, period = tri.data(dict(case, mode="slop0", spec={}, units=None))
    kw = dict(bin_type="LogSAS", nbins=1, min_sep=1e-9 * gen.sky_extent(geo), max_sep=1e3 * gen.sky_extent(geo), nphi_bins=1,
              split_method=case["split"])
    if geo["coords"] == "sphere":
        kw["max_sep"] = 2.01
    if case["slop"] is not None:
        kw["bin_slop"] = case["slop"] / np.log(kw["max_sep"] / kw["min_sep"])     # slop relative to the separation
    if case["aslop"] is not None:
        kw["angle_slop"] = case["aslop"]
    if case["maxtop"] is not None:
        kw.update(max_top=case["maxtop"], min_top=0)
    if not all((ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    c = gen.corr_class(case["typ"])(verbose=0, **kw)
    cats = [gen.catalog(d, "" if case["typ"] == "NNN" else "k", verbose=0) for d in ds]
    B = ref3.SAS(1, kw["min_sep"], kw["max_sep"])
    R = ref3.corr3(case["typ"], ds, B, False)
    if R["zero"]:
        raise Skip("coincident objects")
    if R["amb"]:
        raise Skip("ambiguous")
    tri.process(c, cats, False, algo="triangle")
    ctx.tag(case["typ"], geo["coords"], "cats%d" % len(ds), "slop%s" % case["slop"])
    if R["ntri"].sum() == 0:
        ctx.trivial("no triangles")
    cmp.close("total number", c.ntri.sum(), R["ntri"].sum(), 1e-12)
    cmp.close("total weight", c.weight.sum(), R["weight"].sum(), 1e-9)
    if case["typ"] == "KKK":
        cmp.close("total of the field products", (c.zeta * c.weight).sum(), R["zeta"].sum(), 1e-9, R["abs"].sum())


SUBS.append(Sub("spec", spec_strat(), spec, quick=3000))
SUBS.append(Sub("total", c23.total_strat(30), total, quick=1500))
