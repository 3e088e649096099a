"""Shared generator and comparison for direct three-point sums (C23-C26)."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, ref3, cmp
from core import Skip, fail

LAYOUTS = ["uniform", "cluster", "two", "tight", "uniform", "line", "dups"]
UN = {None: 1., "deg": np.pi / 180, "arcmin": np.pi / 10800, "hours": np.pi / 12}
TYPES = ["NNN", "KKK", "KKK", "GGG"]


def strat(nmax, nmin, spec, types=TYPES, layouts=LAYOUTS, metrics=("Euclidean", "Euclidean", "alt"), extra={}):
    cs = gen.cat_spec(nmax, nmin, layouts=layouts, wmodes=["none", "uniform", "zeros", "wide"])
    d = dict(
        typ=st.sampled_from(list(types)), ncat=st.sampled_from([1, 1, 2, 3]), ordered=st.sampled_from([True, True, False]),
        geo=gen.geom(), c1=cs, c2=cs, c3=cs, same=st.integers(0, 5),
        nbins=st.integers(1, 5), fmax=st.sampled_from([0.1, 0.3, 0.4321, 0.9171, 0.9171, 1.2345, 2.7]), fmin=st.sampled_from([0.001, 0.0317, 0.0317, 0.2113, 0.77]),
        spec=spec, mode=st.sampled_from(["brute", "slop0", "slop0", "slop0angle"]), maxtop=st.sampled_from([0, 0, 1, 3, None]),
        metric=st.sampled_from(list(metrics)), units=st.sampled_from([None, None, "deg", "arcmin", "hours"]),
    )
    d.update(extra)
    return st.fixed_dictionaries(d)


def mode_kw(mode):
    return dict(brute=dict(brute=True), slop0=dict(bin_slop=0), slop0angle=dict(bin_slop=0, angle_slop=0.))[mode]


def data(case):
    """(list of data, geo, metric, period)"""
    geo = case["geo"]
    ds = [gen.make(case["c1"], geo)]
    for i in range(1, case["ncat"]):
        s = case["c%d" % (i + 1)]
        if case["same"] == i:
            s = dict(s, seed=case["c1"]["seed"], layout=case["c1"]["layout"], off=case["c1"]["off"])
        ds.append(gen.make(s, geo))
    metric, period = "Euclidean", None
    if case["metric"] == "alt":
        if geo["coords"] in ("sphere", "rdr"):
            metric = "Arc"
        elif case["typ"] != "GGG":
            metric = "Periodic"
            period = [1.7 * geo["scale"]] * 3
            for d in ds:
                for c in ("x", "y", "zpos"):
                    if c in d:
                        d[c] = np.mod(d[c], period[0])
    return ds, geo, metric, period


def seps(case, geo, metric, period):
    ext = gen.sky_extent(geo)
    cap = np.inf
    if metric == "Arc":
        ext = 2.0 if geo["sky"] in ("full", "anti") else geo["theta"]
        cap = 3.0
    elif geo["coords"] == "sphere":
        cap = 1.91
    mx = min(case["fmax"] * ext, cap)
    if period:
        mx = min(mx, 0.24 * period[0])
    return mx * case["fmin"], mx


def build(case, spec_kw, bin_type, **more):
    """Correlation, catalogs, data and what the reference needs."""
    ds, geo, metric, period = data(case)
    mn, mx = seps(case, geo, metric, period)
    su = 1.
    kw = dict(bin_type=bin_type, nbins=case["nbins"], **spec_kw)
    if case["units"] and (geo["coords"] == "sphere" or metric == "Arc"):
        su = UN[case["units"]]
        kw["sep_units"] = case["units"]
    kw.update(min_sep=mn / su, max_sep=mx / su)
    kw.update(mode_kw(case["mode"]))
    if case["maxtop"] is not None:
        kw.update(max_top=case["maxtop"], min_top=0)
    if period:
        kw["period"] = period[0]
    if metric != "Euclidean":
        kw["metric"] = metric
    kw.update(more)
    if not all((ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    f = dict(NNN="", KKK="k", GGG="g")[case["typ"]]
    corr = gen.corr_class(case["typ"])(verbose=0, **kw)
    cats = [gen.catalog(d, f, verbose=0) for d in ds]
    return corr, cats, ds, geo, metric, period, mn, mx, su


def tags(case, geo, metric, ctx, R):
    ctx.tag(case["typ"], geo["coords"], metric, "cats%d" % case["ncat"], "ordered" if case["ordered"] else "unordered",
            case["mode"], case["c1"]["layout"], "units" if case["units"] else "no-units")
    n = R["ntri"].sum()
    if n == 0:
        ctx.trivial("no triangles")
    else:
        ctx.tag("triangles>100" if n > 100 else "triangles<=100")
    if R["zero"]:
        ctx.tag("coincident-objects")


def names(typ):
    return dict(NNN=[], KKK=["zeta"], GGG=["gam0", "gam1", "gam2", "gam3"])[typ]


def great(x):
    return 2 * np.arcsin(np.minimum(x / 2, 1.))


def expect_var(case, cats, bin_type):
    """The documented numerator of the shot noise variance."""
    v = [getattr(c, dict(KKK="vark", GGG="varg")[case["typ"]]) for c in cats]
    v = dict([(1, [v[0]] * 3), (2, [v[0], v[-1], v[-1]]), (3, v)])[len(cats)]
    out = v[0] * v[1] * v[2] * (4. if case["typ"] == "GGG" else 1.)
    return out * (2. if bin_type != "LogRUV" else 1.)


def compare(c, R, case, geo, metric, cats, su=1., pu=1., tol_f=1e-8, what=""):
    """A finalized LogRUV or LogSAS correlation against the direct sums."""
    sh = c.ntri.shape
    n = lambda a: np.asarray(a).ravel()
    cmp.eq("ntri", n(c.ntri), R["ntri"], what)
    cmp.close("weight", n(c.weight), R["weight"], 1e-9, None, what)
    em = R["ntri"] == 0
    g = ~em
    w = np.where(g, R["weight"], 1.)
    chord = geo["coords"] == "sphere" and metric == "Euclidean"
    sas = c.bin_type == "LogSAS"
    mean = {q: R["w" + q] / w for q in ("d1", "d2", "d3", "u", "v")}
    logs = {q: R["wlog" + q] / w for q in ("d1", "d2", "d3")}
    if chord:
        if sas:
            with np.errstate(all="ignore"):
                cp = np.cos(mean["u"]) - 0.25 * mean["d2"] * mean["d3"]
                cp = cp / np.sqrt((1 - mean["d2"] ** 2 / 4) * (1 - mean["d3"] ** 2 / 4))
            mean["u"] = np.arccos(np.clip(np.where(g, cp, 1.), -1, 1))
        for q in ("d1", "d2", "d3"):
            mean[q] = great(mean[q])
            logs[q] = np.log(np.where(g, great(np.exp(logs[q])), 1.))
    with np.errstate(all="ignore"):
        for q in ("d1", "d2", "d3"):
            cmp.close("mean" + q, n(getattr(c, "mean" + q))[g], mean[q][g] / su, 1e-8, None, what)
            cmp.close("meanlog" + q, n(getattr(c, "meanlog" + q))[g], logs[q][g] - np.log(su), 1e-8, 1., what)
        if sas:
            cmp.close("meanphi", n(c.meanphi)[g], mean["u"][g] / pu, 1e-6 if chord else 1e-7, 1. / pu, what)
        else:
            cmp.close("meanu", n(c.meanu)[g], mean["u"][g], 1e-8, None, what)
            cmp.close("meanv", n(c.meanv)[g], mean["v"][g], 1e-7, 1., what)
    # bins without triangles report nominal values
    if em.any():
        if sas:
            d2, d3, phi = n(c.d2nom)[em], n(c.d3nom)[em], n(c.phi)[em]
            cmp.close("meanphi of empty bins", n(c.meanphi)[em], phi / pu, 1e-12, None, what)
            d1 = np.sqrt(d2 ** 2 + d3 ** 2 - 2 * d2 * d3 * np.cos(phi))
        else:
            d2 = n(c.rnom)[em]
            d3 = d2 * n(c.u)[em]
            d1 = d2 + np.abs(n(c.v)[em]) * d3
            cmp.close("meanu of empty bins", n(c.meanu)[em], n(c.u)[em], 1e-12, None, what)
            cmp.close("meanv of empty bins", n(c.meanv)[em], n(c.v)[em], 1e-12, None, what)
        for q, v in (("d1", d1), ("d2", d2), ("d3", d3)):
            cmp.close("mean%s of empty bins" % q, n(getattr(c, "mean" + q))[em], v, 1e-9, None, what)
            cmp.close("meanlog%s of empty bins" % q, n(getattr(c, "meanlog" + q))[em], np.log(v), 1e-9, 1., what)
    for a in names(case["typ"]):
        want = np.where(g, R[a] / w, 0.)
        cmp.close(a, n(getattr(c, a)), want, tol_f, np.where(g, R["abs"] / np.abs(w), 0.), what, atol=1e-13)
    if case["typ"] == "NNN":
        W = [ref2.wts(d).sum() for d in case["_ds"]]
        tot = dict([(1, W[0] ** 3 / 6.), (2, W[0] * W[-1] ** 2 / 2.), (3, np.prod(W))])[len(W)]
        cmp.close("tot", c.tot, tot, 1e-12, None, what)
    else:
        vn = expect_var(case, cats, c.bin_type)
        for a in dict(KKK=["varzeta"], GGG=["vargam0", "vargam1", "vargam2", "vargam3"])[case["typ"]]:
            cmp.close(a, n(getattr(c, a)), np.where(g, vn / w, 0.), 1e-9, None, what)


def process(c, cats, ordered, **kw):
    if len(cats) == 1:
        c.process(cats[0], **kw)
    else:
        c.process(*cats, ordered=ordered, **kw)
