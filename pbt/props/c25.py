"""C25: the multipole algorithm agrees with the direct triangle sum."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, ref3, cmp, tri
from core import Sub, Skip, fail

RULE = ("direct: one, two or three catalogs of 1..20 objects, a (d2,d3) binning, a maximum order 0..7, and the algorithm (multipole or "
        "triangle) are drawn; every coefficient is compared with the numpy sum over ordered triangles of the product of weights and "
        "(projected) fields times exp(-i n phi).  sas: toSAS into default or given "
        "angle bins or a target (fresh or with stale contents), and processing LogSAS with the multipole algorithm (default, configured or given "
        "maximum order), against the documented Fourier sum including the change of shear projection, shared-out counts, variance and the results "
        "of every patch combination; unsuitable targets are refused.  resolution: the triangle algorithm with 30..200 angle bins against every "
        "order, within the rigorous bound |n| x half the bin width for each triangle, and exact equality of counts.  Non-trivial: at least one triangle is counted.")
ASSUMPTIONS = ["coincident objects form no triangle; cases with them are only used without a comparison of counts",
               "with spherical coordinates the angle is that between the great circles at the apex"]

SPEC = st.fixed_dictionaries(dict(maxn=st.integers(0, 7), algo=st.sampled_from(["multipole", "multipole", "multipole", "triangle"])))


def fields(typ):
    return dict(NNN=[], KKK=["zeta"], GGG=["gam0", "gam1", "gam2", "gam3"])[typ]


def field_max(typ, ds):
    out = 1.
    for d in (ds + [ds[-1]] * 2)[:3]:
        out *= {"NNN": lambda d: 1., "KKK": lambda d: np.abs(d["k"]).max(), "GGG": lambda d: np.abs(d["g"]).max()}[typ](d)
    return out


def setup(case):
    s = case["spec"]
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, dict(max_n=s["maxn"]), "LogMultipole")
    B = ref3.MP(case["nbins"], mn, mx, s["maxn"])
    R = ref3.corr3(case["typ"], ds, B, case["ordered"], metric, period, tol=1e-9 if geo["coords"] != "sphere" else 1e-8)
    if R["amb"]:
        raise Skip("ambiguous")
    if R["zero"]:
        raise Skip("coincident objects")
    return c, cats, ds, geo, metric, su, R


def direct(case, ctx):
    if case["mode"] == "slop0":
        case = dict(case, mode="slop0angle")
    c, cats, ds, geo, metric, su, R = setup(case)
    tri.process(c, cats, case["ordered"], algo=case["spec"]["algo"])
    tri.tags(case, geo, metric, ctx, R)
    ctx.tag(case["spec"]["algo"])
    nb, N = case["nbins"], 2 * case["spec"]["maxn"] + 1
    sh = (nb, nb, N)
    n = lambda a: np.asarray(a).reshape(nb * nb, N)
    if c.ntri.shape != sh:
        fail("shape %s, expected %s" % (c.ntri.shape, sh))
    aw = R["absw"][:, None] + np.zeros((1, N))
    cmp.close("ntri", n(c.ntri), R["ntri"][:, None] + np.zeros((1, N)), 1e-12)
    # sums of all pairs of sides, less those with coincident points: rounding is relative to the whole
    tot = np.prod([ref2.wts(d).sum() for d in (ds + [ds[-1]] * 2)[:3]])
    tf = 1e-9 if geo["coords"] == "flat" else 1e-6
    cmp.close("weight", n(c.weight), R["weight"], tf, aw + 1e-3 * tot)
    fmx = field_max(case["typ"], ds)
    g = R["ntri"] > 0
    w = np.where(g, R["absw"], 1.)
    for q in ("d2", "d3"):
        m = R["w" + q] / w
        l = R["wlog" + q] / w
        if geo["coords"] == "sphere" and metric == "Euclidean":
            m = tri.great(m)
            l = np.log(np.where(g, tri.great(np.exp(l)), 1.))
        nom = np.asarray(getattr(c, q + "nom")).reshape(nb * nb, N)[:, 0]
        m = np.where(g, m / su, nom)
        with np.errstate(all="ignore"):
            l = np.where(g, l - np.log(su), np.log(nom))
        # a bin whose weight is all from rounding noise is not checked
        cmp.close("mean" + q, n(getattr(c, "mean" + q))[g], (m[:, None] + np.zeros((1, N)))[g], 1e-7)
        cmp.close("meanlog" + q, n(getattr(c, "meanlog" + q))[g], (l[:, None] + np.zeros((1, N)))[g], 1e-7, 1.)
    for a in fields(case["typ"]):
        ab = R["abs"][:, None] + np.zeros((1, N))
        cmp.close(a, n(getattr(c, a)), R[a], tf, ab + 1e-3 * tot * fmx)
    # symmetry of opposite orders
    W = n(c.weight)
    cmp.close("weight of opposite orders", W[:, ::-1], np.conj(W), 1e-10, aw + 1e-2 * tot)
    if case["typ"] == "KKK":
        Z = n(c.zeta)
        cmp.close("zeta of opposite orders", Z[:, ::-1], np.conj(Z), 1e-10, ab + tot * fmx)


SAS = st.fixed_dictionaries(dict(
    maxn=st.integers(1, 8), via=st.sampled_from(["kwargs", "kwargs", "target", "target", "process", "process", "maxn"]),
    lo=st.sampled_from([None, None, 0., 0.3, 1.1]), hi=st.sampled_from([None, None, 1.3, 2.2, 3.1]), nphi=st.sampled_from([None, 1, 2, 3, 5, 9]),
    pu=st.sampled_from([None, None, "deg", "hours"]), npatch=st.sampled_from([0, 0, 2, 4]), pseed=st.integers(0, 5)))


def patched(case, geo, ds, cats):
    s = case["spec"]
    if not s["npatch"]:
        return cats
    out = []
    f = dict(NNN="", KKK="k", GGG="g")[case["typ"]]
    for i, d in enumerate(ds):
        if d["n"] < s["npatch"]:
            raise Skip("too few objects for the patches")
        p = np.random.RandomState(s["pseed"] + i).randint(0, s["npatch"], d["n"])
        p[:s["npatch"]] = np.arange(s["npatch"])
        w = ref2.wts(d)
        if any((w[p == j] == 0).all() for j in range(s["npatch"])):
            raise Skip("a patch without weight")
        out.append(gen.catalog(d, f, patch=p, verbose=0))
    return out


def fourier(x, maxn, phi, dphi):
    n = np.arange(-maxn, maxn + 1)
    return (x[..., :, None] * np.exp(1j * n[:, None] * phi[None, :])).sum(axis=-2) / (2 * np.pi) * dphi


def rotation(d2, d3, phi):
    """The change of projection directions: apex along the bisector, others along their sides -> all towards the centroid.
    Returns the spin-2 phases for each vertex."""
    p1 = np.zeros(d2.shape, complex)
    p3 = d2 + 0j
    p2 = d3 * np.exp(1j * phi)
    cen = (p1 + p2 + p3) / 3.
    out = []
    for p, along in ((p1, np.exp(0.5j * phi)), (p2, p2), (p3, p3)):
        t = np.angle(along) - np.angle(cen - p)
        out.append(np.exp(2j * t))
    return out


def sas(case, ctx):
    case = dict(case, mode="slop0angle")
    s = case["spec"]
    typ = case["typ"]
    pu = tri.UN[s["pu"]]
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, dict(max_n=s["maxn"]), "LogMultipole")
    cats = patched(case, geo, ds, cats)
    kw = {}
    lo = 0. if s["lo"] is None else s["lo"]
    hi = np.pi if s["hi"] is None else s["hi"]
    if s["lo"] is not None:
        kw["min_phi"] = s["lo"] / pu
    if s["hi"] is not None:
        kw["max_phi"] = s["hi"] / pu
    if s["pu"]:
        kw["phi_units"] = s["pu"]
    nphi = s["nphi"]
    if nphi is not None:
        kw["nphi_bins"] = nphi
    elif s["via"] != "kwargs":
        nphi = kw["nphi_bins"] = 4
    else:
        nphi = s["maxn"]
    dphi = (hi - lo) / nphi
    via = s["via"]
    if via in ("process", "maxn"):
        q = 2 * np.pi / dphi
        if via == "process":
            if abs(q - round(q)) < 1e-9:
                raise Skip("default maximum order is undecided by rounding")
            maxn = int(q)
        else:
            maxn = s["maxn"]
        case = dict(case, spec=dict(s, maxn=maxn))
        c = tri.build(case, dict(max_n=maxn), "LogMultipole")[0]
    else:
        maxn = s["maxn"]
    tri.process(c, cats, case["ordered"])
    mk = lambda **k: tri.build(case, dict(kw, **k), "LogSAS")[0]
    if via == "kwargs":
        t = c.toSAS(**kw)
    elif via == "target":
        t = mk()
        if s["pseed"] % 2:
            tri.process(t, cats, case["ordered"], algo="triangle")      # stale contents must not survive
        r = c.toSAS(target=t)
        if r is not t:
            fail("toSAS(target) did not return the target")
    elif via == "process":
        t = mk()
        tri.process(t, cats, case["ordered"], algo=[None, "multipole"][s["pseed"] % 2])
    else:
        if s["pseed"] % 2:
            t = mk()
            tri.process(t, cats, case["ordered"], max_n=maxn)
        else:
            t = mk(max_n=maxn)
            tri.process(t, cats, case["ordered"])
    nt = c.ntri[:, :, 0]
    fmx = field_max(typ, ds)
    ctx.tag(typ, geo["coords"], via, "patches" if s["npatch"] else "no-patches", "units" if s["pu"] else "radians")
    if nt.sum() == 0:
        ctx.trivial("no triangles")
    if t.bin_type != "LogSAS" or type(t) is not type(c):
        fail("result is a %s with bin_type %s" % (type(t).__name__, t.bin_type))
    nb = case["nbins"]
    if t.weight.shape != (nb, nb, nphi):
        fail("shape %s, expected %s" % (t.weight.shape, (nb, nb, nphi)))
    phi = lo + dphi * (np.arange(nphi) + 0.5)
    cmp.close("phi", t.phi1d, phi, 1e-12, 1.)
    full = np.zeros(t.weight.shape)
    cmp.close("meanphi", t.meanphi, full + phi / pu, 1e-12, 1. / pu)
    m2 = c.meand2[:, :, :1] + full
    m3 = c.meand3[:, :, :1] + full
    cmp.close("meand2", t.meand2, m2, 1e-12)
    cmp.close("meand3", t.meand3, m3, 1e-12)
    cmp.close("meanlogd2", t.meanlogd2, c.meanlogd2[:, :, :1] + full, 1e-12, 1.)
    cmp.close("meanlogd3", t.meanlogd3, c.meanlogd3[:, :, :1] + full, 1e-12, 1.)
    m1 = np.sqrt(m2 ** 2 + m3 ** 2 - 2 * m2 * m3 * np.cos(phi))
    cmp.close("meand1", t.meand1, m1, 1e-7, m2)
    cmp.close("meanlogd1", np.exp(t.meanlogd1), m1, 1e-7, m2)
    tot = np.prod([ref2.wts(d).sum() for d in (ds + [ds[-1]] * 2)[:3]])
    aw = np.abs(c.weight).max(axis=2)[:, :, None]
    w = fourier(c.weight, maxn, phi, dphi).real
    cmp.close("weight", t.weight, w, 1e-10, aw + 1e-3 * tot)
    # counts are shared out in proportion to the weights
    ws = t.weight.sum(axis=2)
    good = np.abs(ws) > 1e-6 * (np.abs(t.weight).sum(axis=2) + 1e-3 * tot)
    share = t.weight / np.where(good, ws, 1.)[:, :, None] * nt[:, :, None] * (hi - lo) / (2 * np.pi)
    cmp.close("ntri", t.ntri[good], share[good], 1e-9, np.abs(share[good]).max() if good.any() else 0.)
    cmp.close("total ntri", t.ntri.sum(axis=2)[good], (nt * (hi - lo) / (2 * np.pi))[good], 1e-6)

    def fields(x, ph):
        if typ == "KKK":
            return dict(zeta=fourier(x.zeta, maxn, phi, dphi).real)
        out = {a: fourier(getattr(x, a), maxn, phi, dphi) for a in ("gam0", "gam1", "gam2", "gam3")}
        e = lambda i: [np.conj(p) if j == i else p for j, p in enumerate(ph)]
        for i, a in enumerate(("gam0", "gam1", "gam2", "gam3")):
            q = e(i - 1)
            out[a] = out[a] * q[0] * q[1] * q[2]
        return out
    if typ != "NNN":
        ph = rotation(m2, m3, phi) if typ == "GGG" else None
        W = np.where(t.weight != 0, t.weight, 1.)
        for a, want in fields(c, ph).items():
            raw = getattr(c, a)
            sc = np.abs(raw).max(axis=2)[:, :, None] + 1e-3 * tot * fmx
            # compared before division by the weight, which may be as small as rounding noise
            cmp.close(a, getattr(t, a) * W, want, 1e-9, sc)
        if typ == "KKK":
            v = tri.expect_var(case, cats, "LogSAS")
            cmp.close("varzeta", t.varzeta * np.abs(t.weight), np.where(t.weight != 0, v, 0.), 1e-9, v)
    else:
        cmp.close("tot", t.tot, c.tot, 0.)
    # per-patch results are those of the transform of each
    if sorted(t.results) != sorted(c.results):
        fail("results for %s, expected %s" % (sorted(t.results), sorted(c.results)))
    for k, v in c.results.items():
        r = t.results[k]
        awk = np.abs(v.weight).max(axis=2)[:, :, None]
        cmp.close("weight of %s" % (k,), r.weight, fourier(v.weight, maxn, phi, dphi).real, 1e-10, awk + 1e-3 * tot)
        cmp.close("meand2 of %s" % (k,), r.meand2, t.meand2 * r.weight, 1e-12, t.meand2 * awk)
        cmp.close("meanphi of %s" % (k,), r.meanphi, t.meanphi * r.weight, 1e-12, t.meanphi * awk)
        if typ == "NNN":
            cmp.close("tot of %s" % (k,), r.tot, v.tot, 0.)
        else:
            for a, want in fields(v, ph).items():
                raw = getattr(v, a)
                cmp.close("%s of %s" % (a, k), getattr(r, a), want, 1e-9, np.abs(getattr(c, a)).max() + 1e-3 * tot * fmx)
    if via == "target":
        for bad, exc in ((c.__class__(bin_type="LogSAS", nbins=nb, min_sep=mn / su, max_sep=1.5 * mx / su, verbose=0,
                                      **({"sep_units": case["units"]} if su != 1. else {})), ValueError),
                         (gen.corr_class("NNN" if typ != "NNN" else "KKK")(bin_type="LogSAS", nbins=nb, min_sep=mn, max_sep=mx, verbose=0), ValueError)):
            try:
                c.toSAS(target=bad)
            except exc:
                pass
            else:
                fail("toSAS accepted an unsuitable target")
        try:
            t.toSAS()
        except TypeError:
            pass
        else:
            fail("toSAS of a LogSAS correlation was accepted")


RES = st.fixed_dictionaries(dict(maxn=st.integers(0, 12), nphi=st.sampled_from([30, 100, 200])))


def resolution(case, ctx):
    """Triangle algorithm with narrow angle bins against the multipoles: a rigorous bound from the bin width."""
    case = dict(case, mode="slop0angle")
    s = case["spec"]
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, dict(max_n=s["maxn"]), "LogMultipole")
    N = s["maxn"]
    if geo["coords"] != "flat" and metric != "Arc":
        raise Skip("the two binnings define the angle differently here")
    if any((np.abs(x[:, None] - x[None, :]) < 1e-9 * mx)[~np.eye(len(x), dtype=bool)].any()
           for x in (ref2.cart(d).sum(axis=1) for d in ds) if len(x) > 1):
        raise Skip("coincident objects")
    if len(ds) > 1 and min(np.abs(ref2.cart(a)[:, None] - ref2.cart(b)[None]).max(axis=2).min()
                           for i, a in enumerate(ds) for b in ds[:i]) < 1e-9 * mx:
        raise Skip("coincident objects")
    tri.process(c, cats, case["ordered"])
    ctx.tag(case["typ"], geo["coords"], metric, "cats%d" % case["ncat"], "ordered" if case["ordered"] else "unordered")

    def direct(cc):
        t = tri.build(case, dict(nphi_bins=s["nphi"]), "LogSAS")[0]
        tri.process(t, cc, case["ordered"], algo="triangle")
        return t
    t = direct(cats)
    # the other orientation
    if len(cats) == 3 and case["ordered"]:
        t2 = direct([cats[0], cats[2], cats[1]])
    else:
        t2 = t
    sw = lambda x: np.swapaxes(x, 0, 1)
    if c.ntri[:, :, 0].sum() == 0:
        ctx.trivial("no triangles")
    # a few triangles may sit on a bin edge within rounding; none may be lost in total
    n1 = t.ntri.sum(axis=2) + sw(t2.ntri).sum(axis=2)
    cmp.eq("ntri of both orientations", n1, c.ntri[:, :, 0])
    phi = t.phi1d
    dphi = np.pi / s["nphi"]
    tot = np.prod([ref2.wts(d).sum() for d in (ds + [ds[-1]] * 2)[:3]])
    for a in ["weight"] + (["zeta"] if case["typ"] == "KKK" else []):
        if a == "weight":
            A, B = t.weight, sw(t2.weight)
            absA, absB = A, B
            big = 1.
        else:
            A, B = t.zeta * t.weight, sw(t2.zeta * t2.weight)
            big = np.prod([np.abs(d["k"]).max() for d in (ds + [ds[-1]] * 2)[:3]])
            absA, absB = big * t.weight, big * sw(t2.weight)
        for i, n in enumerate(range(-N, N + 1)):
            want = (A * np.exp(-1j * n * phi) + B * np.exp(1j * n * phi)).sum(axis=2)
            # |exp(-in(phi+x)) - exp(-in phi)| <= |n| |x| for each triangle
            bound = (absA + absB).sum(axis=2) * min(2., abs(n) * dphi / 2 * 1.0001) + 1e-7 * tot * big
            err = np.abs(getattr(c, a)[:, :, i] - want)
            if (err > bound).any():
                j = np.argmax(err - bound)
                fail("%s[n=%d] differs from the sum over narrow angle bins by %s (bound %s), value %s" % (
                    a, n, err.ravel()[j], bound.ravel()[j], getattr(c, a)[:, :, i].ravel()[j]))


SUBS = [
    Sub("small", tri.strat(7, 1, SPEC, layouts=["uniform", "cluster", "two", "tight", "line"]), direct, quick=5000),
    Sub("medium", tri.strat(20, 7, SPEC, layouts=["uniform", "cluster", "two", "tight"]), direct, quick=3000),
    Sub("sas", tri.strat(12, 2, SAS, layouts=["uniform", "cluster", "two", "tight"]), sas, quick=2500),
    Sub("resolution", tri.strat(60, 4, RES, metrics=("alt", "alt", "Euclidean"), types=["NNN", "KKK", "KKK"], layouts=["uniform", "cluster", "two", "tight"]), resolution, quick=2000),
]
