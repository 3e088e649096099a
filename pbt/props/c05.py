"""C05: bin_slop and angle_slop only blur by the documented amount."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("Catalogs of 20..500 objects, all bin types, bin_slop in [0,3] (or default), angle_slop, tree depth options.  bracket: the "
        "cumulative counts and weights below every bin edge lie between the exact ones one slop below and above the edge.  total: with "
        "bins wide enough to hold every pair, counts, weights and scalar sums over all bins are preserved, mean separations up to "
        "the slop, projected fields up to the angle slop.  ident, ident3: every pair or triangle carries its own bit, so that its bin is known "
        "and compared with its own separations and angles.  Non-trivial: the result differs from the exact one, i.e. slop was active.")
ASSUMPTIONS = ["the slop of a pair is relative to the separation of the cell centres (1-b .. e^b around an edge for log bins)",
               "the angular bound is checked on flat coordinates, where it is elementary"]


def strat(nmax, nmin):
    return st.fixed_dictionaries(dict(
        geo=gen.geom(), c1=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "wide", "zeros"]),
        c2=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "wide"]), auto=st.booleans(),
        typ=st.sampled_from(["NN", "KK", "NK"]), bins=gen.bins_spec(), slop=st.sampled_from([None, 0.05, 0.3, 1.0, 1.0, 2.0, 3.0]),
        aslop=st.sampled_from([None, 0.05, 0.3, 1.0, 10.]), maxtop=st.sampled_from([0, 0, 1, 3, None]),
        metric=st.sampled_from(["Euclidean", "Euclidean", "alt"]), split=st.sampled_from(["mean", "median", "middle", "random"]),
        brute=st.sampled_from([None, None, None, 1, 2]), units=st.sampled_from([None, "deg", "arcmin", "hours"]),
    ))


def setup(case):
    geo = case["geo"]
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    b = case["bins"]
    if geo["coords"] != "flat" and b["bin_type"] == "TwoD":
        b = dict(b, bin_type="Linear")
    bk = gen.bins_kw(b, geo)
    kw = dict(bk, split_method=case["split"])
    metric, period = "Euclidean", None
    if case["metric"] == "alt" and b["bin_type"] != "TwoD":
        if geo["coords"] == "sphere":
            metric = "Arc"
        elif geo["coords"] in ("flat", "3d"):
            metric = "Periodic"
            period = [1.7 * geo["scale"]] * 3
            for d in (d1, d2):
                for c in ("x", "y", "zpos"):
                    if c in d:
                        d[c] = np.mod(d[c], period[0])
            bk["max_sep"] = min(bk["max_sep"], 0.49 * period[0])
            bk["min_sep"] = min(bk["min_sep"], 0.4 * bk["max_sep"])
            kw.update(bk, period=period[0])
        if metric != "Euclidean":
            kw["metric"] = metric
    if case["slop"] is not None:
        kw["bin_slop"] = case["slop"]
    if case["aslop"] is not None:
        kw["angle_slop"] = case["aslop"]
    if case["maxtop"] is not None:
        kw.update(min_top=0, max_top=case["maxtop"])
    if case["brute"]:
        kw["brute"] = case["brute"]
    return geo, d1, d2, b, bk, kw, metric, period


UN = {None: 1., "deg": np.pi / 180, "arcmin": np.pi / 10800, "hours": np.pi / 12, "radians": 1.}


def set_units(kw, units, coords):
    """Give the range in these units.  Returns the unit (in radians)."""
    if coords != "sphere" or units is None:
        return 1.
    for a in ("min_sep", "max_sep"):
        if a in kw:
            kw[a] = kw[a] / UN[units]
    kw["sep_units"] = units
    return UN[units]


def slop_of(c, su=1.):
    """The allowed slop: a fraction bin_slop of a bin; a fraction of the separation for log bins."""
    return c.bin_slop * c.bin_size * (1. if c.bin_type == "Log" else su)


def msize(c, su=1.):
    """Cells smaller than this are not split and count as points (Corr2._get_minmax_size)."""
    if c.metric not in (None, "Euclidean") or c.brute is True:
        return 0.
    if c.bin_type == "Log":
        b = min(c.angle_slop, slop_of(c))
        return c.min_sep * su * b / (2 + 3 * b)
    a = c.angle_slop
    return min(a * c.min_sep * su / (2 + 3 * a), slop_of(c, su) / 2)


def seps(d1, d2, metric, period, auto):
    p1 = ref2.cart(d1)
    p2 = p1 if auto else ref2.cart(d2)
    r = ref2.metric_sep(p1, p2, metric, period)
    w1 = ref2.wts(d1)
    w2 = w1 if auto else ref2.wts(d2)
    W = w1[:, None] * w2[None, :]
    live = W != 0
    D = p2[None, :, :2] - p1[:, None, :2]
    return r, W, live, D


def run_bracket(case, ctx):
    geo, d1, d2, b, bk, kw, metric, period = setup(case)
    typ = case["typ"]
    auto = case["auto"] and typ[0] == typ[1]
    f1, f2 = gen.fields_of(typ)
    su = set_units(kw, case.get("units"), geo["coords"])
    c = gen.corr_class(typ)(**kw)
    cat1 = gen.catalog(d1, f1)
    if not (ref2.wts(d1) != 0).any():
        raise Skip("no live objects")
    if auto:
        c.process(cat1)
    else:
        c.process(cat1, gen.catalog(d2, f2))
    r, W, live, D = seps(d1, d2, metric, period, auto)
    t = b["bin_type"]
    slop = slop_of(c, su)
    m = msize(c, su)
    mn, mx = bk.get("min_sep", 0.), bk["max_sep"]
    eps = 1e-6
    if auto:
        n = d1["n"]
        if t == "TwoD":
            live &= ~np.eye(n, dtype=bool)
        else:
            live &= np.triu(np.ones((n, n), bool), 1)
    ctx.tag(t, typ, "auto" if auto else "cross", geo["coords"], metric, "slop=%s" % case["slop"], "aslop=%s" % case["aslop"])
    N, Wt = c.npairs, c.weight
    if t in ("Log", "Linear"):
        B = ref2.Binner(**bk)
        rr, ww = r[live], W[live]
        o = np.argsort(rr)
        rr, ww = rr[o], ww[o]
        cw = np.concatenate([[0.], np.cumsum(ww)])

        def cum(x):
            i = np.searchsorted(rr, x, side="left")
            return np.asarray(i, float), cw[i]
        if t == "Log":
            lo = lambda e: np.maximum(e * max(0., 1 - slop) * (1 - eps) - m, 0.)
            hi = lambda e: e * np.exp(slop) * (1 + eps) + m
        else:
            lo = lambda e: np.maximum(e - slop - m - eps * mx, 0.)
            hi = lambda e: e + slop + m + eps * mx
        e = B.edges
        exact, _ = np.histogram(rr, e)
        for what, got in (("npairs", N), ("weight", Wt)):
            j = 0 if what == "npairs" else 1
            C = np.cumsum(got)
            up = cum(hi(e[1:]))[j] - cum(lo(e[0]))[j]
            dn = np.maximum(cum(lo(e[1:]))[j] - cum(hi(e[0]))[j], 0)
            tol = 1e-9 * (cw[-1] if j else 0)
            if np.any(C > up + tol) or np.any(C < dn - tol):
                k = int(np.nonzero((C > up + tol) | (C < dn - tol))[0][0])
                fail("cumulative %s up to bin %d is %s, outside [%s, %s] (slop b=%g)" % (what, k, C[k], dn[k], up[k], slop))
            # from above
            C = np.cumsum(got[::-1])[::-1]
            up = cum(hi(e[-1]))[j] - cum(lo(e[:-1]))[j]
            dn = np.maximum(cum(lo(e[-1]))[j] - cum(hi(e[:-1]))[j], 0)
            if np.any(C > up + tol) or np.any(C < dn - tol):
                k = int(np.nonzero((C > up + tol) | (C < dn - tol))[0][0])
                fail("cumulative %s from bin %d on is %s, outside [%s, %s] (slop b=%g)" % (what, k, C[k], dn[k], up[k], slop))
        if np.array_equal(exact, N):
            ctx.trivial("same as exact")
        # mean separations lie within the slop of the bin
        good = N > 0
        L, H = lo(e[:-1]), hi(e[1:])
        if geo["coords"] == "sphere" and metric == "Euclidean":
            L, H = [2 * np.arcsin(np.minimum(x / 2, 1.)) for x in (L, H)]
        wpos = good & (Wt > 0)
        if np.any(wpos & ((c.meanr * su < L) | (c.meanr * su > H))):
            fail("meanr %s outside its bin plus slop %s..%s" % (c.meanr * su, L, H))
        ml = np.exp(c.meanlogr) * su
        if np.any(wpos & ((ml < L) | (ml > H))):
            fail("meanlogr %s outside its bin plus slop %s..%s" % (c.meanlogr + np.log(su), np.log(L), np.log(H)))
    else:
        dx, dy, rr, ww = D[..., 0][live], D[..., 1][live], r[live], W[live]
        nb = bk["nbins"]
        e = np.linspace(-mx, mx, nb + 1)
        s = slop + m + eps * mx
        inner_up = (np.maximum(np.abs(dx), np.abs(dy)) < mx + s) & (rr >= mn - s)
        inner_dn = (np.maximum(np.abs(dx), np.abs(dy)) < mx - s) & (rr >= mn + s) & (rr > s)
        exact = np.histogram2d(dy[(rr >= mn) & (rr > 0)], dx[(rr >= mn) & (rr > 0)], [e, e])[0]
        if np.array_equal(exact, N):
            ctx.trivial("same as exact")
        for j, got in enumerate((N, Wt)):
            v = np.ones(len(ww)) if j == 0 else ww
            C = np.cumsum(np.cumsum(got, axis=0), axis=1)
            big = 1e30
            eu, ed = e[1:] + s, e[1:] - s
            up = np.histogram2d(dy[inner_up], dx[inner_up], [np.concatenate([[-big], eu])] * 2, weights=v[inner_up])[0]
            dn = np.histogram2d(dy[inner_dn], dx[inner_dn], [np.concatenate([[-big], ed])] * 2, weights=v[inner_dn])[0]
            up = np.cumsum(np.cumsum(up, axis=0), axis=1)
            dn = np.cumsum(np.cumsum(dn, axis=0), axis=1)
            tol = 1e-9 * ww.sum()
            if np.any(C > up + tol) or np.any(C < dn - tol):
                fail("2d cumulative %s outside the slop bracket: %s not in [%s, %s]" % (["npairs", "weight"][j], C, dn, up))
            # each bin on its own: only pairs within slop of the bin
            for iy in range(nb):
                m1 = inner_up & (dy >= e[iy] - s) & (dy < e[iy + 1] + s)
                h = np.array([v[m1 & (dx >= e[ix] - s) & (dx < e[ix + 1] + s)].sum() for ix in range(nb)])
                if np.any(got[iy] > h + tol):
                    fail("2d bins of row %d hold %s, more than the %s pairs within slop of them" % (iy, got[iy], h))


def strat_tot(nmax, nmin):
    return st.fixed_dictionaries(dict(
        geo=gen.geom(coords=["flat", "flat", "3d", "sphere"]), c1=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "wide"], fmodes=["rand", "const"]),
        c2=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "wide"], fmodes=["rand", "const"]),
        auto=st.booleans(), typ=st.sampled_from(["NN", "KK", "NK", "NZ", "KZ", "NG", "NG", "KG", "GG", "NV", "VV", "NT", "TT", "NQ", "QQ", "KV", "KQ"]),
        bt=st.sampled_from(["Log", "Linear"]), nbins=st.integers(1, 10), slop=st.sampled_from([None, 0.1, 1.0, 2.0]),
        aslop=st.sampled_from([None, 0.01, 0.05, 0.1, 0.3, 0.7]), maxtop=st.sampled_from([0, 1, None]),
    ))


def run_total(case, ctx):
    geo = dict(case["geo"])
    typ = case["typ"]
    spin = (ref2.SPIN[typ[0]], ref2.SPIN[typ[1]])
    if max(spin) > 0:
        geo["coords"] = "flat"
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    auto = case["auto"] and typ[0] == typ[1]
    r, W, live, D = seps(d1, d2, "Euclidean", None, auto)
    if auto:
        live &= np.triu(np.ones(live.shape, bool), 1)
    pos = r[live & (r > 0)]
    if len(pos) == 0:
        raise Skip("no separations")
    mn, mx = pos.min() * 0.3, pos.max() * 4.
    if mx / mn > 1e7:
        mn = mx / 1e7
    if (live & (r <= mn * 3)).any():
        raise Skip("coincident pairs")
    kw = dict(min_sep=mn, max_sep=mx, nbins=case["nbins"], bin_type=case["bt"])
    for k, v in (("bin_slop", case["slop"]), ("angle_slop", case["aslop"])):
        if v is not None:
            kw[k] = v
    if case["maxtop"] is not None:
        kw.update(min_top=0, max_top=case["maxtop"])
    c = gen.corr_class(typ)(**kw)
    f1, f2 = gen.fields_of(typ)
    if auto:
        c.process(gen.catalog(d1, f1))
    else:
        c.process(gen.catalog(d1, f1), gen.catalog(d2, f2))
    b, a = slop_of(c), c.angle_slop
    ma = a + msize(c) / pos.min()
    if case["bt"] == "Log" and b > 0.6:
        raise Skip("slop wider than the margins")
    if case["bt"] == "Linear" and a > 0.65:     # margins of 0.3 below the closest pair
        raise Skip("slop wider than the margins")
    if case["bt"] == "Log" and 0.5 * (c.bin_size + b) > 0.6 and a > 0.6:
        pass
    N = live.sum()
    ctx.tag(typ, case["bt"], "auto" if auto else "cross", "aslop=%s" % a)
    if c.npairs.sum() != N:
        fail("total npairs %s, every one of the %s pairs is well inside the range" % (c.npairs.sum(), N))
    cmp.close("total weight", c.weight.sum(), W[live].sum(), 1e-9)
    B = ref2.Binner("Linear", 1, 0., mx * 2)
    R = ref2.corr2(typ, d1, None if auto else d2, B)
    if typ[1] != "N":
        for nm in cmp.xi_names(typ):
            if auto and nm == "xip_im":
                continue
            tot = (getattr(c, nm) * c.weight).sum()
            ex = R[nm][0]
            ps = 0.
            if nm.startswith("xip"):
                ps = abs(spin[0] - spin[1])
            else:
                ps = spin[0] + spin[1]
            da = np.arcsin(min(1., ma * (1 + 1e-6)))
            bound = R["absf"][0] * (2 * np.sin(min(ps * da, np.pi) / 2) + 3e-6)
            if not abs(tot - ex) <= bound + 1e-12:
                fail("sum of %s over all bins %s differs from %s by more than the angle slop %s allows (%s)" % (nm, tot, ex, a, bound))
            if abs(tot - ex) > 1e-5 * R["absf"][0]:
                ctx.tag("angle-slop-active")
    # mean separation
    if geo["coords"] != "sphere":
        s = (c.meanr * c.weight).sum()
        ex = (W[live] * r[live]).sum()
        fr = ma - a + (min(a, max(b, 0.5 * (c.bin_size + b))) if case["bt"] == "Log" else a)
        if not abs(s - ex) <= fr * max(s, ex) * (1 + 1e-6) + 1e-9 * ex:
            fail("total of separations %s differs from %s by more than a fraction %s" % (s, ex, fr))
        if abs(s - ex) <= 1e-7 * ex:
            ctx.trivial("slop inactive")


ident_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), n1=st.integers(1, 4), n2=st.integers(1, 6), seed=gen.seeds, spread1=st.sampled_from([0.003, 0.03, 0.1, 0.3, 1.0]),
    spread2=st.sampled_from([0.003, 0.03, 0.1, 0.3, 1.0]), sep=st.sampled_from([0.1, 0.3, 0.6, 1.0]),
    bt=st.sampled_from(["Log", "Linear", "TwoD"]), nbins=st.integers(1, 12), fmin=st.sampled_from([0.01, 0.1, 0.3]), fmax=st.sampled_from([0.5, 1.0, 2.0]),
    slop=st.sampled_from([0, 0.05, 0.2, 0.5, 1.0, 1.0, 2.0, None]), aslop=st.sampled_from([None, 0.03, 0.1, 0.3, 1.0]), maxtop=st.sampled_from([0, 0, 1]),
    brute=st.sampled_from([None, None, None, 1, 2, True]), w=st.booleans(), units=st.sampled_from([None, "deg", "arcmin", "hours"]),
))


def run_ident(case, ctx):
    """Every pair carries its own bit, so the bin of each individual pair is known."""
    geo = case["geo"]
    n1, n2 = case["n1"], case["n2"]
    U = np.random.RandomState(case["seed"]).random_sample((n1 + n2 + 2, 4))
    dirn = U[0, :3] - 0.5
    dirn /= np.sqrt((dirn ** 2).sum())
    P = np.concatenate([case["spread1"] * case["sep"] * (U[1:1 + n1, :3] - 0.5),
                        dirn * case["sep"] + case["spread2"] * case["sep"] * (U[1 + n1:1 + n1 + n2, :3] - 0.5)]) + U[-1, :3]
    co = geo["coords"]
    if case["bt"] == "TwoD":
        co = "flat"
    if co == "sphere" or co == "rdr":
        v = gen.unit(np.array([0.4, 0.2, {"pole": 3., "south": -3.}.get(geo["sky"], 0.1)])[None, :] * 2 + P)
        ra, dec = np.arctan2(v[:, 1].copy(), v[:, 0].copy()), np.arcsin(v[:, 2].copy())
        d = dict(coords=co, ra=ra, dec=dec)
        if co == "rdr":
            d["r"] = 1. + U[:n1 + n2, 3] * case["sep"]
    else:
        d = dict(coords=co, x=P[:, 0], y=P[:, 1])
        if co == "3d":
            d["zpos"] = P[:, 2]
    k1 = 2. ** np.arange(n1)
    k2 = 2. ** (n1 * np.arange(n2))

    def part(sl, k):
        q = {a: (b if a == "coords" else b[sl]) for a, b in d.items()}
        q.update(n=len(k), k=k, w=None)
        return q
    d1, d2 = part(slice(0, n1), k1), part(slice(n1, None), k2)
    r = ref2.metric_sep(ref2.cart(d1), ref2.cart(d2))
    mx = case["fmax"] * r.max() * 0.9
    mn = case["fmin"] * mx
    kw = dict(bin_type=case["bt"], nbins=case["nbins"], max_sep=mx)
    if case["bt"] != "TwoD":
        kw["min_sep"] = mn
    elif case["fmin"] > 0.05:
        kw["min_sep"] = mn = 0.3 * mn
    else:
        mn = 0.
    for a, b in (("bin_slop", case["slop"]), ("angle_slop", case["aslop"]), ("brute", case["brute"])):
        if b is not None:
            kw[a] = b
    kw.update(min_top=0, max_top=case["maxtop"])
    import treecorr
    kw0 = dict(kw)
    su = set_units(kw, case.get("units"), co)
    c = treecorr.KKCorrelation(**kw)
    kw = kw0
    c.process(gen.catalog(d1, "k"), gen.catalog(d2, "k"))
    code = np.round((c.xi * c.weight).ravel()).astype(int)
    eps = 1e-6
    # a single object on one side and brute force for the other one leaves no room for any slop
    exact = case["brute"] is True or (case["brute"] == 2 and n1 == 1) or (case["brute"] == 1 and n2 == 1)
    slop = 0. if exact else slop_of(c, su)
    m = 0. if case.get("strict") or exact else msize(c, su)
    npair = np.zeros(c.npairs.size)
    placed = -np.ones((n1, n2), int)
    for k in range(len(code)):
        for i in range(n1):
            for j in range(n2):
                if code[k] >> (i + n1 * j) & 1:
                    if placed[i, j] >= 0:
                        fail("pair (%d,%d) is in bins %d and %d" % (i, j, placed[i, j], k))
                    placed[i, j] = k
                    npair[k] += 1
    cmp.eq("npairs", c.npairs.ravel(), npair)
    t = case["bt"]
    B = ref2.Binner(**kw2(kw))
    e = B.edges
    moved = False
    for i in range(n1):
        for j in range(n2):
            k, rr = placed[i, j], r[i, j]
            what = "pair (%d,%d) of separation %r in bin %d (slop b=%g)" % (i, j, rr, k, slop)
            if t == "Log":
                if k >= 0 and not e[k] * (1 - slop) * (1 - eps) - m <= rr <= e[k + 1] * np.exp(slop) * (1 + eps) + m:
                    fail(what + " edges %s %s" % (e[k], e[k + 1]))
                if k < 0 and e[0] * np.exp(slop) * (1 + eps) + m <= rr < e[-1] * (1 - slop) * (1 - eps) - m:
                    fail(what + " but inside the range")
                q = np.searchsorted(e, rr, side="right") - 1
            elif t == "Linear":
                if k >= 0 and not e[k] - slop - m - eps * mx <= rr <= e[k + 1] + slop + m + eps * mx:
                    fail(what + " edges %s %s" % (e[k], e[k + 1]))
                if k < 0 and e[0] + slop + m + eps * mx <= rr < e[-1] - slop - m - eps * mx:
                    fail(what + " but inside the range")
                q = np.searchsorted(e, rr, side="right") - 1
            else:
                s = slop + m + eps * mx
                dx, dy = d2["x"][j] - d1["x"][i], d2["y"][j] - d1["y"][i]
                nb = kw["nbins"]
                if k >= 0:
                    iy, ix = divmod(k, nb)
                    if not (e[ix] - s <= dx <= e[ix + 1] + s and e[iy] - s <= dy <= e[iy + 1] + s and rr >= mn - s):
                        fail(what + " offset %s" % ((dx, dy),))
                elif max(abs(dx), abs(dy)) < mx - s and rr >= mn + s and rr > 0:
                    fail(what + " but inside the range")
                q = k
            moved |= (q != k and 0 <= q < len(e) - 1)
    ctx.tag(t, co, "slop=%s" % case["slop"], "moved" if moved else "not-moved")
    if not (placed >= 0).any():
        ctx.trivial("nothing counted")


def kw2(kw):
    return {k: kw[k] for k in ("bin_type", "nbins", "min_sep", "max_sep") if k in kw}


few = st.fixed_dictionaries(dict(
    typ=st.sampled_from(["NG", "KG", "GG", "NV", "KV", "VV", "NT", "TT", "NQ", "QQ", "GG"]), n1=st.integers(1, 2), n2=st.integers(2, 4), seed=gen.seeds,
    spread=st.sampled_from([0.02, 0.1, 0.3, 1.0]), sp1=st.sampled_from([0., 0.05, 0.3]), slop=st.sampled_from([None, 0.1, 1.0]),
    aslop=st.sampled_from([None, 0.01, 0.03, 0.1, 0.2, 0.4]), coords=st.sampled_from(["flat", "flat", "sphere"]), nbins=st.integers(1, 2),
    one=st.booleans(), brute=st.sampled_from([None, None, None, 1, 2]),
))


def run_few(case, ctx):
    """A few objects in two small groups: the angular error of the sum is bounded tightly by the angle slop."""
    typ = case["typ"]
    s1, s2 = ref2.SPIN[typ[0]], ref2.SPIN[typ[1]]
    n1, n2 = case["n1"], case["n2"]
    U = np.random.RandomState(case["seed"]).random_sample((n1 + n2 + 1, 8))
    th = 2 * np.pi * U[0, 0]
    P = np.concatenate([case["sp1"] * (U[1:1 + n1, :2] - 0.5), np.array([np.cos(th), np.sin(th)]) + case["spread"] * (U[1 + n1:, :2] - 0.5)])
    F = np.round((2 * U[1:, 2:6] - 1) * 64) / 64
    if case["one"]:
        F[n1 + 1:] = 0.
    sc = 1.
    if case["coords"] == "flat":
        d = dict(coords="flat", x=P[:, 0], y=P[:, 1])
    else:
        sc = 1e-3           # near the equator, where the sky is flat to 1e-6
        d = dict(coords="sphere", ra=0.5 - sc * P[:, 0], dec=sc * P[:, 1])

    def part(sl):
        q = {a: (b if a == "coords" else b[sl]) for a, b in d.items()}
        f = F[sl]
        q.update(n=len(f), w=None, k=f[:, 0], z=f[:, 0] + 1j * f[:, 1])
        for s in "vgtq":
            q[s] = f[:, 2] + 1j * f[:, 3]
        return q
    d1, d2 = part(slice(0, n1)), part(slice(n1, None))
    kw = dict(min_sep=1e-3 * sc, max_sep=10. * sc, nbins=case["nbins"], min_top=0, max_top=0)
    for a, b in (("bin_slop", case["slop"]), ("angle_slop", case["aslop"]), ("brute", case["brute"])):
        if b is not None:
            kw[a] = b
    r = ref2.metric_sep(ref2.cart(d1), ref2.cart(d2))
    if r.min() < 0.05 * sc:
        raise Skip("too close")
    c = gen.corr_class(typ)(**kw)
    f1, f2 = gen.fields_of(typ)
    c.process(gen.catalog(d1, f1), gen.catalog(d2, f2))
    a = c.angle_slop
    R = ref2.corr2(typ, d1, d2, ref2.Binner("Linear", 1, 0., 100 * sc))
    da = np.arcsin(min(1., a + msize(c) / r.min()))
    if (case["brute"] == 2 and n1 == 1) or (case["brute"] == 1 and n2 == 1):
        da = 0.         # only pairs of single objects
    active = False
    for nm in cmp.xi_names(typ):
        ps = abs(s1 - s2) if nm.startswith("xip") else s1 + s2
        tot = (getattr(c, nm) * c.weight).sum()
        bound = R["absf"][0] * (2 * np.sin(min(ps * da, np.pi) / 2) + 1e-5 + (5e-3 if case["coords"] == "sphere" else 0.))
        err = abs(tot - R[nm][0])
        if err > bound:
            fail("sum of %s is %s, exact %s: the error exceeds what angle_slop=%g allows (%g)" % (nm, tot, R[nm][0], a, bound))
        active |= err > 1e-4 * R["absf"][0] + (5e-3 * R["absf"][0] if case["coords"] == "sphere" else 0.)
    ctx.tag(typ, case["coords"], "aslop=%s" % a)
    if not active:
        ctx.trivial("slop inactive")


ident3 = st.fixed_dictionaries(dict(
    bt=st.sampled_from(["LogRUV", "LogSAS"]), coords=st.sampled_from(["flat", "flat", "3d", "sphere"]), seed=gen.seeds, n=st.tuples(*[st.integers(1, 5)] * 3),
    spread=st.tuples(*[st.sampled_from([0., 0.03, 0.1, 0.3, 0.3, 1.])] * 3), line=st.sampled_from([1., 1., 0.3, 0.03]), nbins=st.integers(2, 20), nsub=st.sampled_from([1, 2, 5, 11, 20, 40]), nsub2=st.sampled_from([1, 2, 5, 11, 20, 40]),
    slop=st.sampled_from([None, 0.1, 0.3, 1., 1., 1.]), aslop=st.sampled_from([None, 0.03, 0.1, 0.3, 1.]), maxtop=st.sampled_from([0, 0, 1]), fmin=st.sampled_from([0.01, 0.05, 0.2]),
    fmax=st.sampled_from([1., 2., 3.]), sub=st.sampled_from([0, 0, 0, 1, 2, 3]),
))


def run_ident3(case, ctx):
    """Every triangle carries its own bit, so the bin of each individual triangle is known."""
    import treecorr
    n = list(case["n"])
    while n[0] * n[1] * n[2] > 22: n[n.index(max(n))] -= 1
    rs = np.random.RandomState(case["seed"])
    C = rs.random_sample((3, 3)) - 0.5
    C[:, 1] *= case["line"]            # flat triangles
    pts = [C[i] + case["spread"][i] * 0.7 * (rs.random_sample((n[i], 3)) - 0.5) * [1, 1 if case["spread"][0] else case["line"], 1] for i in range(3)]
    co = case["coords"]
    if co == "flat":
        for p in pts: p[:, 2] = 0.
    if co == "sphere":
        pts = [gen.unit(np.array([1.1, 0.4, 0.3]) + 0.2 * p) for p in pts]
    step = [1, n[0], n[0] * n[1]]
    cats = []
    for i, p in enumerate(pts):
        k = dict(k=2. ** (step[i] * np.arange(n[i])), verbose=0)
        if co == "flat": cats.append(treecorr.Catalog(x=p[:, 0], y=p[:, 1], **k))
        elif co == "3d": cats.append(treecorr.Catalog(x=p[:, 0], y=p[:, 1], z=p[:, 2], **k))
        else: cats.append(treecorr.Catalog(ra=np.arctan2(p[:, 1], p[:, 0]), dec=np.arcsin(p[:, 2]), ra_units="rad", dec_units="rad", **k))
    mx = case["fmax"] * (0.1 if co == "sphere" else 0.5)
    kw = dict(bin_type=case["bt"], min_sep=mx * case["fmin"], max_sep=mx, nbins=case["nbins"], min_top=0, max_top=case["maxtop"], verbose=0)
    ruv = case["bt"] == "LogRUV"
    lo, hi = [0., 0.], [1., 1.] if ruv else [np.pi]
    if ruv:
        kw.update(nubins=case["nsub"], nvbins=case["nsub2"])
        if case["sub"] & 1: kw.update(min_u=0.2, max_u=0.7); lo[0], hi[0] = 0.2, 0.7
        if case["sub"] & 2: kw.update(min_v=0.1, max_v=0.8); lo[1], hi[1] = 0.1, 0.8
    else:
        kw.update(nphi_bins=case["nsub"])
        if case["sub"] & 1: kw.update(min_phi=0.4); lo[0] = 0.4
        if case["sub"] & 2: kw.update(max_phi=2.5); hi[0] = 2.5
    bs = np.log(1 / case["fmin"]) / case["nbins"]
    if case["slop"] is not None:
        # the bounds are first order ones
        kw["bin_slop"] = min([case["slop"], 0.3 / bs] + [0.3 * k / (h - l) for l, h, k in zip(lo, hi, (case["nsub"], case["nsub2"]))])
    if case["aslop"] is not None: kw["angle_slop"] = case["aslop"]
    c = treecorr.KKKCorrelation(**kw)
    if not ruv: pk = dict(algo="triangle", ordered=1)
    else: pk = dict(ordered=False)
    c.process(*cats, num_threads=1, **pk)
    code = np.round(c.zeta * c.weight).astype(int)
    m = 2 * c._get_minmax_size()[0]
    eps = 1e-6
    b = c.b
    wid = [c.ubin_size, c.vbin_size] if ruv else [c.phi_bin_size]
    tol = [SLOP3 * q + eps for q in ([c.bu, c.bv] if ruv else [min(c.bu, c.angle_slop)])]
    e = kw["min_sep"] * np.exp(np.arange(c.nbins + 1) * c.bin_size)
    e[-1] = kw["max_sep"]
    where = {}
    for idx in zip(*np.nonzero(code)):
        v = int(code[idx])
        for t in range(n[0] * n[1] * n[2]):
            if v >> t & 1:
                if t in where: fail("triangle %d is in bins %s and %s" % (t, where[t], idx))
                where[t] = tuple(int(q) for q in idx)
    cnt = np.zeros(code.shape)
    for idx in where.values(): cnt[idx] += 1
    cmp.eq("ntri", c.ntri, cnt)
    moved = False
    for t in range(n[0] * n[1] * n[2]):
        P = [pts[0][t % n[0]], pts[1][t // n[0] % n[1]], pts[2][t // (n[0] * n[1])]]
        D = [np.sqrt(((P[(i + 1) % 3] - P[(i + 2) % 3]) ** 2).sum()) for i in range(3)]
        if min(D) < 1e-3 * mx: continue        # (degenerate triangles)
        if ruv:
            d3, d2, d1 = sorted(D)
            sides, q = [(d2,)], [d3 / d2, (d1 - d2) / d3]
            x = [m / d2, 2 * m / d3]
        else:
            a, f = P[1] - P[0], P[2] - P[0]
            q = [np.arccos(np.clip((a @ f) / np.sqrt((a @ a) * (f @ f)), -1, 1))]
            sides, x = [(D[1], D[2]), (D[2], D[1])], [2 * m / min(D[1:])]
        what = "triangle with sides %s, %s %s" % (np.array(D), "u, |v|" if ruv else "phi", np.array(q))
        if t not in where:
            inside = all(e[0] * np.exp(b) * (1 + eps) + m < d < e[-1] * (1 - b) * (1 - eps) - m for d in sides[0])
            inside &= all((l == l0 or l + w + y < v) and (h == h0 or v < h - w - y) for v, l, h, w, y, l0, h0 in zip(q, lo, hi, tol, x, [0., 0.], [1., 1.] if ruv else [np.pi]))
            if inside: fail(what + " is not counted (b = %g, tol = %s)" % (b, tol))
            continue
        idx = where[t]
        ir = idx[:1] if ruv else idx[:2]
        if not any(all(e[k] * (1 - b) * (1 - eps) - m <= d <= e[k + 1] * np.exp(b) * (1 + eps) + m for k, d in zip(ir, ds)) for ds in sides):
            fail(what + " in bin %s: separation bins %s, b = %g" % (idx, [(e[k], e[k + 1]) for k in ir], b))
        iq = [idx[1], idx[2] - c.nvbins if idx[2] >= c.nvbins else c.nvbins - 1 - idx[2]] if ruv else [idx[2]]
        for k, v, l, w, to, y, nm in zip(iq, q, lo, wid, tol, x, ["u", "|v|"] if ruv else ["phi"]):
            if not l + k * w - to - y <= v <= l + (k + 1) * w + to + y:
                fail(what + " in bin %s: %s range %s, allowed slop %g" % (idx, nm, (l + k * w, l + (k + 1) * w), to))
            moved |= not l + k * w <= v <= l + (k + 1) * w
        moved |= not any(all(e[k] <= d <= e[k + 1] for k, d in zip(ir, ds)) for ds in sides)
    ctx.tag(case["bt"], co, "slop=%s" % case["slop"], "moved" if moved else "not-moved")
    if not where: ctx.trivial("nothing counted")


SLOP3 = 2.       # the shares of the three cells in the changes of u, v and phi add up


SUBS = [Sub("bracket", strat(120, 20), run_bracket, quick=5000), Sub("bracket-large", strat(500, 150), run_bracket, quick=1000),
        Sub("ident", ident_st, run_ident, quick=12000), Sub("few", few, run_few, quick=8000), Sub("ident3", ident3, run_ident3, quick=8000),
        Sub("total", strat_tot(150, 3), run_total, quick=5000)]
