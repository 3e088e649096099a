"""C03: distance metrics and line-of-sight limits."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail
from props.c01 import mode_kw

RULE = ("A metric, a coordinate system valid for it, line-of-sight limits, periods, units, catalogs of 1..120 objects and a bin "
        "specification are drawn; counts, weights and mean separations are compared with an O(N^2) evaluation of the documented "
        "distance formula.  Non-trivial: at least one counted pair, no pair within rounding of a bin edge or limit.")
ASSUMPTIONS = ["TwoD bins and periodic boundaries with projected fields are outside this property"]

COMBOS = [("Euclidean", "3d", "3d"), ("Euclidean", "rdr", "rdr"), ("Euclidean", "sphere", "sphere"), ("Arc", "sphere", "sphere"),
          ("Arc", "rdr", "rdr"), ("Arc", "3d", "3d"), ("Arc", "rdr", "sphere"),
          ("Rperp", "3d", "3d"), ("Rperp", "rdr", "rdr"), ("FisherRperp", "rdr", "rdr"), ("OldRperp", "3d", "3d"),
          ("OldRperp", "rdr", "rdr"), ("Rlens", "rdr", "rdr"), ("Rlens", "3d", "3d"), ("Rlens", "rdr", "sphere"),
          ("Periodic", "flat", "flat"), ("Periodic", "3d", "3d"), ("Euclidean", "flat", "flat")]
UNITS = dict(rad=1., deg=np.pi / 180, arcmin=np.pi / 10800, arcsec=np.pi / 648000, hours=np.pi / 12)


def strat(nmax, nmin=1):
    return st.fixed_dictionaries(dict(
        combo=st.integers(0, len(COMBOS) - 1), typ=st.sampled_from(["NN", "NN", "NN", "KK", "NK", "NG"]), auto=st.booleans(),
        geo=gen.geom(), c1=gen.cat_spec(nmax, nmin), c2=gen.cat_spec(nmax, nmin), same=st.integers(0, 3),
        bins=gen.bins_spec(("Log", "Linear")),
        mode=st.sampled_from(["brute", "slop0", "slop0", "slop0angle", "brute1", "brute2"]), maxtop=st.sampled_from([0, 0, 0, 1, 3, None]),
        rpar=st.sampled_from(["none", "none", "min", "max", "both", "pos", "neg", "narrow"]), rs=st.sampled_from([0.05, 0.2, 0.6, 1.5]),
        per=st.tuples(*[st.sampled_from([0.7, 1.0, 1.37, 2.5])] * 3), per1=st.booleans(),
        units=st.sampled_from(["rad", "deg", "arcmin", "arcsec", "hours", None]),
    ))


def run(case, ctx):
    metric, co1, co2 = COMBOS[case["combo"]]
    geo = dict(case["geo"])
    g1 = dict(geo, coords=co1)
    g2 = dict(geo, coords=co2)
    d1 = gen.make(case["c1"], g1)
    s2 = dict(case["c2"], seed=case["c1"]["seed"], layout=case["c1"]["layout"], off=case["c1"]["off"]) if case["same"] == 0 else case["c2"]
    d2 = gen.make(s2, g2)
    typ = case["typ"]
    if metric == "Periodic" and typ == "NG":
        typ = "KK"
    auto = case["auto"] and typ[0] == typ[1] and co1 == co2 and metric != "Rlens"
    if not (ref2.wts(d1) != 0).any() or not (ref2.wts(d2) != 0).any():
        raise Skip("no live objects")
    p1, p2 = ref2.cart(d1), ref2.cart(d2)
    if co1 in ("rdr", "3d") and (np.sqrt((p1 ** 2).sum(axis=1)).min() < 1e-3 * geo["scale"]):
        raise Skip("object at the observer")
    period = None
    kw = {}
    ext = gen.sky_extent(g1)
    bk = gen.bins_kw(case["bins"], dict(geo, coords="sphere") if metric == "Arc" else g1)
    if metric == "Periodic":
        period = [p * geo["scale"] for p in case["per"]]
        # catalogs must fit in the period for the documented distance to be meaningful; fold them in
        for d in (d1, d2):
            for i, c in enumerate(["x", "y", "zpos"]):
                if c in d:
                    d[c] = np.mod(d[c], period[i])
        if case["per1"]:
            period = [period[0]] * 3
            for d in (d1, d2):
                for i, c in enumerate(["x", "y", "zpos"]):
                    if c in d:
                        d[c] = np.mod(d[c], period[i])
            kw["period"] = period[0]
        else:
            kw["xperiod"], kw["yperiod"] = period[0], period[1]
            if co1 == "3d":
                kw["zperiod"] = period[2]
        # cell averages of objects straddle no boundary; separations above half a period are allowed by the definition
        per = min(period[:len(p1[0])])
        if bk["max_sep"] >= per / 2 * 0.999:
            f = bk["min_sep"] / bk["max_sep"]
            bk["max_sep"] = 0.49 * per
            bk["min_sep"] = f * bk["max_sep"]
        p1, p2 = ref2.cart(d1), ref2.cart(d2)
    if metric != "Euclidean":
        kw["metric"] = metric
    mn = mx = None
    rp = case["rpar"]
    if rp != "none" and co1 in ("rdr", "3d") and co2 in ("rdr", "3d"):
        rs = case["rs"] * ext
        if rp == "min": mn = -rs
        elif rp == "max": mx = rs
        elif rp == "both": mn, mx = -rs, 0.7 * rs
        elif rp == "pos": mn = 0.3 * rs
        elif rp == "neg": mx = -0.3 * rs
        elif rp == "narrow": mn, mx = 0.1 * rs, 0.3 * rs
        if auto:    # the sign of rpar has no meaning for unordered pairs
            mn, mx = -rs, rs
        if mn is not None: kw["min_rpar"] = mn
        if mx is not None: kw["max_rpar"] = mx
    su = 1.
    if (metric == "Arc" or (co1 == "sphere" and co2 == "sphere")) and case["units"]:
        su = UNITS[case["units"]]
        kw["sep_units"] = case["units"]
    if metric == "Arc":
        pass
    B = ref2.Binner(**bk)
    mode = case["mode"]
    atol = ratol = 0.
    if mode != "brute" and co1 in ("rdr", "3d") and (metric in ("Rperp", "FisherRperp", "OldRperp", "Rlens") or mn is not None or mx is not None):
        # The decomposition is documented for small angles, where cell sizes bound it to second order in the angle.
        u = np.concatenate([gen.unit(p1), gen.unit(p2)])
        th = np.arccos(np.clip((u @ gen.unit(u.mean(axis=0)[None])[0]), -1, 1)).max() if np.abs(u.mean(axis=0)).max() > 0 else 9.
        if th > 0.35:
            mode = "brute"
        else:
            rr = np.sqrt((np.concatenate([p1, p2]) ** 2).sum(axis=1)) if co2 != "sphere" else np.sqrt((p1 ** 2).sum(axis=1))
            atol = th ** 3 * rr.max() if metric.endswith("perp") or metric == "Rlens" else 0.
            ratol = th ** 2 * (rr.max() - rr.min() + th * rr.max())
    exact = mode == "brute"
    tol = 1e-7 if co1 == "sphere" or metric in ("Arc",) else (3e-8 if exact else 3e-7)
    # projected separations of nearly radial pairs are differences of large numbers
    R = ref2.corr2(typ, d1, None if auto else d2, B, metric=metric, period=period, minrpar=mn, maxrpar=mx, tol=tol,
                   atol=atol, ratol=ratol)
    if R["amb"]:
        raise Skip("ambiguous")
    kw.update(bk)
    kw["max_sep"] = bk["max_sep"] / su
    kw["min_sep"] = bk["min_sep"] / su
    kw.update(mode_kw(mode))
    if case["maxtop"] is not None:
        kw["max_top"] = case["maxtop"]
        kw["min_top"] = 0
    if typ == "NG":
        kw["angle_slop"] = 0.
    c = gen.corr_class(typ)(**kw)
    f1, f2 = gen.fields_of(typ)
    cat1 = gen.catalog(d1, f1)
    if auto:
        c.process(cat1)
    else:
        c.process(cat1, gen.catalog(d2, f2))
    ctx.tag(metric, metric + "/" + co1 + "/" + co2, "auto" if auto else "cross", mode, "rpar-" + rp if (mn, mx) != (None, None) else "norpar")
    if R["npairs"].sum() == 0:
        ctx.trivial("no pairs")
    elif (mn, mx) != (None, None):
        R0 = ref2.corr2("NN", d1, None if auto else d2, B, metric=metric, period=period, tol=tol)
        if R0["npairs"].sum() > R["npairs"].sum():
            ctx.tag("rpar-removes-pairs")
    chord = co1 == "sphere" and metric == "Euclidean"
    cmp.check2(c, R, typ, B, auto, exact_r=exact, chord=chord, su=su, tol_f=3e-6)


# Catalogs at very different depths, limits placed inside the range of the pairs.
DEEP = [("Arc", "3d"), ("Arc", "rdr"), ("Euclidean", "3d"), ("Euclidean", "rdr"), ("Rperp", "3d"), ("Rperp", "rdr"),
        ("OldRperp", "3d"), ("Rlens", "rdr"), ("FisherRperp", "3d")]


def deep_cat(nmax):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, nmax), seed=gen.seeds, r0=st.sampled_from([0.2, 1., 3., 10., 30.]), dr=st.sampled_from([0., 0.05, 0.3, 0.8]),
        th=st.sampled_from([0.003, 0.02, 0.08, 0.2]), off=st.sampled_from([0., 0., 0.02, 0.07]), w=st.booleans()))


def deep_make(s, co):
    n = s["n"]
    U = np.random.RandomState(s["seed"]).random_sample((n, 8))
    r = s["r0"] * (1 + s["dr"] * (U[:, 0] - 0.3))
    a = s["off"] + s["th"] * (U[:, 1] - 0.5)
    b = -0.5 * s["off"] + s["th"] * (U[:, 2] - 0.5)
    v = gen.unit(np.stack([np.ones(n) * 0.6 - 0.8 * a, np.ones(n) * 0.8 + 0.6 * a, b], axis=1))
    d = dict(coords=co, n=n, U=U, w=np.round((0.2 + U[:, 3]) * 64) / 64 if s["w"] else None, k=np.round((2 * U[:, 4] - 1) * 128) / 128)
    if co == "3d":
        d.update(x=v[:, 0] * r, y=v[:, 1] * r, zpos=v[:, 2] * r)
    else:
        d.update(ra=np.arctan2(v[:, 1].copy(), v[:, 0].copy()), dec=np.arcsin(v[:, 2].copy()), r=r)
    return d


def deep(nmax):
    return st.fixed_dictionaries(dict(
        combo=st.integers(0, len(DEEP) - 1), typ=st.sampled_from(["NN", "NN", "KK"]), c1=deep_cat(nmax), c2=deep_cat(nmax),
        qs=st.tuples(st.sampled_from([0., 0., 0.1, 0.4]), st.sampled_from([0.6, 0.9, 1., 1.])),
        qp=st.tuples(st.sampled_from([0., 0., 0.2, 0.5]), st.sampled_from([0.3, 0.5, 0.8, 1., 1.])),
        nbins=st.integers(1, 4), bt=st.sampled_from(["Log", "Linear"]), mode=st.sampled_from(["slop0", "slop0", "slop0", "brute"]),
        swap=st.booleans()))


def run_deep(case, ctx):
    metric, co = DEEP[case["combo"]]
    d1, d2 = deep_make(case["c1"], co), deep_make(case["c2"], co)
    p1, p2 = ref2.cart(d1), ref2.cart(d2)
    D = ref2.metric_sep(p1, p2, metric, None)
    P = ref2.rpar(p1, p2, metric)
    if not (D > 0).any():
        raise Skip("no separations")

    def between(x, q, below):
        x = np.unique(x)
        if q <= 0:
            return x[0] - (x[-1] - x[0]) * 0.1 - 1e-3 * abs(x[0])
        if q >= 1:
            return x[-1] + (x[-1] - x[0]) * 0.1 + 1e-3 * abs(x[-1])
        i = min(int(q * len(x)), len(x) - 2)
        return x[0] * 0.999 if i < 0 else 0.5 * (x[i] + x[i + 1])
    mn = max(between(D, case["qs"][0], True), 1e-3 * D.max())
    mx = between(D, case["qs"][1], False)
    if metric == "Arc":
        mx = min(mx, 1.5)
    if not mx > mn * 1.01:
        raise Skip("empty range")
    kw = dict(min_sep=mn, max_sep=mx, nbins=case["nbins"], bin_type=case["bt"])
    B = ref2.Binner(**kw)
    lo = between(P, case["qp"][0], True) if case["qp"][0] > 0 else None
    hi = between(P, case["qp"][1], False) if case["qp"][1] < 1 else None
    if lo is not None and hi is not None and hi <= lo:
        hi = None
    if lo is not None: kw["min_rpar"] = lo
    if hi is not None: kw["max_rpar"] = hi
    exact = case["mode"] == "brute"
    u = np.concatenate([gen.unit(p1), gen.unit(p2)])
    th = np.arccos(np.clip((u @ gen.unit(u.mean(axis=0)[None])[0]), -1, 1)).max()
    rr = np.sqrt((np.concatenate([p1, p2]) ** 2).sum(axis=1))
    atol = ratol = 0.
    if not exact and metric not in ("Euclidean", "Arc"):
        atol = th ** 3 * rr.max()
    if not exact and (lo is not None or hi is not None):
        # r_par moves by up to 1/cos(theta/2) of a displacement of one end
        ratol = 0.25 * th ** 2 * sum((q.max() - q.min() + th * q.max()) for q in (np.sqrt((p ** 2).sum(axis=1)) for p in (p1, p2)))
    R = ref2.corr2(case["typ"], d1, d2, B, metric=metric, minrpar=lo, maxrpar=hi, tol=1e-7, atol=atol, ratol=ratol)
    if R["amb"]:
        raise Skip("ambiguous")
    kw.update(mode_kw(case["mode"]))
    kw.update(max_top=0, min_top=0, metric=metric)
    c = gen.corr_class(case["typ"])(**kw)
    f1, f2 = gen.fields_of(case["typ"])
    c.process(gen.catalog(d1, f1), gen.catalog(d2, f2))
    ctx.tag("deep-" + metric, case["mode"], "rpar" if (lo, hi) != (None, None) else "norpar")
    if R["npairs"].sum() == 0:
        ctx.trivial("no pairs")
    elif R["npairs"].sum() < d1["n"] * d2["n"]:
        ctx.tag("some-pairs-removed")
    cmp.check2(c, R, case["typ"], B, False, exact_r=exact, su=1., tol_f=3e-6)


SUBS = [Sub("small", strat(12), run, quick=12000), Sub("medium", strat(120, 13), run, quick=5000),
        Sub("deep", deep(30), run_deep, quick=6000)]
