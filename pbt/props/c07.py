"""C07: metamorphic relations of correlations."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("Each case draws catalogs, a bin specification and a transformation, runs the correlation before and after, and compares.  "
        "rigid: translation/rotation/reflection (flat, 3d, sphere rotations with transported spins) at zero slop; scale: rescaling by a "
        "power of two, bit-exact at any slop; units: sep_units/angular units; linear: fields and weights, any slop; swap: exchange of "
        "catalogs; union: auto/cross sums of concatenated and self-crossed catalogs; const: constant fields; three: the same for 3-pt.  "
        "Non-trivial: at least one counted pair/triangle.")
ASSUMPTIONS = ["cases with a separation within rounding of a bin edge are skipped where the relation is only exact in real arithmetic"]

SCAL = ["NN", "NK", "KK", "NZ", "KZ", "ZZ"]
SPINS = ["NG", "KG", "GG", "NV", "KV", "VV", "NT", "KT", "TT", "NQ", "KQ", "QQ"]
TYPES = SCAL + SPINS
WM = ["none", "uniform", "zeros", "wide"]


def names(typ, auto):
    return [n for n in cmp.xi_names(typ) if not (auto and n == "xip_im")]


def mode_kw(m):
    return {"brute": dict(brute=True), "tree": dict(bin_slop=0, angle_slop=0., max_top=0, min_top=0), "tree3": dict(bin_slop=0, angle_slop=0., max_top=3)}[m]


def bins(case, geo, force=None):
    b = case["bins"]
    if geo["coords"] != "flat" and b["bin_type"] == "TwoD":
        b = dict(b, bin_type="Log")
    if force and b["bin_type"] == "TwoD":
        b = dict(b, bin_type=force)
    return gen.bins_kw(b, geo)


def alive(*ds):
    for d in ds:
        if not (ref2.wts(d) != 0).any():
            raise Skip("no live objects")


def rot3(seed):
    rs = np.random.RandomState(seed)
    q = rs.normal(size=4)
    q /= np.sqrt((q ** 2).sum())
    a, b, c, d = q
    return np.array([[a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def transform(d, t):
    """Rigid transformation t of a data dict."""
    o = dict(d)
    if d["coords"] == "flat":
        th = t["ang"]
        x, y = d["x"], d["y"]
        if t["refl"]:
            y = -y
            for f in "zvgtq":
                o[f] = np.conj(d[f])
        c, s = np.cos(th), np.sin(th)
        o["x"], o["y"] = c * x - s * y + t["dx"] * t["S"], s * x + c * y + t["dy"] * t["S"]
        for f in "vgtq":
            o[f] = o[f] * np.exp(1j * gen.SPIN[f] * th)
    else:
        R = rot3(t["seed"])
        if t["refl"]:
            R = R @ np.diag([1., 1., -1.])
        p = ref2.cart(d)
        u = p / np.maximum(1e-300, np.sqrt((p ** 2).sum(axis=1))[:, None])
        q = p @ R.T
        if d["coords"] == "3d":
            q = q + np.array([t["dx"], t["dy"], 0.3]) * t["S"]
            o["x"], o["y"], o["zpos"] = q.T.copy()
            if t["refl"]:
                o["z"] = np.conj(d["z"])
            return o
        v = u @ R.T
        o["ra"] = np.arctan2(v[:, 1].copy(), v[:, 0].copy()) % (2 * np.pi)
        o["dec"] = np.arcsin(np.clip(v[:, 2], -1, 1))
        v = ref2.cart(dict(o, coords="sphere"))
        w, n = ref2.frame(u)
        W, N = ref2.frame(v)
        w2 = w @ R.T     # image of the old basis
        n2 = n @ R.T
        # image of vector a w + b n is a w2 + b n2 (w2 reversed relative orientation when reflected)
        cw, cn = (w2 * W).sum(axis=1), (w2 * N).sum(axis=1)
        beta = np.arctan2(cn, cw)
        for f in "zvgtq":
            g = d[f]
            if t["refl"]:
                g = np.conj(g)
            o[f] = g * np.exp(1j * gen.SPIN[f] * beta)
    return o


rigid_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), c1=gen.cat_spec(120, 2, wmodes=WM), c2=gen.cat_spec(80, 2, wmodes=WM), typ=st.sampled_from(TYPES), auto=st.booleans(), bins=gen.bins_spec(("Log", "Linear")),
    mode=st.sampled_from(["brute", "brute", "tree", "tree3"]), mode2=st.sampled_from(["brute", "tree"]), metric=st.sampled_from(["Euclidean", "Euclidean", "alt"]),
    t=st.fixed_dictionaries(dict(ang=st.sampled_from([0., np.pi / 2, np.pi, 0.3, 1.1, 2.5, -0.7]), refl=st.booleans(), dx=st.sampled_from([0., 1., -3.3, 20.]), dy=st.sampled_from([0., 2.1, -7.]), seed=st.integers(0, 1000))),
))


def run_rigid(case, ctx):
    geo = case["geo"]
    typ = case["typ"]
    if geo["coords"] == "3d" and typ not in SCAL:
        geo = dict(geo, coords="flat")
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    alive(d1, d2)
    bk = bins(case, geo, "Log")
    t = dict(case["t"], S=geo["scale"])
    auto = case["auto"] and typ[0] == typ[1]
    metric = "Euclidean"
    if case["metric"] == "alt" and geo["coords"] == "sphere":
        metric = "Arc"
    if case["metric"] == "alt" and geo["coords"] == "rdr":
        metric = "Rperp" if case["t"]["refl"] else "Rlens"
        if geo["theta"] > 0.5 or geo["sky"] in ("full", "anti"):
            raise Skip("projected metrics are defined for small angles")
        if case["mode"] != "brute" or case["mode2"] != "brute":
            raise Skip("projected metric with a tree")
        if auto and metric == "Rlens":
            raise Skip("asymmetric metric")
    D1, D2 = transform(d1, t), transform(d2, t)
    B = ref2.Binner(**bk)
    size = max(np.abs(ref2.cart(x)).max() for x in (d1, d2, D1, D2))
    R = ref2.corr2(typ, d1, None if auto else d2, B, metric=metric, tol=3e-7 if "tree" in case["mode"] + case["mode2"] else 1e-8, atol=1e-13 * size)
    R2 = ref2.corr2(typ, D1, None if auto else D2, B, metric=metric, tol=1e-9)
    if R["amb"] or R2["amb"]:
        raise Skip("ambiguous")
    # direction of very close pairs is lost in the rounding of the transformed coordinates
    rmin = R["r"].min() if len(R["r"]) else 1.
    if len(R["r"]) == 0:
        ctx.trivial("no pairs")
    if typ not in SCAL and rmin < 1e-7 * size:
        raise Skip("directions lost to rounding")
    # near a coordinate pole the frame itself is ill-conditioned
    ctx.tag(typ, geo["coords"], metric, "auto" if auto else "cross", "reflection" if t["refl"] else "proper", case["mode"] + "/" + case["mode2"])
    f1, f2 = gen.fields_of(typ)
    out = []
    for a, b, m in ((d1, d2, case["mode"]), (D1, D2, case["mode2"])):
        x = gen.corr_class(typ)(metric=metric, **bk, **mode_kw(m))
        x.process(*([gen.catalog(a, f1)] + ([] if auto else [gen.catalog(b, f2)])))
        out.append(x)
    x, y = out
    cmp.eq("npairs", y.npairs, x.npairs)
    cmp.close("weight", y.weight, x.weight, 1e-9)
    # mean separations depend on tree cells: compare brute only
    if case["mode"] == case["mode2"] == "brute":
        cmp.close("meanr", y.meanr, x.meanr, 1e-8 + 1e-14 * size / max(rmin, 1e-300))
    w = np.where(x.weight == 0, 1., x.weight)
    sc = R.get("absf", R["aw"]).reshape(w.shape) / w
    tol = 6e-6 + 1e-13 * size / max(rmin, 1e-300)
    for nm in names(typ, auto):
        sg = -1. if (t["refl"] and nm.endswith("_im")) else 1.
        cmp.close(nm, getattr(y, nm), sg * getattr(x, nm), tol, sc, atol=1e-12)


scale_st = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["flat", "3d", "rdr"]), c1=gen.cat_spec(300, 2, wmodes=WM), c2=gen.cat_spec(200, 2, wmodes=WM), typ=st.sampled_from(TYPES), auto=st.booleans(),
    bins=gen.bins_spec(), slop=st.sampled_from([None, 0., 0.3, 1., 3.]), e=st.integers(-10, 10).filter(lambda e: e != 0), maxtop=st.sampled_from([None, 0, 2]), metric=st.sampled_from(["Euclidean", "Euclidean", "Rperp", "Rlens", "OldRperp", "Periodic"]),
    rp=st.sampled_from([None, None, 0.4]), split=st.sampled_from(["mean", "median", "middle"]),
))


def run_scale(case, ctx):
    geo = case["geo"]
    typ = case["typ"]
    if geo["coords"] == "3d" and typ not in SCAL:
        geo = dict(geo, coords="flat")
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    alive(d1, d2)
    bk = bins(case, geo)
    auto = case["auto"] and typ[0] == typ[1] and case["metric"] != "Rlens"
    s = 2. ** case["e"]
    kw = dict(split_method=case["split"])
    if case["slop"] is not None: kw["bin_slop"] = case["slop"]
    if case["maxtop"] is not None: kw.update(max_top=case["maxtop"], min_top=0)
    metric = case["metric"]
    if (metric == "Periodic") != (geo["coords"] in ("flat", "3d")) or bk["bin_type"] == "TwoD":
        metric = "Euclidean"
    kw["metric"] = metric
    if metric == "Periodic" and bk["max_sep"] > geo["scale"]:
        raise Skip("period too small")
    sk = {}
    if metric == "Periodic":
        sk["period"] = 2.1 * geo["scale"]
    if case["rp"] and metric in ("Rperp", "Rlens", "OldRperp"):
        sk.update(min_rpar=-case["rp"] * geo["scale"] * geo["r0"], max_rpar=case["rp"] * geo["scale"] * geo["r0"])
    f1, f2 = gen.fields_of(typ)
    out = []
    for m in (1., s):
        ds = []
        for d in (d1, d2):
            d = dict(d)
            for k in ("x", "y", "zpos", "r"):
                if k in d:
                    d[k] = d[k] * m
            ds.append(d)
        k = dict(bk, max_sep=bk["max_sep"] * m)
        if "min_sep" in bk: k["min_sep"] = bk["min_sep"] * m
        k.update({a: v * m for a, v in sk.items()})
        x = gen.corr_class(typ)(**k, **kw)
        x.process(*([gen.catalog(ds[0], f1)] + ([] if auto else [gen.catalog(ds[1], f2)])), num_threads=1)
        out.append(x)
    x, y = out
    ctx.tag(typ, geo["coords"], bk["bin_type"], metric, "auto" if auto else "cross", "slop=%s" % case["slop"])
    if not x.npairs.any():
        ctx.trivial("no pairs")
    # log-bin boundaries move by rounding; pairs exactly there are not expected except for degenerate layouts
    if not np.array_equal(x.npairs, y.npairs) and case["c1"]["layout"] in ("grid", "dups"):
        raise Skip("lattice separations on a bin edge")
    cmp.eq("npairs", y.npairs, x.npairs)
    cmp.close("weight", y.weight, x.weight, 1e-12)
    cmp.close("meanr", y.meanr, x.meanr * s, 1e-12)
    cmp.close("meanlogr", y.meanlogr, x.meanlogr + np.log(s), 1e-10, 10.)
    for nm in cmp.xi_names(typ):
        cmp.close(nm, getattr(y, nm), getattr(x, nm), 1e-9 if typ in SCAL or geo["coords"] == "flat" else 1e-5, 1.)


units_st = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["sphere", "sphere", "flat"]), c1=gen.cat_spec(100, 2, wmodes=WM), c2=gen.cat_spec(60, 2, wmodes=WM), typ=st.sampled_from(TYPES), auto=st.booleans(), bins=gen.bins_spec(),
    pu=st.sampled_from(["deg", "hours", "arcmin", "arcsec", "rad", "degrees", "radians"]), pu2=st.sampled_from(["deg", "arcmin", "rad", "hour", "arcsec"]),
    su=st.sampled_from(["deg", "hours", "arcmin", "arcsec", "rad"]), metric=st.sampled_from(["Euclidean", "Arc"]),
))

UN = dict(deg=np.pi / 180, degrees=np.pi / 180, hours=np.pi / 12, hour=np.pi / 12, arcmin=np.pi / 10800, arcsec=np.pi / 648000, rad=1., radians=1.)


def run_units(case, ctx):
    geo = case["geo"]
    typ = case["typ"]
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    alive(d1, d2)
    bk = bins(case, geo)
    auto = case["auto"] and typ[0] == typ[1]
    metric = case["metric"] if geo["coords"] == "sphere" else "Euclidean"
    R = ref2.corr2(typ, d1, None if auto else d2, ref2.Binner(**bk), metric=metric, tol=1e-8, atol=1e-12 * np.abs(ref2.cart(d1)).max())
    if R["amb"]:
        raise Skip("ambiguous")
    if len(R["r"]) and R["r"].min() < 1e-7 * np.abs(ref2.cart(d1)).max() and typ not in SCAL:
        raise Skip("directions lost to rounding")
    if bk["bin_type"] == "TwoD" and (ref2.metric_sep(ref2.cart(d1), ref2.cart(d1 if auto else d2)) + (np.eye(d1["n"]) if auto else 0) < 1e-9 * bk["max_sep"]).any():
        raise Skip("coincident objects become distinct by rounding")
    f1, f2 = gen.fields_of(typ)
    us = UN[case["su"]]
    out = []
    for conv in (False, True):
        cats = []
        for d, f, u1, u2 in ((d1, f1, case["pu"], case["pu2"]), (d2, f2, case["pu2"], case["pu"])):
            k = gen.catkw(d, f)
            if conv:
                if geo["coords"] == "sphere":
                    k.update(ra=d["ra"] / UN[u1], dec=d["dec"] / UN[u2], ra_units=u1, dec_units=u2)
                else:
                    k.update(x=d["x"] / UN[u1], y=d["y"] / UN[u2], x_units=u1, y_units=u2)
            cats.append(k)
        import treecorr
        kk = dict(bk, brute=True, metric=metric)
        if conv or geo["coords"] == "flat":
            kk.update(sep_units=case["su"] if conv else "rad", max_sep=bk["max_sep"] / (us if conv else 1.))
            if "min_sep" in bk: kk["min_sep"] = bk["min_sep"] / (us if conv else 1.)
        x = gen.corr_class(typ)(**kk)
        x.process(*[treecorr.Catalog(**k) for k in (cats[:1] if auto else cats)])
        out.append(x)
    x, y = out
    ctx.tag(typ, geo["coords"], bk["bin_type"], metric, "sep=" + case["su"], "pos=" + case["pu"])
    if not x.npairs.any():
        ctx.trivial("no pairs")
    cmp.eq("npairs", y.npairs, x.npairs)
    cmp.close("weight", y.weight, x.weight, 1e-9)
    cmp.close("meanr", y.meanr * us, x.meanr, 1e-8, atol=1e-12)
    cmp.close("rnom", y.rnom * us, x.rnom, 1e-9, bk["max_sep"])
    nz = x.meanr > 1e-9 * bk["max_sep"]
    cmp.close("meanlogr", (y.meanlogr + np.log(us))[nz], x.meanlogr[nz], 1e-8, 10.)
    w = np.where(x.weight == 0, 1., x.weight)
    sc = R.get("absf", R["aw"]).reshape(w.shape) / w
    for nm in names(typ, auto):
        cmp.close(nm, getattr(y, nm), getattr(x, nm), 1e-6, sc, atol=1e-12)


lin_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), c1=gen.cat_spec(300, 2, wmodes=WM), c2=gen.cat_spec(200, 2, wmodes=WM), typ=st.sampled_from(TYPES[1:]),
    bins=gen.bins_spec(), slop=st.sampled_from([None, 0., 1.]), which=st.sampled_from([0, 1, 1]), a=st.sampled_from([1., -2., 0.5, 3., 0.]), b=st.sampled_from([1., -1., 0.25, 5.]),
    e1=st.integers(-8, 8), e2=st.integers(-8, 8), maxtop=st.sampled_from([None, 0, 2]), spin=st.sampled_from([0., 0.4, np.pi / 2]),
))


def run_lin(case, ctx):
    geo = case["geo"]
    typ = case["typ"]
    if geo["coords"] == "3d" and typ not in SCAL:
        geo = dict(geo, coords="flat")
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    alive(d1, d2)
    bk = bins(case, geo)
    kw = dict(bk)
    if case["slop"] is not None: kw["bin_slop"] = case["slop"]
    if case["maxtop"] is not None: kw.update(max_top=case["maxtop"], min_top=0)
    wh = case["which"] if typ[0] != "N" else 1
    f = typ[wh].lower()
    ds = [d1, d2]
    fs = gen.fields_of(typ)

    def go(a, b):
        x = gen.corr_class(typ)(**kw)
        x.process(gen.catalog(a, fs[0]), gen.catalog(b, fs[1]))
        return x

    def with_field(vals):
        e = list(ds)
        e[wh] = dict(ds[wh], **{f: vals})
        return e
    F = ds[wh][f]
    G = np.roll(F, 1)
    x0 = go(*ds)
    x1 = go(*with_field(G))
    comb = case["a"] * F + case["b"] * G
    x2 = go(*with_field(comb))
    ctx.tag(typ, geo["coords"], bk["bin_type"], "field%d" % (wh + 1))
    if not x0.npairs.any():
        ctx.trivial("no pairs")
    cmp.eq("npairs", x2.npairs, x0.npairs)
    # bound of the products for the tolerance
    mag = (np.abs(case["a"]) + np.abs(case["b"])) * 2. * (2. if typ[0] != "N" else 1.)
    for nm in cmp.xi_names(typ):
        cmp.close("linearity of " + nm, getattr(x2, nm), case["a"] * getattr(x0, nm) + case["b"] * getattr(x1, nm), 1e-6, mag)
    # weights: powers of two, exact
    e = [dict(ds[0], w=ref2.wts(ds[0]) * 2. ** case["e1"]), dict(ds[1], w=ref2.wts(ds[1]) * 2. ** case["e2"])]
    x3 = go(*e)
    cmp.eq("npairs with scaled weights", x3.npairs, x0.npairs)
    cmp.close("weight with scaled weights", x3.weight, x0.weight * 2. ** (case["e1"] + case["e2"]), 1e-9)
    cmp.close("meanr with scaled weights", x3.meanr, x0.meanr, 1e-9)
    for nm in cmp.xi_names(typ):
        cmp.close(nm + " with scaled weights", getattr(x3, nm), getattr(x0, nm), 1e-6, 2.)
    # rotating one spin field by a constant phase, multiplies the correlation by that phase
    if f not in "nk" and case["spin"]:
        ph = np.exp(1j * case["spin"])
        x4 = go(*with_field(F * ph))
        if typ[0] in "NK":
            z0, z4 = x0.xi + 1j * x0.xi_im, x4.xi + 1j * x4.xi_im
            cmp.close("phase of xi", z4, z0 * ph, 1e-6, 4.)
        else:
            p0, p4 = x0.xip + 1j * x0.xip_im, x4.xip + 1j * x4.xip_im
            m0, m4 = x0.xim + 1j * x0.xim_im, x4.xim + 1j * x4.xim_im
            cmp.close("phase of xip", p4, p0 * (ph if wh == 0 else np.conj(ph)), 1e-6, 4.)
            cmp.close("phase of xim", m4, m0 * ph, 1e-6, 4.)


union_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), c1=gen.cat_spec(120, 2, wmodes=WM), c2=gen.cat_spec(80, 2, wmodes=WM), c3=gen.cat_spec(60, 2, wmodes=["none", "uniform"]), typ=st.sampled_from(TYPES), bins=gen.bins_spec(),
    mode=st.sampled_from(["brute", "tree", "tree3"]), rel=st.sampled_from(["self", "union-auto", "union-cross", "swap", "const", "drop"]),
))


def sums(x, typ, auto):
    o = dict(npairs=x.npairs, weight=x.weight)
    for nm in names(typ, auto):
        o[nm] = getattr(x, nm) * x.weight
    return o


def concat(a, b):
    o = dict(a, n=a["n"] + b["n"])
    for k, v in a.items():
        if isinstance(v, np.ndarray) and k != "w":
            o[k] = np.concatenate([v, b[k]])
    wa, wb = a["w"], b["w"]
    o["w"] = None if wa is None and wb is None else np.concatenate([ref2.wts(a), ref2.wts(b)])
    return o


def run_union(case, ctx):
    geo = case["geo"]
    typ = case["typ"]
    rel = case["rel"]
    if geo["coords"] == "3d" and typ not in SCAL:
        geo = dict(geo, coords="flat")
    ds = [gen.make(case["c%d" % i], geo) for i in (1, 2, 3)]
    alive(*ds)
    same = typ[0] == typ[1]
    if rel in ("self", "union-auto", "swap") and not same:
        typ = "KK" if typ[0] in "NK" else typ
    bk = bins(case, geo, "Linear" if rel == "swap" else None)
    B = ref2.Binner(**bk)
    fs = gen.fields_of(typ)
    allpts = concat(concat(ds[0], ds[1]), ds[2])
    tol = 3e-7 if "tree" in case["mode"] else 1e-8
    R = ref2.corr2(typ, allpts, allpts, B, tol=tol)
    if R["amb"]:
        raise Skip("ambiguous")
    if typ not in SCAL and len(R["r"]) and R["r"].min() == 0:
        raise Skip("zero separation")
    ctx.tag(typ, geo["coords"], bk["bin_type"], rel, case["mode"])
    absf = R.get("absf", R["aw"])
    aw = R["aw"]

    def go(*cats, **k):
        x = gen.corr_class(typ)(**bk, **mode_kw(case["mode"]))
        x.process(*[gen.catalog(d, f) for d, f in zip(cats, fs)], **k)
        if x.npairs.any():
            ctx.nt = True
        return x

    def same_sums(what, got, want, auto=False):
        for k in want:
            if auto and k == "xip_im":
                continue
            g, w = np.asarray(got[k]), np.asarray(want[k])
            if k == "npairs":
                cmp.eq(what + " npairs", g, w)
            else:
                sc = (aw if k == "weight" else absf).reshape(g.shape)
                cmp.close(what + " " + k, g, w, 1e-9 if k == "weight" else 6e-6, sc)
    ctx.nt = False
    A, Bc, Cc = ds
    if rel == "self":
        a = sums(go(A), typ, True)
        c = sums(go(A, A), typ, True)
        if bk["bin_type"] == "TwoD":
            same_sums("self-cross vs auto (TwoD)", c, a)
        else:
            same_sums("self-cross vs 2*auto", c, {k: 2 * v for k, v in a.items()})
    elif rel == "union-auto":
        U = concat(A, Bc)
        u = sums(go(U), typ, True)
        parts = [sums(go(A), typ, True), sums(go(Bc), typ, True), sums(go(A, Bc), typ, True)]
        if bk["bin_type"] == "TwoD":
            parts.append(sums(go(Bc, A), typ, True))
        same_sums("auto of union", u, {k: sum(p[k] for p in parts) for k in u})
    elif rel == "union-cross":
        u = sums(go(concat(A, Bc), Cc), typ, False)
        p, q = sums(go(A, Cc), typ, False), sums(go(Bc, Cc), typ, False)
        same_sums("cross of union", u, {k: p[k] + q[k] for k in u})
        u = sums(go(Cc, concat(A, Bc)), typ, False)
        p, q = sums(go(Cc, A), typ, False), sums(go(Cc, Bc), typ, False)
        same_sums("cross of union (second)", u, {k: p[k] + q[k] for k in u})
        x = go([A, Bc][0], Cc)
    elif rel == "swap":
        x, y = go(A, Bc), go(Bc, A)
        a, b = sums(x, typ, False), sums(y, typ, False)
        if "xip_im" in b:
            b["xip_im"] = -b["xip_im"]
        same_sums("exchange", b, a)
        if case["mode"] == "brute":
            cmp.close("meanr", y.meanr, x.meanr, 1e-9)
    elif rel == "const":
        A2, B2 = dict(A), dict(Bc)
        n1, n2 = A["n"], Bc["n"]
        vals = dict(k=0.75, z=0.5 - 0.25j)
        for f, v in vals.items():
            A2[f] = np.full(n1, v)
            B2[f] = np.full(n2, v)
        for f in "vgtq":
            A2[f] = np.full(n1, 0.5 + 0.25j)
            B2[f] = np.full(n2, 0.5 + 0.25j)
        x = go(A2, B2)
        lv = x.weight > 0
        if typ in SCAL:
            want = 1.
            for c in typ:
                want = want * {"N": 1., "K": 0.75, "Z": 0.5 - 0.25j}[c]
            if typ == "ZZ":
                cmp.close("xip of a constant", x.xip[lv], np.full(lv.sum(), abs(0.5 - 0.25j) ** 2), 1e-6)
                cmp.close("xim of a constant", x.xim[lv] + 1j * x.xim_im[lv], np.full(lv.sum(), want), 1e-6)
            elif typ != "NN":
                cmp.close("xi of a constant", x.xi[lv] + (1j * x.xi_im[lv] if hasattr(x, "xi_im") else 0), np.full(lv.sum(), want), 1e-6)
        elif typ[0] not in "NK" and geo["coords"] == "flat":
            cmp.close("xip of a constant", x.xip[lv], np.full(lv.sum(), 0.3125), 1e-5)
            cmp.close("xip_im of a constant", x.xip_im[lv], np.zeros(lv.sum()), 1e-5, 1.)
        else:
            raise Skip("not constant")
    elif rel == "drop":
        # zero-weight objects change nothing
        Z = dict(Cc, w=np.zeros(Cc["n"]))
        x, y = go(A, Bc), go(concat(A, Z), concat(Z, Bc))
        same_sums("zero-weight objects", sums(y, typ, False), sums(x, typ, False))
    if not ctx.nt:
        ctx.trivial("no pairs")


three_st = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["flat", "sphere", "3d", "rdr"], sky=["eq", "pole", "wrap", "south"]), c1=gen.cat_spec(25, 3, wmodes=["none", "uniform"], layouts=["uniform", "cluster"]), c2=gen.cat_spec(15, 2, wmodes=["none", "uniform"], layouts=["uniform", "cluster"]),
    c3=gen.cat_spec(12, 2, wmodes=["none", "uniform"], layouts=["uniform", "cluster"]), typ=st.sampled_from(["NNN", "KKK", "GGG"]), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]),
    algo=st.sampled_from(["triangle", None]), rel=st.sampled_from(["rigid", "scale", "perm", "linear"]), ncat=st.integers(1, 3), nb=st.integers(1, 3), fm=st.sampled_from([0.4, 1.1]), slop=st.sampled_from([0., None]),
    t=st.fixed_dictionaries(dict(ang=st.sampled_from([0., np.pi / 2, 0.3, 1.1, -0.7]), refl=st.booleans(), dx=st.sampled_from([0., 1., -3.3]), dy=st.sampled_from([0., 2.1]), seed=st.integers(0, 1000))), e=st.sampled_from([-7, -1, 3, 10]), pi=st.integers(0, 5),
))


def run_three(case, ctx):
    import treecorr
    geo = case["geo"]
    typ = case["typ"]
    rel = case["rel"]
    if geo["theta"] > 0.5:
        geo = dict(geo, theta=0.5)
    if typ == "GGG" and geo["coords"] == "3d":
        geo = dict(geo, coords="flat")
    if rel == "scale" and geo["coords"] == "sphere":
        geo = dict(geo, coords="flat")
    ds = [gen.make(case["c%d" % i], geo) for i in (1, 2, 3)]
    bt = case["bt"]
    algo = case["algo"] if bt != "LogRUV" else "triangle"
    mx = gen.sky_extent(geo) * case["fm"]
    if geo["coords"] in ("sphere",):
        mx = min(mx, 1.9)
    ncat = case["ncat"]
    if rel == "perm":
        ncat = 3
    slop = case["slop"] if rel in ("scale", "linear") else 0.
    kw = dict(bin_type=bt, min_sep=0.0917 * mx, max_sep=mx, nbins=case["nb"], max_top=2, min_top=0)
    if slop is not None:
        kw.update(bin_slop=slop, angle_slop=slop)
    if bt == "LogRUV": kw.update(nubins=2, nvbins=3)
    if bt == "LogSAS": kw.update(nphi_bins=4)
    if bt == "LogMultipole": kw.update(max_n=3)
    cls = getattr(treecorr, typ + "Correlation")
    fs = gen.fields_of(typ)

    def go(dd, m=1., **pk):
        k = dict(kw, min_sep=kw["min_sep"] * m, max_sep=kw["max_sep"] * m)
        x = cls(**k)
        x.process(*[gen.catalog(d, f) for d, f in zip(dd[:ncat], fs)], algo=algo, num_threads=1, **pk)
        return x

    def zetas(x):
        if typ == "NNN": return {}
        if typ == "KKK": return dict(zeta=x.zeta)
        return {"gam%d" % i: getattr(x, "gam%d" % i) for i in range(4)}
    ok = lambda x: np.abs(x.weight) > 1e-6 * max(1., np.abs(x.weight).max(initial=0.))
    x = go(ds)
    ctx.tag(typ, geo["coords"], bt, rel, "%dcat" % ncat, "algo=%s" % algo)
    if not np.any(x.ntri):
        ctx.trivial("no triangles")
    if rel == "scale":
        s = 2. ** case["e"]
        ee = []
        for d in ds:
            d = dict(d)
            for k in ("x", "y", "zpos", "r"):
                if k in d: d[k] = d[k] * s
            ee.append(d)
        y = go(ee, s)
        cmp.close("ntri", y.ntri, x.ntri, 1e-12)
        cmp.close("weight", y.weight, x.weight, 1e-9, 1e-3)
        cmp.close("meand2", y.meand2, x.meand2 * s, 1e-9)
        cmp.close("meanlogd3", y.meanlogd3, x.meanlogd3 + np.log(s), 1e-9, 10.)
        for k, v in zetas(x).items():
            cmp.close(k, zetas(y)[k][ok(x)], v[ok(x)], 1e-7, 1.)
    elif rel == "linear":
        if typ == "NNN":
            raise Skip("no field")
        f = typ[0].lower()
        for wh in range(ncat):
            if ncat == 1:
                y = go([dict(d, **{f: d[f] * -2.}) for d in ds])
                fac = -8.
            elif ncat == 2 and wh == 1:
                y = go([ds[0], dict(ds[1], **{f: ds[1][f] * -2.})])
                fac = 4.
            else:
                ee = list(ds); ee[wh] = dict(ds[wh], **{f: ds[wh][f] * -2.})
                y = go(ee)
                fac = -2.
            cmp.close("ntri", y.ntri, x.ntri, 1e-12)
            for k, v in zetas(x).items():
                cmp.close("scaling of " + k, zetas(y)[k], v * fac, 1e-9, 1e-6)
    elif rel == "perm":
        import itertools
        p = list(itertools.permutations(range(3)))[case["pi"]]
        if bt == "LogMultipole" and algo == "triangle" and False:
            pass
        x = go(ds, ordered=False)
        y = go([ds[i] for i in p], ordered=False)
        cmp.close("ntri", y.ntri, x.ntri, 1e-9 if algo == "triangle" else 1e-6, max(1., np.abs(x.ntri).max(initial=0.)))
        cmp.close("weight", y.weight, x.weight, 1e-6, max(1., np.abs(x.weight).max(initial=0.)))
        for k, v in zetas(x).items():
            cmp.close(k, zetas(y)[k][ok(x)], v[ok(x)], 1e-5, 1. if bt != "LogMultipole" else max(1., np.abs(x.weight).max()))
    else:
        # (in 3d the orientation of a triangle is that seen from the origin)
        t = dict(case["t"], S=geo["scale"] if geo["coords"] == "flat" else 0.)
        y = go([transform(d, t) for d in ds])
        if not np.array_equal(np.round(x.ntri, 6), np.round(y.ntri, 6)) and not t["refl"]:
            # a triangle within rounding of a boundary?  Perturb: if the count is not stable under a tiny change of the bins, skip
            z = go([transform(d, t) for d in ds], 1 + 1e-9)
            z2 = go([transform(d, t) for d in ds], 1 - 1e-9)
            if not (np.array_equal(z.ntri, y.ntri) and np.array_equal(z2.ntri, y.ntri)):
                raise Skip("boundary")
        if t["refl"] and bt == "LogRUV":
            nv = x.weight.shape[2]
            fl = lambda a: a[:, :, ::-1]
        else:
            fl = lambda a: a
        if bt == "LogMultipole" and t["refl"]:
            fl = np.conj        # zeta_n = sum w z exp(-i n phi), phi -> -phi
        if t["refl"] and bt == "LogSAS":
            if ncat == 3:
                raise Skip("an ordered triangle and its mirror image are never both in 0..pi")
            fl = lambda a: np.swapaxes(a, 0, 1)
        cmp.close("ntri", fl(y.ntri), x.ntri, 1e-9 if algo == "triangle" else 1e-6, max(1., np.abs(x.ntri).max(initial=0.)))
        W = max(1., np.abs(x.weight).max(initial=0.))
        cmp.close("weight", fl(y.weight), x.weight, 1e-6, W)
        for k, v in zetas(x).items():
            if t["refl"] and bt == "LogSAS" and k in ("gam2", "gam3"):
                v2 = fl(zetas(y)[dict(gam2="gam3", gam3="gam2")[k]])
            else:
                v2 = fl(zetas(y)[k])
            if t["refl"] and typ == "GGG" and bt != "LogMultipole":
                v2 = np.conj(v2)
            cmp.close(k, v2[ok(x)], v[ok(x)], 2e-5, 1. if bt != "LogMultipole" else W)


SUBS = [Sub("rigid", rigid_st, run_rigid, quick=1500), Sub("scale", scale_st, run_scale, quick=1500), Sub("units", units_st, run_units, quick=800),
        Sub("linear", lin_st, run_lin, quick=800), Sub("union", union_st, run_union, quick=2000), Sub("three", three_st, run_three, quick=800)]
