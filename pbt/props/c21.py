"""C21: neighbour queries and pair sampling return exactly the qualifying objects."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2
from core import Sub, Skip, fail

RULE = ("near: count_near/get_near of fields of every type, tree depth, minimum cell size and coordinate system, with the point given in every documented form and unit, against the distances of all objects .  sample: sample_pairs for drawn correlations, metrics, ranges and numbers against all pairs: valid indices, unique, in range, the reported separation, min(n, available) of them, "
        "also after other uses of the catalogs.  uniform: every qualifying pair is equally likely (frequencies over 500 seeds).  Non-trivial: some but not all objects (pairs) qualify.")
ASSUMPTIONS = ["a separation within rounding of the limits may fall on either side",
               "with bin_slop > 0 the reported separation is that of the cells (documented); it must be in range, and differ from the true one by at most the sizes allowed",
               "with min_sep=0 and cat1 = cat2 an object may be paired with itself (separation 0)"]

UN = {"deg": np.pi / 180, "arcmin": np.pi / 10800, "rad": 1., "hours": np.pi / 12, "arcsec": np.pi / 648000}
near = st.fixed_dictionaries(dict(n=st.integers(1, 40), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "flat", "sphere", "3d", "rdr"]), layout=st.sampled_from(["uniform", "lattice", "lattice", "few", "clusters"]),
                                  w=st.sampled_from([False, False, True]), field=st.sampled_from("NKZVGTQ"), split=st.sampled_from(["mean", "median", "middle", "random"]), top=st.sampled_from([0, 1, 3, 10]), mintop=st.booleans(),
                                  brute=st.booleans(), minsize=st.sampled_from([0, 0, 0.3, 1.1, 4.]), maxsize=st.sampled_from([None, 0.5, 10.]), fcoords=st.sampled_from([None, None, None, "other"]),
                                  pts=st.lists(st.tuples(st.sampled_from(["obj", "rand", "lattice", "far"]), st.integers(0, 99), st.sampled_from([0, 0.5, 1, 2, 3, 5, 1.37, 0.21, 7.5, 100.]), st.integers(0, 9), st.sampled_from(sorted(UN)), st.sampled_from(sorted(UN))), min_size=1, max_size=5)
                                  .map(lambda v: [list(x) for x in v])))


def positions(c, r):
    n, D = c["n"], 2 if c["coords"] == "flat" else 3
    L = c["layout"]
    if L == "uniform": P = r.uniform(-5, 5, (n, D))
    elif L == "lattice": P = r.randint(-3, 4, (n, D)) * 1.
    elif L == "few": P = r.randint(-2, 3, (n, D)) * 0.5
    else: P = r.uniform(-5, 5, (4, D))[r.randint(0, 4, n)] + r.normal(0, 0.2, (n, D))
    if c["coords"] in ("sphere", "rdr"): P[np.all(P == 0, axis=1)] = [1., 0, 0]
    return P


def check_near(case, ctx):
    import treecorr, coord
    c = case
    r = np.random.RandomState(c["seed"])
    P = positions(c, r)
    n = len(P)
    d = dict(k=np.ones(n), verbose=0)
    for f in "zvgtq": d.update({f + "1": np.ones(n), f + "2": np.zeros(n)})
    if c["w"]: d["w"] = r.randint(1, 4, n) * 1.
    ang = c["coords"] in ("sphere", "rdr")
    if ang:
        rr = np.sqrt((P ** 2).sum(axis=1))
        ra, dec = np.arctan2(P[:, 1].copy(), P[:, 0].copy()), np.arcsin(np.clip(P[:, 2] / rr, -1, 1))
        d.update(ra=ra, dec=dec, ra_units="rad", dec_units="rad")
        if c["coords"] == "rdr": d["r"] = rr
    else: d.update({q: P[:, i] for i, q in enumerate("xyz"[:P.shape[1]])})
    cat = treecorr.Catalog(rng=np.random.RandomState(1), **d)
    fc = None
    fcoords = c["coords"]
    if c["fcoords"] and c["coords"] == "rdr": fc = "spherical"; fcoords = "sphere"
    scale = 0.15 if fcoords == "sphere" else 1.
    kw = dict(split_method=c["split"], max_top=c["top"], brute=c["brute"], min_size=c["minsize"] * scale, max_size=c["maxsize"] and c["maxsize"] * scale, coords=fc)
    if not c["mintop"]: kw["min_top"] = 0
    f = getattr(cat, "get%sField" % c["field"])(**kw)
    if fcoords == "sphere": Q = np.column_stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    elif fcoords == "rdr": Q = np.column_stack([cat.x, cat.y, cat.z])
    else: Q = P
    nontriv = False
    for kind, i, sep, form, u1, u2 in c["pts"]:
        if kind == "obj": p = P[i % n].copy()
        elif kind == "rand": p = np.random.RandomState(i).uniform(-5, 5, P.shape[1])
        elif kind == "lattice": p = np.random.RandomState(i).randint(-3, 4, P.shape[1]) * 1.
        else: p = np.full(P.shape[1], 50. + i)
        if ang and np.all(p == 0): p[0] = 1.
        fu1, fu2 = UN[u1], UN[u2]
        kws = {}
        if fcoords == "flat":
            args = [p[0], p[1], sep]
            if form % 3 == 1: args, kws = args[:2], dict(sep=sep)
            if form % 3 == 2: args, kws = [], dict(x=p[0], y=p[1], sep=sep)
            q, s = p, sep
        else:
            rp = np.sqrt((p ** 2).sum())
            a, b = np.arctan2(p[1], p[0]), np.arcsin(np.clip(p[2] / rp, -1, 1))
            A, B = coord.Angle(a, coord.radians), coord.Angle(b, coord.radians)
            q = p
            if fcoords == "sphere":
                th = sep * scale
                s = 2 * np.sin(th / 2) if th < np.pi else 3.
                q = np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])
                S = coord.Angle(th, coord.radians)
                k3 = dict(ra_units=u1, dec_units=u2, sep_units=u1)
                args = [[A, B, S], [A, B], [coord.CelestialCoord(A, B), S], [coord.CelestialCoord(A, B)], [], [a / fu1, b / fu2, th / fu1], [a / fu1, b / fu2], [], [A, B, th / fu1], [A, b / fu2]][form]
                kws = [{}, dict(sep=S), {}, dict(sep=th / fu1, sep_units=u1), dict(ra=A, dec=B, sep=S), k3, dict(sep=th / fu1, **k3), dict(ra=a / fu1, dec=b / fu2, sep=th / fu1, **k3), dict(sep_units=u1),
                       dict(dec_units=u2, sep=S)][form]
            else:
                s = sep
                ku = dict(ra_units=u1, dec_units=u2)
                cc = coord.CelestialCoord(A, B)
                if fcoords == "rdr" or form > 2:
                    q = rp * np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)]) if rp > 0 else p
                if rp == 0: form = form % 3
                args = [[p[0], p[1], p[2], s], [p[0], p[1], p[2]], [], [cc, rp, s], [cc, rp], [cc], [A, B, rp, s], [A, B, rp], [a / fu1, b / fu2, rp, s], []][form]
                kws = [{}, dict(sep=s), dict(x=p[0], y=p[1], z=p[2], sep=s), {}, dict(sep=s), dict(r=rp, sep=s), {}, dict(sep=s), ku, dict(ra=a / fu1, dec=b / fu2, r=rp, sep=s, **ku)][form]
                if form < 3: q = p
        ctx.tag("%s:%d" % (fcoords, form), "min_size" if c["minsize"] else "exact")
        dd = np.sqrt(((Q - q) ** 2).sum(axis=1))
        tol = 1e-9 * (np.abs(Q).max() + np.abs(q).max() + s)
        sure = dd < s - tol
        maybe = dd <= s + tol
        got = f.get_near(*args, **kws)
        num = f.count_near(*args, **kws)
        got2 = list(got)
        if len(set(got2)) != len(got2) or got2 != sorted(got2): fail("get_near lists an object twice, or unsorted: %s" % got2)
        g = np.zeros(n, bool)
        if len(got2) and (min(got2) < 0 or max(got2) >= n): fail("get_near gives invalid indices %s for %d objects" % (got2, n))
        g[got] = True
        if np.any(sure & ~g) or np.any(g & ~maybe):
            j = np.where((sure & ~g) | (g & ~maybe))[0][0]
            fail("get_near: object %d is at %r for sep=%r, but is %s" % (j, dd[j], s, "listed" if g[j] else "not listed"))
        if num != len(got2) and not maybe.sum() >= num >= sure.sum(): fail("count_near is %d, but get_near lists %d objects" % (num, len(got2)))
        if 0 < sure.sum() < n: nontriv = True
    if not nontriv: ctx.trivial()


TYPES = ["NN", "NN", "NN", "KK", "GG", "NG", "NK"]
METRICS = {"flat": ["Euclidean", "Euclidean", "Periodic"], "sphere": ["Euclidean", "Arc"], "3d": ["Euclidean", "Periodic"], "rdr": ["Euclidean", "Rperp", "OldRperp", "Rlens", "Arc"]}
samp = st.fixed_dictionaries(dict(spec=gen.cat_spec(12, 1), spec2=gen.cat_spec(9, 1), geo=gen.geom(), metric=st.integers(0, 9), bins=gen.bins_spec(nbmax=6), auto=st.booleans(), typ=st.sampled_from(TYPES),
                                  mode=st.sampled_from(["brute", "exact", "exact", "exact", "slop"]), slop=st.sampled_from([0.3, 1., 2.]), num=st.sampled_from(["few", "few", "all", "one less", "more", "zero"]), lo=st.sampled_from([0, 0.02, 0.3, 0.7, 1.]), hi=st.sampled_from([0.5, 0.9, 1., 1.5, 3.]),
                                  rpar=st.sampled_from([None, None, None, "min", "max", "both"]), units=st.sampled_from([None, "arcmin", "degrees"]), top=st.sampled_from([0, 0, 1, 3]), seed=st.integers(0, 9999), before=st.sampled_from(["no", "no", "process", "other", "other", "kfield"]), k=st.integers(1, 30)))


def setup(case, uniform=False):
    import treecorr
    c = case
    geo = dict(c["geo"])
    co = geo["coords"]
    metric = METRICS[co][c["metric"] % len(METRICS[co])]
    auto = c["auto"] and metric != "Rlens"
    d1 = gen.make(c["spec"], geo)
    d2 = d1 if auto else gen.make(c["spec2"], geo)
    for d in (d1, d2):
        d["w"] = None
    ext = gen.sky_extent(geo)
    if metric == "Arc" and co == "rdr":
        ext = 2.0 if geo["sky"] in ("full", "anti") else geo["theta"]
    b = dict(c["bins"])
    if b["bin_type"] == "TwoD" and (co != "flat" or metric != "Euclidean"): b["bin_type"] = "Linear"
    kw = gen.bins_kw(b, geo, ext)
    kw.update(verbose=0, max_top=c["top"], min_top=0)
    per = None
    if metric == "Periodic":
        per = ext * np.array([1.7, 1.1, 2.3])
        kw["period"] = None
        kw.update(xperiod=per[0], yperiod=per[1])
        if co == "3d": kw["zperiod"] = per[2]
        kw.pop("period")
        if kw["max_sep"] >= per.min() / 2:
            f = 0.45 * per.min() / kw["max_sep"]
            kw["max_sep"] *= f
            if "min_sep" in kw: kw["min_sep"] *= f
    kw["metric"] = metric
    if metric in ("Rperp", "OldRperp", "Rlens") and c["mode"] != "brute" and not (geo["sky"] not in ("full", "anti") and geo["theta"] <= 0.35): c = dict(c, mode="brute")
    rl = {}
    if c["rpar"] and co in ("3d", "rdr") and metric in ("Euclidean", "Rperp", "OldRperp", "Rlens"):
        if c["rpar"] in ("min", "both"): rl["min_rpar"] = -0.11 * gen.sky_extent(geo)
        if c["rpar"] in ("max", "both"): rl["max_rpar"] = 0.37 * gen.sky_extent(geo)
        if c["mode"] != "brute" and not (co == "rdr" and geo["sky"] not in ("full", "anti") and geo["theta"] <= 0.35): c = dict(c, mode="brute")
    kw.update(rl)
    if c["mode"] == "brute": kw["brute"] = True
    elif c["mode"] == "exact": kw["bin_slop"] = 0
    else: kw["bin_slop"] = c["slop"]
    su = 1.
    if c["units"] and (co == "sphere" or (co == "rdr" and metric == "Arc")):
        su = UN["arcmin" if c["units"] == "arcmin" else "deg"]
        kw["sep_units"] = c["units"]
        kw["max_sep"] /= su
        if "min_sep" in kw: kw["min_sep"] /= su
    cat1 = treecorr.Catalog(rng=np.random.RandomState(1), **gen.catkw(d1, "kg"))
    cat2 = cat1 if auto else treecorr.Catalog(rng=np.random.RandomState(1), **gen.catkw(d2, "kg"))
    lo, hi = kw.get("min_sep", 0.1 * kw["max_sep"]), kw["max_sep"]
    mn = lo + (hi - lo) * c["lo"] * 0.7 if c["lo"] else lo * 0.5
    mx = mn + (hi - mn) * c["hi"] if hi > mn else mn * (1 + c["hi"])
    if metric == "Periodic": mx = min(mx, 0.49 * per.min())
    if mx <= mn: raise Skip("empty range")
    S = ref2.metric_sep(ref2.cart(d1), ref2.cart(d2), metric, per)
    lo, hi = mn * su, mx * su
    q = (S >= lo) & (S < hi)
    amb = (np.abs(S - lo) < 1e-7 * lo) | (np.abs(S - hi) < 1e-7 * hi)
    if kw["bin_type"] == "TwoD":
        P1, P2 = ref2.cart(d1), ref2.cart(d2)
        D = P2[None] - P1[:, None]
        m = np.abs(D).max(axis=2)
        q = (S >= lo) & (m < hi) & (S > 0)
        amb = (np.abs(S - lo) < 1e-7 * lo) | (np.abs(m - hi) < 1e-7 * hi)
    if rl:
        rp = ref2.rpar(ref2.cart(d1), ref2.cart(d2), metric)
        e = gen.sky_extent(geo)
        if "min_rpar" in rl: q &= rp >= rl["min_rpar"]; amb |= np.abs(rp - rl["min_rpar"]) < 1e-7 * e
        if "max_rpar" in rl: q &= rp <= rl["max_rpar"]; amb |= np.abs(rp - rl["max_rpar"]) < 1e-7 * e
        if c["mode"] != "brute": amb |= False
    return c, kw, cat1, cat2, mn, mx, S, q, amb, su, metric, rl


def check_sample(case, ctx):
    import treecorr
    c, kw, cat1, cat2, mn, mx, S, q, amb, su, metric, rl = setup(case)
    cls = gen.corr_class(c["typ"])
    corr = cls(rng=np.random.RandomState(c["seed"]), **kw)
    ctx.tag(c["mode"], c["num"], metric, kw["bin_type"], c["before"], "auto" if cat1 is cat2 else "cross")
    nq = int(q.sum())
    N = {"few": c["k"], "all": nq, "one less": nq - 1, "more": nq + c["k"], "zero": 0}[c["num"]]
    if N < 0: raise Skip("no pairs")
    if (amb & q).any() or amb.any(): raise Skip("pairs on the limits of the range")
    if not 0 < nq < q.size or N == 0: ctx.trivial()
    # other uses of the same catalogs before
    if c["before"] == "process":
        o = treecorr.NNCorrelation(**kw)
        if cat1 is cat2: o.process(cat1)
        else: o.process(cat1, cat2)
    if c["before"] in ("other", "kfield"):
        kk = {k: v for k, v in kw.items() if k not in ("bin_slop", "brute")}
        kk["max_sep"] = kw["max_sep"] * 8
        if "min_sep" in kk: kk["min_sep"] = kk["max_sep"] * 0.6
        kk["bin_slop"] = 2
        if metric == "Periodic": kk.update(max_sep=kw["max_sep"], min_sep=kw["max_sep"] * 0.6)
        o = (treecorr.NNCorrelation if c["before"] == "other" else treecorr.KKCorrelation)(**kk)
        with np.errstate(all="ignore"):
            if cat1 is cat2: o.process(cat1)
            else: o.process(cat1, cat2)
    i1, i2, sep = corr.sample_pairs(N, cat1, cat2, min_sep=mn, max_sep=mx)
    if not (len(i1) == len(i2) == len(sep)): fail("lengths %d, %d, %d" % (len(i1), len(i2), len(sep)))
    if len(i1) > N: fail("%d pairs for a request of %d" % (len(i1), N))
    if len(i1) and (i1.min() < 0 or i1.max() >= S.shape[0] or i2.min() < 0 or i2.max() >= S.shape[1]): fail("invalid indices %s %s" % (i1, i2))
    prs = list(zip(i1.tolist(), i2.tolist()))
    if len(set(prs)) != len(prs): fail("a pair is given twice: %s" % sorted(prs))
    sp = sep * su
    lo, hi = mn * su, mx * su
    tol = 1e-6
    if np.any(sp < lo * (1 - tol)): fail("reported separations %s below min_sep=%s" % (sep, mn))
    if np.any(sp > hi * (1 + tol) * (np.sqrt(2) if kw["bin_type"] == "TwoD" else 1)): fail("reported separations %s beyond max_sep=%s" % (sep, mx))
    true = S[i1, i2]
    if c["mode"] != "slop":
        bad = ~q[i1, i2]
        if bad.any(): fail("%s: pair %s at %r (rpar limits %s) is not in the range %r to %r" % (c["mode"], prs[np.where(bad)[0][0]], true[bad][0], rl, lo, hi))
        if len(i1) != min(N, nq): fail("%s: %d pairs for a request of %d, %d are available" % (c["mode"], len(i1), N, nq))
    if c["mode"] == "brute":
        if len(sp) and np.abs(sp - true).max() > 1e-6 * hi: fail("brute: separations %s reported, true ones %s" % (sp, true))
    if c["mode"] == "slop" and metric in ("Euclidean", "Periodic"):
        b = corr.bin_slop * corr.bin_size * (1 if kw["bin_type"] == "Log" else su)
        size = np.abs(S).max()
        bs = corr.bin_size * (1 if kw["bin_type"] == "Log" else su)
        lim = 0.5 * (bs + b) + b
        lim = lim * np.maximum(sp, true) if kw["bin_type"] == "Log" else lim
        ms = max(corr._get_minmax_size()[0], 0)
        bad = np.abs(sp - true) > lim * (1 + 1e-6) + 2 * ms + 1e-9 * hi
        if bad.any(): fail("slop: separation %s reported, true one %s: more than the bin slop allows" % (sp[bad][0], true[bad][0]))
    # the same again
    again = cls(rng=np.random.RandomState(c["seed"]), **kw)
    if c["seed"] % 3 == 0 and c["before"] != "no":
        again = cls(rng=np.random.RandomState(c["seed"]), **kw)
        j1, j2, sep2 = again.sample_pairs(N, cat1.copy(), cat1.copy() if cat1 is cat2 else cat2.copy(), min_sep=mn, max_sep=mx, metric=metric)
        if c["mode"] != "slop" and len(j1) != len(i1): fail("%d pairs of fresh copies of the catalogs, but %d of the used ones" % (len(j1), len(i1)))
        if c["mode"] == "slop" and len(j1) == len(i1) and N >= nq:
            if set(zip(j1.tolist(), j2.tolist())) != set(prs) and len(i1) < N: fail("the pairs available depend on what was done before with the catalogs")
        if c["mode"] == "slop" and (len(i1) < N or len(j1) < N) and len(i1) != len(j1): fail("slop: %d pairs of fresh copies of the catalogs, but %d of the used ones" % (len(j1), len(i1)))
    else:
        j1, j2, sep2 = again.sample_pairs(N, cat1, cat2, min_sep=mn, max_sep=mx, metric=metric)
        if not (np.array_equal(i1, j1) and np.array_equal(i2, j2) and np.array_equal(sep, sep2)): fail("samples differ for the same rng")


unif = st.fixed_dictionaries(dict(n1=st.integers(1, 7), n2=st.integers(1, 7), N=st.integers(1, 12), seed=st.integers(0, 9999), layout=st.sampled_from(["few", "few", "uniform", "blobs"]), mode=st.sampled_from(["brute", "exact", "slop"]), top=st.sampled_from([0, 3]), hi=st.sampled_from([3., 6., 20.])))


def check_unif(case, ctx):
    import treecorr
    c = case
    r = np.random.RandomState(c["seed"])
    def pts(n, off):
        if c["layout"] == "uniform": return r.uniform(-3, 3, (n, 2))
        if c["layout"] == "few": return r.randint(-1, 2, (n, 2)) * 2. + off
        return np.array([[0, 0], [2., 1.]])[r.randint(0, 2, n)] + r.normal(0, 0.01, (n, 2))
    A, B = pts(c["n1"], 0.), pts(c["n2"], 0.5)
    c1 = treecorr.Catalog(x=A[:, 0], y=A[:, 1]); c2 = treecorr.Catalog(x=B[:, 0], y=B[:, 1])
    kw = dict(min_sep=0.3, max_sep=c["hi"], nbins=2, verbose=0, max_top=c["top"], min_top=0)
    if c["mode"] == "brute": kw["brute"] = True
    elif c["mode"] == "exact": kw["bin_slop"] = 0
    else: kw["bin_slop"] = 1
    corr = treecorr.NNCorrelation(rng=np.random.RandomState(c["seed"]), **kw)
    i1, i2, sep = corr.sample_pairs(1000, c1, c2, min_sep=0.3, max_sep=c["hi"])
    allp = sorted(zip(i1.tolist(), i2.tolist()))
    m = len(allp)
    if m < 2: raise Skip("no pairs")
    N = min(c["N"], m - 1)
    T = 500
    cnt = {p: 0 for p in allp}
    spair = dict(zip(zip(i1.tolist(), i2.tolist()), sep))
    for t in range(T):
        j1, j2, s2 = corr.sample_pairs(N, c1, c2, min_sep=0.3, max_sep=c["hi"])
        pp = list(zip(j1.tolist(), j2.tolist()))
        if len(pp) != N or len(set(pp)) != N: fail("%d of %d: %s" % (N, m, pp))
        for p, s in zip(pp, s2):
            if p not in cnt: fail("pair %s is not among the %d available" % (p, m))
            if s != spair[p]: fail("pair %s reported at %r and at %r" % (p, s, spair[p]))
            cnt[p] += 1
    f = np.array([cnt[p] for p in allp])
    z = (f - T * N / m) / np.sqrt(T * N / m * (1 - N / m))
    if np.abs(z).max() > 6.5: fail("pairs are not equally likely: %s of %d samples of %d out of %d" % (f, T, N, m))
    ctx.tag(c["layout"], c["mode"])


SUBS = [Sub("near", near, check_near, quick=2500), Sub("sample", samp, check_sample, quick=3000), Sub("uniform", unif, check_unif, quick=40)]
