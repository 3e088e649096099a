"""C20: k-means patches are valid clusterings."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, Skip, fail

RULE = ("Catalogs of 1-40 objects (uniform, clustered, on a lattice including the origin, coincident objects, collinear) in flat, spherical and 3d coordinates, with weights, and fields of every type, split method and top "
        "level; npatch from 1 to beyond the number of objects.  run: labels, centres and inertias of run_kmeans are checked against a direct computation from the object positions.  init: the initial centres.  catalog: "
        "Catalog(npatch=...), patch_centers and lazily read patches against the same computation, including objects equidistant from two centres.  draws: frequencies of the initial centres over many seeds.  "
        "Non-trivial: at least 2 patches and more objects than patches.")
ASSUMPTIONS = ["distinct initial centres are required when the objects drawn are not coincident",
               "on the sphere the centre of a patch is the mean of the directions of the cells in it, which differs from that of the members at third order in the size of the patch",
               "determinism is required for the deterministic split methods ('random' splits cells in parallel threads)"]

pos_spec = st.fixed_dictionaries(dict(n=st.integers(1, 40), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "flat", "sphere", "3d", "rdr"]),
                                      layout=st.sampled_from(["uniform", "clusters", "lattice", "lattice", "few", "line", "far"]), w=st.sampled_from(["none", "pos", "wide", "zeros"])))


def positions(s):
    r = np.random.RandomState(s["seed"])
    n, D = s["n"], (2 if s["coords"] == "flat" else 3)
    L = s["layout"]
    if L == "uniform": P = r.uniform(-5, 5, (n, D))
    elif L == "clusters":
        m = r.randint(1, 6)
        c = r.uniform(-50, 50, (m, D))
        P = c[r.randint(0, m, n)] + r.normal(0, 0.5, (n, D))
    elif L == "lattice": P = r.randint(-3, 4, (n, D)) * 1.
    elif L == "few":
        m = r.randint(1, 8)
        P = r.randint(-8, 9, (m, D))[r.randint(0, m, n)] * 0.5
    elif L == "line":
        P = np.zeros((n, D)); P[:, 0] = r.randint(-20, 20, n) * 1.
    else: P = 1000 + r.uniform(-1, 1, (n, D))
    if s["coords"] in ("sphere", "rdr"):
        if L == "far": P = np.array([1., 0.5, 0.3]) + 1e-2 * (P - 1000)
        bad = np.all(P == 0, axis=1)
        P[bad] = [0, 0, 1.]
    if s["coords"] == "sphere": P = P / np.sqrt((P ** 2).sum(axis=1))[:, None]
    w = np.ones(n)
    if s["w"] == "pos": w = r.randint(1, 9, n) * 0.25
    if s["w"] == "wide": w = 2. ** r.randint(-10, 11, n)
    if s["w"] == "zeros":
        w = r.randint(0, 3, n) * 1.
        if w.sum() == 0: w[:] = 1
    return P, w


def catalog(s, P, w, **kw):
    import treecorr
    d = dict(w=None if s["w"] == "none" else w, verbose=0)
    n = len(P)
    d.update(k=np.ones(n))
    for f in "zvgtq": d.update({f + "1": np.ones(n), f + "2": np.zeros(n)})
    if s["coords"] == "flat": d.update(x=P[:, 0], y=P[:, 1])
    elif s["coords"] == "3d": d.update(x=P[:, 0], y=P[:, 1], z=P[:, 2])
    else:
        rr = np.sqrt((P ** 2).sum(axis=1))
        d.update(ra=np.arctan2(P[:, 1].copy(), P[:, 0].copy()), dec=np.arcsin(P[:, 2] / rr), ra_units="rad", dec_units="rad")
        if s["coords"] == "rdr": d["r"] = rr
    d.update(kw)
    return treecorr.Catalog(**d)


def rng_of(case):
    return np.random.RandomState(case["rng"]) if case["gen"] == "state" else np.random.default_rng(case["rng"])


def pos_of(cat, sphere=False):
    """Positions as used by k-means."""
    if cat.z is None: return np.column_stack([cat.x, cat.y])
    P = np.column_stack([cat.x, cat.y, cat.z])
    return P / np.sqrt((P ** 2).sum(axis=1))[:, None] if sphere else P


def dsq(P, C):
    return ((P[:, None, :] - C[None, :, :]) ** 2).sum(axis=2)


def nearest(P, C, lab, what, tol=1e-9):
    """Every label is that of (one of) the nearest centres."""
    lab = np.asarray(lab)
    if lab.shape != (len(P),): fail("%s: %s labels for %d objects" % (what, lab.shape, len(P)))
    if lab.dtype.kind != "i": fail("%s: labels of type %s" % (what, lab.dtype))
    if lab.min() < 0 or lab.max() >= len(C): fail("%s: labels %s are not in 0..%d" % (what, lab, len(C) - 1))
    D = dsq(P, C)
    own = D[np.arange(len(P)), lab]
    scale = (P ** 2).sum(axis=1).max() + (C ** 2).sum(axis=1).max()
    bad = own > D.min(axis=1) + tol * scale * 1e-3 + 1e-12 * scale
    if bad.any():
        i = np.where(bad)[0][0]
        fail("%s: object %d is in patch %d at distance^2 %r, but centre %d is at %r" % (what, i, lab[i], own[i], D[i].argmin(), D[i].min()))
    return D


def inertia(P, w, C):
    return (w * dsq(P, C).min(axis=1)).sum()


strat_run = st.fixed_dictionaries(dict(pos=pos_spec, npatch=st.integers(1, 12), init=st.sampled_from(["tree", "tree", "random", "kmeans++"]), alt=st.sampled_from([False, False, True]),
                                       iters=st.sampled_from([0, 1, 2, 5, 200, 200, 1000]), tol=st.sampled_from([1e-5, 0., 1e-2]), rng=st.integers(0, 9999), gen=st.sampled_from(["state", "gen"]), field=st.sampled_from("NKZVGTQ"),
                                       split=st.sampled_from(["mean", "median", "middle"]), top=st.sampled_from([0, 1, 2, 3, 5, 10]), mintop=st.booleans(), threads=st.sampled_from([1, 1, 2, 4]), order=st.booleans()))


def field_of(case, cat):
    kw = dict(split_method=case["split"], max_top=case["top"])
    if not case["mintop"]: kw["min_top"] = 0
    if case["field"] == "Z" : return cat.getZField(**kw)
    return getattr(cat, "get%sField" % case["field"])(**kw)


def distinct(P):
    return len(set(map(tuple, P)))


def check_run(case, ctx):
    import treecorr
    s = case["pos"]
    P0, w0 = positions(s)
    m = min(case["npatch"], (w0 > 0).sum())
    treecorr.set_omp_threads(case["threads"])
    cat = catalog(s, P0, w0, rng=rng_of(case))
    f = field_of(case, cat)
    P = pos_of(cat); w = cat.w
    if f.ntot != cat.ntot: fail("field.ntot is %d for %d objects" % (f.ntot, cat.ntot))
    nd = distinct(P)
    lab, C = f.run_kmeans(m, max_iter=case["iters"], tol=case["tol"], init=case["init"], alt=case["alt"], rng=rng_of(case))
    if C.shape != (m, P.shape[1]) or not np.all(np.isfinite(C)): fail("centers %s" % C)
    sphere = s["coords"] == "sphere"
    R = P.max(axis=0) - P.min(axis=0)
    size = np.sqrt((R ** 2).sum())
    nearest(P, C, lab, "run_kmeans")
    ctx.tag("init=%s" % (case["init"]), "coords=%s" % (s["coords"]), "alt=%s" % (case["alt"]), "layout=%s" % (s["layout"]), "empty=%s" % (len(set(lab)) < m))
    if m < 2 or m >= nd: ctx.trivial()
    # the steps separately, and again: the same
    cat2 = catalog(s, P0, w0, rng=rng_of(case))
    f2 = field_of(case, cat2)
    rng = rng_of(case)
    C0 = f2.kmeans_initialize_centers(m, case["init"], rng=rng)
    Cs = C0.copy()
    if case["order"]: Cs = np.asfortranarray(Cs)
    f2.kmeans_refine_centers(Cs, max_iter=case["iters"], tol=case["tol"], alt=case["alt"])
    eps = 1e-9 if case["threads"] > 1 else 1e-15
    if np.abs(Cs - C).max() > eps * np.abs(P).max(): fail("initialize_centers and refine_centers with the same rng give other centers than run_kmeans\n%s\n%s" % (Cs, C))
    lab2 = f2.kmeans_assign_patches(Cs)
    if case["threads"] == 1 and not np.array_equal(lab2, lab): fail("labels of the same run differ: %s %s" % (lab, lab2))
    # Every centre lies in the region of the objects
    lo, hi = P.min(axis=0) - 1e-6 * size - 1e-7 * np.abs(P).max(), P.max(axis=0) + 1e-6 * size + 1e-7 * np.abs(P).max()
    if not sphere and (np.any(C < lo) or np.any(C > hi)): fail("centers outside of the region of the objects (%s to %s):\n%s" % (lo, hi, C))
    if sphere and np.abs((C ** 2).sum(axis=1) - 1).max() > 1e-6 and case["iters"] > 0: fail("centers are not on the unit sphere\n%s" % C)
    # inertia
    I0, I1 = inertia(P, w, C0), inertia(P, w, C)
    slack = 1e-9 * I0 + 1e-12 * w.sum() * (P ** 2).sum(axis=1).max()
    if sphere: slack += w.sum() * size ** 6
    if not case["alt"] and I1 > I0 + slack: fail("inertia went from %r to %r" % (I0, I1))
    # converged: the centres are the means of their members, further iterations change nothing
    if case["iters"] >= 200 and not case["alt"]:
        D = dsq(P, C)
        ss = np.sort(D, axis=1)
        if m > 1 and (ss[:, 1] - ss[:, 0]).min() < 1e-9 * (P ** 2).sum(axis=1).max(): return
        for i in range(m):
            g = lab == i
            if not g.any(): continue
            c = (w[g][:, None] * P[g]).sum(axis=0) / w[g].sum()
            if sphere: c /= np.sqrt((c ** 2).sum())
            R = np.sqrt(((P[g] - c) ** 2).sum(axis=1).max())
            d = np.sqrt(((C[i] - c) ** 2).sum())
            # a converged run stops when the rms shift is below tol*size, so the last assignment may still have changed only by that
            if case["tol"] <= 1e-5 and d > 1e-6 * np.abs(P).max() + (R ** 3 if sphere else 0) + 2e-5 * size * np.sqrt(m):
                fail("centre %d is %s, but its %d members have the mean %s" % (i, C[i], g.sum(), c))
        C3 = C.copy()
        if case["tol"] == 0.:
            f.kmeans_refine_centers(C3, max_iter=1, tol=0.)
            if np.abs(C3 - C).max() > 1e-9 * np.abs(P).max(): fail("another iteration moves the converged centres\n%s\n%s" % (C, C3))


strat_init = st.fixed_dictionaries(dict(pos=pos_spec, npatch=st.integers(-1, 45), init=st.sampled_from(["tree", "random", "kmeans++", "kmeans++", "forgy"]), rng=st.integers(0, 9999), gen=st.sampled_from(["state", "gen"]),
                                        field=st.sampled_from("NG"), split=st.sampled_from(["mean", "median", "middle"]), top=st.sampled_from([0, 1, 3, 10]), mintop=st.booleans()))


def check_init(case, ctx):
    import treecorr
    treecorr.set_omp_threads(1)
    s = case["pos"]
    P0, w0 = positions(s)
    cat = catalog(s, P0, w0, rng=rng_of(case))
    f = field_of(case, cat)
    P = pos_of(cat)
    nd = distinct(P)
    m = case["npatch"]
    ctx.tag("init=%s" % (case["init"]), "dup=%s" % (nd < len(P)), "more=%s" % (m > nd))
    if m < 1 or m > cat.ntot or case["init"] == "forgy":
        for g in (lambda: f.kmeans_initialize_centers(m, case["init"], rng=rng_of(case)), lambda: f.run_kmeans(m, init=case["init"], rng=rng_of(case))):
            try: g()
            except ValueError: continue
            fail("k-means with npatch=%d, init=%r of %d objects is not refused" % (m, case["init"], cat.ntot))
        return
    C = f.kmeans_initialize_centers(m, case["init"], rng=rng_of(case))
    if m < 2 or m >= nd: ctx.trivial()
    if C.shape != (m, P.shape[1]) or not np.all(np.isfinite(C)): fail("initial centers %s" % C)
    if not np.array_equal(C, f.kmeans_initialize_centers(m, case["init"], rng=rng_of(case))): fail("initial centers differ for the same rng")
    scale = np.abs(P).max()
    if case["init"] == "tree":
        lo, hi = P.min(axis=0) - 1e-6 * scale, P.max(axis=0) + 1e-6 * scale
        if s["coords"] != "sphere" and (np.any(C < lo) or np.any(C > hi)): fail("initial centers outside of the region of the objects\n%s" % C)
    else:
        D = np.sqrt(dsq(C, P))
        if D.min(axis=1).max() > 2e-7 * scale + 1e-14: fail("%s: initial centers are not objects\n%s" % (case["init"], C))
        if m <= nd and case["init"] == "kmeans++":
            if len(set(D.argmin(axis=1))) != m: fail("kmeans++ used an object twice\n%s" % C)
        if m == nd == cat.ntot and case["init"] == "random":
            if len(set(D.argmin(axis=1))) != m: fail("random used an object twice\n%s" % C)
    # (random draws of coincident objects are told apart by a relative shift, which does nothing at the origin)
    if m <= nd and case["init"] != "tree" and distinct(C) != m and not (case["init"] == "random" and nd < len(P)): fail("initial centers are not distinct\n%s" % C)


strat_cat = st.fixed_dictionaries(dict(pos=pos_spec, npatch=st.integers(2, 9), init=st.sampled_from(["tree", "random", "kmeans++", None]), alt=st.booleans(), rng=st.integers(0, 9999), gen=st.sampled_from(["state", "gen"]),
                                       cen=st.sampled_from(["kmeans", "lattice", "lattice", "objects"]), order=st.sampled_from(["C", "F", "strided", "f4", "list"]), form=st.sampled_from(["array", "file"])))


def check_cat(case, ctx):
    import treecorr
    s = case["pos"]
    P0, w0 = positions(s)
    sphere = s["coords"] in ("sphere", "rdr")
    m = min(case["npatch"], (w0 > 0).sum())
    if m < 2: raise Skip("one object")
    ctx.tag("cen=%s" % (case["cen"]), "coords=%s" % (s["coords"]), "order=%s" % (case["order"]))
    if case["cen"] == "kmeans":
        kw = {}
        if case["init"]: kw["kmeans_init"] = case["init"]
        if case["alt"]: kw["kmeans_alt"] = True
        mk = lambda: catalog(s, P0, w0, npatch=m, rng=rng_of(case), **kw)
        cat = mk()
        P = pos_of(cat, sphere)
        if m >= distinct(P): ctx.trivial()
        C = cat.patch_centers
        if C.shape != (m, P.shape[1]): fail("patch_centers has the shape %s" % (C.shape,))
        nearest(P, C, cat.patch, "Catalog(npatch)")
        treecorr.set_omp_threads(1)
        a, b = mk(), mk()
        # (the sums depend on the threads at rounding level, which decides ties)
        if s["layout"] in ("uniform", "clusters"):
            if not np.array_equal(a.patch, b.patch) or np.abs(a.patch_centers - b.patch_centers).max() > 1e-9 * np.abs(P).max(): fail("patches differ for the same rng")
        if case["alt"]: return
        # the same as the field's own k-means from the documented start
        I = inertia(P, cat.w, C)
        mean = (cat.w[:, None] * P).sum(axis=0) / cat.w.sum()
        full = (cat.w * ((P - mean) ** 2).sum(axis=1)).sum()
        if not sphere and I > full * (1 + 1e-9) + 1e-9 * cat.w.sum() * (P ** 2).max(): fail("total inertia %r of the patches is more than %r of the whole catalog" % (I, full))
        return
    r = np.random.RandomState(case["rng"])
    D = P0.shape[1]
    if case["cen"] == "lattice": C = r.randint(-3, 4, (m, D)) * 1. + r.choice([0., 0.5])
    else: C = P0[r.permutation(len(P0))[:m]].copy()
    if len(set(map(tuple, C))) < m: raise Skip("same centers")
    if sphere and case["cen"] == "lattice": C = C + 0.25
    if s["coords"] == "sphere": C = C / np.sqrt((C ** 2).sum(axis=1))[:, None]
    C32 = C
    if case["order"] == "F": C = np.asfortranarray(C)
    if case["order"] == "strided": C = np.repeat(np.repeat(C, 2, axis=0), 3, axis=1)[::2, ::3]
    if case["order"] == "f4": C = C.astype("f4")
    keep = C.copy()
    arg = C
    if case["order"] == "list" : C = np.array(C)
    if case["form"] == "file":
        arg = ctx.tmp() + "/cen.dat"
        src = catalog(s, P0, w0, patch_centers=C)
        src.write_patch_centers(arg)
    cat = catalog(s, P0, w0, patch_centers=arg)
    P = pos_of(cat, False)
    CC = np.asarray(keep, float)
    nearest(P, CC, cat.patch, "Catalog(patch_centers)")
    if not np.allclose(cat.patch_centers, CC, rtol=1e-14, atol=0): fail("patch_centers reads back as %s" % cat.patch_centers)
    f = cat.getNField(max_top=3)
    if s["coords"] != "sphere" or True:
        # a field on the sphere holds the directions
        lab = f.kmeans_assign_patches(C)
        nearest(P, CC, lab, "kmeans_assign_patches", 1e-3 if case["order"] == "f4" else 1e-9)
    # selecting each patch by itself: a partition, the same one
    lab = np.full(cat.ntot, -1)
    kk = np.arange(len(P0)) * 1.
    full = catalog(s, P0, w0, patch_centers=arg, k=kk)
    got = {}
    for i in range(m):
        try: one = catalog(s, P0, w0, patch_centers=arg, patch=i, k=kk)
        except ValueError as e:
            if np.any(full.w[full.patch == i] > 0): raise
            continue
        except RuntimeError:
            if np.any(full.patch == i): raise
            continue
        got[i] = sorted(one.k)
    for i in range(m):
        want = sorted(full.k[full.patch == i])
        if got.get(i, []) != want: fail("patch %d has the objects %s when selected by itself, but %s in the whole catalog (tie?)" % (i, got.get(i, []), want))
    if not np.array_equal(keep, arg if isinstance(arg, np.ndarray) else keep): fail("the array of centers was changed")
    if len(set(full.patch)) < 2: ctx.trivial()


strat_draw = st.fixed_dictionaries(dict(n=st.integers(4, 9), m=st.integers(1, 4), seed=st.integers(0, 9999), init=st.sampled_from(["random", "random", "kmeans++"]), coords=st.sampled_from(["flat", "3d", "sphere"]), top=st.sampled_from([0, 1, 3])))


def check_draw(case, ctx):
    """Frequencies of the initial centers over 400 seeds."""
    import treecorr
    treecorr.set_omp_threads(1)
    n, m = case["n"], min(case["m"], case["n"] - 1)
    s = dict(n=n, seed=case["seed"], coords=case["coords"], layout="uniform", w="none")
    P0, w0 = positions(s)
    cat = catalog(s, P0, w0)
    P = pos_of(cat)
    f = cat.getNField(max_top=case["top"], min_top=0)
    r = np.random.RandomState(case["seed"] + 1)
    N = 400
    cnt = np.zeros((m, n))
    for t in range(N):
        C = f.kmeans_initialize_centers(m, case["init"], rng=r)
        for j, i in enumerate(dsq(C, P).argmin(axis=1)): cnt[j, i] += 1
    ctx.tag("init=%s" % (case["init"]), "m=%s" % (m))
    sig = np.sqrt(N * (1. / n) * (1 - 1. / n))
    if case["init"] == "random":
        z = (cnt.sum(axis=0) - N * m / n) / np.sqrt(N * m / n * (1 - m / n))
        if np.abs(z).max() > 6.5: fail("random centers are not uniform: object counts %s of %d draws of %d centers" % (cnt.sum(axis=0), N, m))
    else:
        z = (cnt[0] - N / n) / sig
        if np.abs(z).max() > 6.5: fail("the first centre of kmeans++ is not uniform: %s of %d" % (cnt[0], N))
        # every object is a possible centre
        if m > 1 and n <= 6 and (cnt.sum(axis=0) == 0).any(): fail("an object is never chosen by kmeans++: %s" % cnt.sum(axis=0))


SUBS = [Sub("run", strat_run, check_run, quick=2500), Sub("init", strat_init, check_init, quick=2000), Sub("catalog", strat_cat, check_cat, quick=1500), Sub("draw", strat_draw, check_draw, quick=40)]
