"""C18: catalogs, patches and patch centers written to disk read back to the same."""
import os
import numpy as np
from hypothesis import strategies as st
import catmodel as cm
import props.c17 as c17
from core import Sub, Skip, fail

RULE = ("Catalogs with drawn columns, units, weights (zero ones kept or not), flags, NaNs and patches, in memory or read lazily from a file, are written as text, FITS or HDF (by extension or file_type, drawn precision); "
        "the file is parsed independently, and read back with the reported names it must give the model's columns to the precision written; writing must leave the catalog as it was.  "
        "write_patches/read_patches/save_patch_dir (also low_mem) and patch centers likewise.  Non-trivial: optional columns, weights, or patches.")
ASSUMPTIONS = ["names given as ra_col/x_col... with the units of the catalog", "catalogs with both x,y,z and ra,dec are not written (only ra,dec are stored by design)", "patch numbers exactly representable at the precision written"]

SPEC = cm.spec.filter(lambda s: s["coords"] not in ("both", "bothr"))


def tols(e, o, prec):
    """Absolute tolerance per column for values written with prec digits after the first."""
    t = {}
    eps = 0.51 * 10. ** -prec if prec is not None else 0.
    for c, v in e.items():
        if c in cm.ALLCOLS: t[c] = eps * np.abs(v) + 1e-15 * np.abs(v)
    if "ra" in e:
        r = e.get("r", 1.)
        a = r * (t["ra"] + t["dec"]) + (t["r"] if "r" in e else 0.) + 8e-15 * np.abs(r)
        for c in "xyz": t[c] = a * np.ones(len(e["x"]))
    return t


def same(cat, e, t, what, patch=True):
    for c in cm.ALLCOLS:
        got, want = getattr(cat, c), e.get(c)
        if want is None:
            if got is not None: fail("%s: %s is set, expected None" % (what, c))
            continue
        if got is None: fail("%s: %s is None" % (what, c))
        if got.shape != want.shape: fail("%s: %s has %s rows, expected %d" % (what, c, got.shape, len(want)))
        bad = ~(np.abs(got - want) <= t[c])
        if bad.any(): fail("%s: %s is %r, expected %r (rows %s)" % (what, c, got[bad][:3].tolist(), want[bad][:3].tolist(), np.where(bad)[0][:3]))
    if cat.ntot != len(e["w"]): fail("%s: ntot" % what)
    if cat.nobj != int((e["w"] != 0).sum()): fail("%s: nobj %s" % (what, cat.nobj))
    co = "3d" if ("r" in e or ("z" in e and "ra" not in e)) else ("spherical" if "ra" in e else "flat")
    if cat.coords != co: fail("%s: coords=%s" % (what, cat.coords))
    if patch:
        want = e.get("patch")
        if (want is None) != (cat.patch is None): fail("%s: patch is %s, expected %s" % (what, cat.patch, want))
        if want is not None and not np.array_equal(cat.patch, want): fail("%s: patch is %s, expected %s" % (what, cat.patch, want))


def parse(fn, fmt, col):
    """Independent reading of what was written."""
    if fmt == "FITS":
        import fitsio
        with fitsio.FITS(fn) as f: return np.atleast_1d(f[1].read()[col])
    if fmt == "HDF":
        import h5py
        with h5py.File(fn, "r") as f: return f[col][:]
    with open(fn) as f: lines = f.read().splitlines()
    names = lines[0][1:].split()
    if not lines[0].startswith("#"): fail("no header in text file")
    return np.array([float(l.split()[names.index(col)]) for l in lines[1:]])


def prepare(case, ctx):
    """The catalog in memory or from a file; returns catalog, expectation, raw columns, options, centers."""
    import treecorr
    s = case["s"]
    d = cm.raw(s)
    n = s["n"]
    opt = cm.options(s, d)
    r = np.random.RandomState(s["seed"] + 1)
    if not cm.rows(n, opt): raise Skip("no rows")
    mode, NP = case["patch"], case["np"]
    patch = None
    kw = {}
    if mode == "array":
        patch = r.randint(0, NP, n)
        if case["pick"] % 3: kw["npatch"] = NP + case["pick"] % 2
    mod = {c: np.asarray(d[c], dtype=int if c == "flag" else float) for c in d}
    cen = None
    if mode in ("centers", "kmeans"):
        posc = cm.POS[s["coords"]]
        if np.isnan(np.column_stack([mod[c] for c in posc])).any(): raise Skip("NaN position")
    if mode == "centers":
        cen = kw["patch_centers"] = c17.centers_for(case, s, d, r)
        full = cm.expect({c: mod[c] for c in mod if c in posc}, {q: opt[q] for q in opt if q.endswith("_units")})
        patch = c17.near(np.column_stack([full[c] for c in "xyz"[:cen.shape[1]]]), cen)
    if mode == "int": kw.update(patch=case["pick"], npatch=NP + case["pick"])
    e = cm.expect(mod, opt, patch)
    if e is None: raise Skip("no weight")
    if mode == "kmeans":
        npz = e["nobj"]
        if npz < 1: raise Skip("no objects")
        kw.update(npatch=min(NP, npz), rng=np.random.RandomState(case["pick"]))
    cfg = {}
    if case["cfgprec"] is not None: cfg["cat_precision"] = case["cfgprec"]
    if case["src"] == "mem":
        args = dict(mod)
        if mode == "array": args["patch"] = patch
        cat = treecorr.Catalog(config=cfg, verbose=0, **args, **opt, **kw)
        fn = None
    else:
        file_d = dict(d)
        if mode == "array": file_d["patch"] = patch
        lay = dict(case["lay"], patch="col", spread=False, same=False)
        fn, co, tol = c17.layout(lay, file_d, ctx, "src" + ["", ".with.dots"][case["pick"] % 2])
        with c17.noPandas(treecorr, True):
            cat = treecorr.Catalog(fn, cfg, verbose=0, **opt, **co, **kw)
            if mode == "kmeans" or case["src"] == "loaded": cat.load()
        if lay["fmt"] in ("ASCII", "CSV"):
            with c17.noPandas(treecorr, True): cat.load()
            for c in e:     # (pandas does not parse to the last digit)
                if c in cm.ALLCOLS:
                    g = getattr(cat, c)
                    if g is None or np.abs(g - e[c]).max(initial=0) > 1e-10 * (1 + np.abs(e[c]).max(initial=0)): fail("source: %s" % c)
                    e[c] = np.array(g)
            if case["src"] == "file": cat.unload()
    if mode == "kmeans": e["patch"] = np.array(cat.patch) if cat.patch is not None else None
    if e.get("patch") is None: e.pop("patch", None)
    if e.get("patch") is not None and case["src"] == "mem" and cat.npatch == 1 and mode == "kmeans": pass
    return cat, e, mod, opt, cen


def suffix(case):
    i = case["fmt"]
    return [(".dat", "ASCII", None), (".fits", "FITS", None), (".hdf5", "HDF", None), (".out", "ASCII", "ASCII"), (".bin", "FITS", "FITS"), (".x", "HDF", "HDF"), (".fit", "FITS", None), (".txt", "ASCII", None), (".hdf", "HDF", None)][i % 9]


def check(case, ctx):
    import treecorr, coord
    cat, e, mod, opt, cen = prepare(case, ctx)
    s = case["s"]
    suf, fmt, ft = suffix(case)
    fn = os.path.join(ctx.tmp(), *(["sub", "dir"] if case["pick"] % 4 == 0 else []), "written" + suf)
    keep = opt.get("keep_zero_weight", False)
    units = {c: cm.UNITS[opt.get(c + "_units", "rad")] for c in ("ra", "dec") if c in e}
    if "ra" not in e: units.update({c: cm.UNITS[opt.get(c + "_units", "rad")] for c in "xy"})
    names = {c: opt.get(c + "_units", "rad") for c in units}
    if case["reunit"]:
        a, b = (coord.degrees, coord.hours) if case["reunit"] == 1 else (coord.arcmin, coord.radians)
        u = {c: v for c, v in zip(units, (a, b))}
        cat.load()
        for c in u: setattr(cat, c + "_units", u[c])
        units = {c: u[c] / coord.radians for c in u}
        names = {c: {coord.degrees: "deg", coord.hours: "hours", coord.arcmin: "arcmin", coord.radians: "rad"}[u[c]] for c in u}
    prec = case["prec"] if case["prec"] is not None else case["cfgprec"] if case["cfgprec"] is not None else 16
    if fmt != "ASCII": prec = None
    with c17.noPandas(treecorr, True):
        cols = cat.write(fn, **({"file_type": ft} if ft else {}), **({"precision": case["prec"]} if case["prec"] is not None else {}))
    want = [c for c in (["ra", "dec", "r"] if "ra" in e else ["x", "y", "z"]) if c in e] + (["w"] if e["nontrivial"] else []) + [c for c in ["wpos"] + cm.FCOLS if c in e] + (["patch"] if "patch" in e else [])
    weightless = "w" in mod or "flag" in mod
    if sorted(cols) != sorted(want) and not (sorted(cols + ["w"]) == sorted(want) and (e["w"] == 1).all()): fail("columns written %s, expected %s" % (cols, want))
    t = tols(e, opt, prec)
    # what is in the file
    for c in cols:
        v = parse(fn, fmt, c)
        w = e[c] / units.get(c, 1.)
        if v.shape != w.shape: fail("file: %s has %s rows" % (c, v.shape))
        bad = ~(np.abs(v - w) <= ((0.51 * 10. ** -prec if prec is not None else 0.) + 1e-15) * np.abs(w))
        if bad.any(): fail("file: %s is %r, expected %r" % (c, v[bad][:3].tolist(), w[bad][:3].tolist()))
    # the catalog is as before
    same(cat, e, {c: 1e-300 + (0 if c in ("w", "wpos", "r") + tuple(cm.FCOLS) else 9e-15 * (1 + np.abs(e[c]).max(initial=0) + np.abs(e.get("r", np.ones(1))).max(initial=0))) for c in e if c in cm.ALLCOLS}, "after writing", patch=case["patch"] != "int")
    # read back
    kw = {c + "_col": c for c in cols}
    for c in units: kw[c + "_units"] = names[c]
    if keep: kw["keep_zero_weight"] = True
    if ft: kw["file_type"] = ft
    if "patch" in e and case["pick"] % 2: kw["npatch"] = cat.npatch
    with c17.noPandas(treecorr, case["pandas"]):
        back = treecorr.Catalog(fn, kw if case["reunit"] == 2 else None, verbose=0, **({} if case["reunit"] == 2 else kw))
        if fmt == "ASCII":
            for c in t: t[c] = t[c] * 1.01 + 2e-12 * np.abs(e[c]) + (2e-12 * np.abs(e.get("r", 1.)) if c in "xyz" else 0)
        if prec is not None and "patch" in e and max(e["patch"]) >= 10 ** prec: raise Skip("patch number does not fit")
        same(back, e, t, "read back", patch=case["patch"] != "int")
    if case["patch"] != "int" and "patch" in e:
        np_want = cat.npatch if case["pick"] % 2 else max(e["patch"]) + 1
        if back.npatch != np_want: fail("npatch %s, expected %s" % (back.npatch, np_want))
    # written again: the same file
    if fmt != "ASCII" or prec >= 16:
        with c17.noPandas(treecorr, True): cols2 = back.write(os.path.join(ctx.tmp(), "again" + suf), **({"file_type": ft} if ft else {}))
        if cols2 != cols: fail("second time columns %s, expected %s" % (cols2, cols))
        for c in cols:
            v, w = parse(fn, fmt, c), parse(os.path.join(ctx.tmp(), "again" + suf), fmt, c)
            if not (np.abs(v - w) <= 1e-11 * np.abs(v)).all(): fail("second time: %s is %s, was %s" % (c, w, v))
    ctx.tag(fmt, s["coords"], "src=" + case["src"], "patch=" + case["patch"], "prec=%s" % prec, "keep" if keep and (e["w"] == 0).any() else "")
    if len(cols) == 2: ctx.trivial("positions only")


def part(e, i):
    k = e["patch"] == i
    p = {c: e[c][k] for c in e if c in cm.ALLCOLS}
    return p


def compare_patches(ps, e, t, what, low=None):
    want = sorted(set(e["patch"]))
    got = []
    for q in ps:
        i = q._single_patch
        if i not in want:
            if q.ntot: fail("%s: patch %s has %d objects" % (what, i, q.ntot))
            continue
        if low is not None and q.loaded == low and low: fail("%s: patch %s is loaded" % (what, i))
        same(q, part(e, i), {c: (t[c] if np.ndim(t[c]) == 0 else t[c][e["patch"] == i]) for c in t}, "%s: patch %s" % (what, i), patch=False)
        got.append(i)
    if sorted(got) != want: fail("%s: patches %s, expected %s" % (what, sorted(got), want))


def check_patches(case, ctx):
    import treecorr
    if case["patch"] in ("none", "int"): case = dict(case, patch="array")
    cat, e, mod, opt, cen = prepare(case, ctx)
    if "patch" not in e or cat.npatch == 1: raise Skip("one patch")
    for i in set(e["patch"]):
        if e["w"][e["patch"] == i].sum() == 0: raise Skip("patch without weight")
    t = tols(e, opt, None)
    how = case["how"]
    dir_ = os.path.join(ctx.tmp(), "patches")
    os.makedirs(dir_)
    empty = len(set(e["patch"])) < cat.npatch
    low = case["low"]
    if case["src"] != "mem" and low and case["patch"] != "array" and empty: raise Skip("known: lazily read patches may turn out empty")
    state = cat.loaded
    ra_units = None
    with c17.noPandas(treecorr, True):
        if how == 0:        # explicitly
            if case["first"]: cat.get_patches(low_mem=low)
            cat.write_patches(dir_)
            if empty:
                compare_patches(cat.patches, e, t, "patches")
            else:
                if case["forget"]: cat.unload() if cat.file_name is not None else cat._patches.clear()
                cat.read_patches(dir_)
                compare_patches(cat._patches, e, t, "read_patches", low=True)
        else:
            cat.save_patch_dir = dir_
            if how == 2:    # (as config)
                cat.config["save_patch_dir"] = dir_
            ps = cat.get_patches(low_mem=low)
            compare_patches(ps, e, t, "saved", low=low)
            # another catalog using the same files
            if not empty:
                cat2 = cat.copy()
                cat2._patches = None
                if case["forget"] and cat2.file_name is not None and cen is not None: cat2.unload()
                compare_patches(cat2.get_patches(low_mem=low), e, t, "re-used files", low=True)
        # each file holds its patch
        base = "patch" if cat.file_name is None else os.path.splitext(os.path.basename(cat.file_name))[0] + "_"
        ext = ".fits" if cat.file_name is None or os.path.splitext(cat.file_name)[1] not in (".hdf5", ".fits") else os.path.splitext(cat.file_name)[1]
        want = sorted(base + "%03d" % i + ext for i in set(e["patch"]))
        have = sorted(os.listdir(dir_))
        if have != want: fail("files %s, expected %s" % (have, want))
        for i in set(e["patch"]):
            v = parse(os.path.join(dir_, base + "%03d" % i + ext), "FITS" if ext == ".fits" else "HDF", "ra" if "ra" in e else "x")
            w = e["ra" if "ra" in e else "x"][e["patch"] == i]
            if not (v.shape == w.shape and (np.abs(v - w) <= 2e-15 * np.abs(w)).all()): fail("file of patch %d holds %s, expected %s" % (i, v, w))
        # units of the catalog itself are untouched
        fn = os.path.join(ctx.tmp(), "after.fits")
        cat.write(fn)
        for c in (("ra", "dec") if "ra" in e else ("x", "y")):
            w = e[c] / cm.UNITS[opt.get(c + "_units", "rad")]
            v = parse(fn, "FITS", c)
            if not (v.shape == w.shape and (np.abs(v - w) <= 1e-13 * np.abs(w)).all()): fail("after write_patches, write gives %s=%s, expected %s" % (c, v, w))
    ctx.tag(case["s"]["coords"], "src=" + case["src"], "patch=" + case["patch"], "how=%d" % how, "low" if low else "", "empty" if empty else "", "keep" if opt.get("keep_zero_weight") and (e["w"] == 0).any() else "")


def check_single(case, ctx):
    """Catalogs which are one patch: write_patches and read_patches."""
    import treecorr
    if case["patch"] not in ("none", "int"): case = dict(case, patch="none")
    cat, e, mod, opt, cen = prepare(case, ctx)
    dir_ = os.path.join(ctx.tmp(), "patches")
    os.makedirs(dir_)
    t = tols(e, opt, None)
    fn = os.path.join(ctx.tmp(), "after.fits")
    with c17.noPandas(treecorr, True):
        cat.write_patches(dir_)
        cat.write(fn)
        for c in (("ra", "dec") if "ra" in e else ("x", "y")):
            w = e[c] / cm.UNITS[opt.get(c + "_units", "rad")]
            v = parse(fn, "FITS", c)
            if not (v.shape == w.shape and (np.abs(v - w) <= 1e-13 * np.abs(w)).all()): fail("after write_patches, write gives %s=%s, expected %s" % (c, v, w))
        if case["patch"] == "none":
            cat.read_patches(dir_)
            if len(cat._patches) != 1: fail("%d patches" % len(cat._patches))
            same(cat._patches[0], e, t, "read_patches", patch=False)
        else:
            f = os.listdir(dir_)
            if len(f) != 1 or ("%03d" % case["pick"]) not in f[0]: fail("files %s, patch is %d" % (f, case["pick"]))
    same(cat, e, {c: 9e-15 * (1 + np.abs(e[c]).max(initial=0) + np.abs(e.get("r", np.ones(1))).max(initial=0)) for c in e if c in cm.ALLCOLS}, "catalog", patch=False)
    ctx.tag("patch=" + case["patch"], case["s"]["coords"], "src=" + case["src"])


def check_centers(case, ctx):
    import treecorr
    s = case["s"]
    if case["patch"] in ("none", "int"): case = dict(case, patch="centers")
    cat, e, mod, opt, cen = prepare(case, ctx)
    ext = [".dat", ".fits", ".hdf5", ".txt"][case["fmt"] % 4]
    fn = os.path.join(ctx.tmp(), "cen" + ext)
    empty = "patch" in e and len(set(e["patch"])) < cat.npatch
    P = np.column_stack([e[c] for c in ("xy" if cat.coords == "flat" else "xyz")])
    if case["patch"] == "array":
        if empty: raise Skip("empty patch has no center")
        pp = e.get("patch", np.zeros(len(P), int))
        cen = []
        for p in range(cat.npatch):
            w = e["w"][pp == p]
            if w.sum() == 0: raise Skip("patch without weight")
            cen.append((P[pp == p] * w[:, None]).sum(axis=0) / w.sum())
        cen = np.array(cen)
        if cat.coords == "spherical": cen /= np.sqrt((cen ** 2).sum(axis=1))[:, None]
    with c17.noPandas(treecorr, True):
        have = np.array(cat.patch_centers)
        if cen is not None and not np.allclose(have, cen, rtol=1e-12, atol=1e-12): fail("centers %s, expected %s" % (have, cen))
        cat.write_patch_centers(fn)
        if ext == ".fits":
            import fitsio
            a = fitsio.read(fn); v = np.column_stack([np.atleast_1d(a[c]) for c in "xyz"[:have.shape[1]]])
            if not np.array_equal(a["patch"], np.arange(len(have))): fail("patch column %s" % a["patch"])
            if not np.array_equal(v, have): fail("file holds %s, expected %s" % (v, have))
        got = cat.read_patch_centers(fn)
        if got.shape != have.shape or not (np.abs(got - have) <= 1e-16 * np.abs(have)).all(): fail("centers read %r, written %r" % (got, have))
        want = c17.near(P, have)
        if "patch" in e and case["patch"] != "array" and not np.array_equal(want, e["patch"]):
            if case["patch"] == "kmeans": raise Skip("k-means not converged to the nearest centers")
            fail("patches are not those of the nearest centers")
        args = {c: mod[c] for c in mod}
        if case["pick"] % 2: cat2 = treecorr.Catalog(config=dict(patch_centers=fn), verbose=0, **args, **opt)
        else: cat2 = treecorr.Catalog(patch_centers=fn, verbose=0, **args, **opt)
        cat3 = treecorr.Catalog(patch_centers=have, verbose=0, **args, **opt)
        for c, nm in ((cat2, "file"), (cat3, "array")):
            if len(have) == 1 and c.patch is None: continue
            if not np.array_equal(c.patch, want): fail("patches from the %s of centers %s, expected %s" % (nm, c.patch, want))
            if c.npatch != len(have): fail("npatch %d" % c.npatch)
        if not np.array_equal(cat2.patch_centers, cat3.patch_centers) and ext != ".x": 
            if not np.allclose(cat2.patch_centers, cat3.patch_centers, rtol=1e-15): fail("patch_centers differ")
    ctx.tag(ext, s["coords"], "patch=" + case["patch"], "np=%d" % len(have))


LAY = st.fixed_dictionaries(dict(
    fmt=st.sampled_from(["ASCII", "CSV", "FITS", "HDF", "PARQUET"]), evals=st.lists(st.tuples(st.integers(0, 30), st.integers(0, 5)).map(list), max_size=1), order=st.integers(0, 999),
    junk=st.integers(0, 2), header=st.booleans(), ncom=st.integers(0, 2), marker=st.sampled_from(["#", "!"]), byname=st.booleans(), intcol=st.booleans(), ext=st.integers(0, 4), fext=st.booleans()))
base = dict(s=SPEC, lay=LAY, src=st.sampled_from(["mem", "mem", "file", "loaded"]), patch=st.sampled_from(["none", "array", "array", "centers", "kmeans", "int"]), np=st.integers(1, 4), pick=st.integers(0, 11),
            cfgprec=st.sampled_from([None, None, 16, 6, 10]))
strat = st.fixed_dictionaries(dict(base, fmt=st.integers(0, 8), prec=st.sampled_from([None, None, 16, 17, 3, 8, 5]), reunit=st.sampled_from([0, 0, 1, 2]), pandas=st.booleans()))
pstrat = st.fixed_dictionaries(dict(base, np=st.integers(2, 4), patch=st.sampled_from(["array", "array", "array", "centers", "kmeans"]), s=SPEC.filter(lambda s: s["n"] > 4), how=st.integers(0, 2), low=st.booleans(), first=st.booleans(), forget=st.booleans()))
sstrat = st.fixed_dictionaries(base)
cstrat = st.fixed_dictionaries(dict(base, fmt=st.integers(0, 3)))
SUBS = [Sub("write", strat, check, quick=3000), Sub("patches", pstrat, check_patches, quick=1500), Sub("single", sstrat, check_single, quick=600), Sub("centers", cstrat, check_centers, quick=1000)]
