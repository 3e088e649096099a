"""C17: reading a catalog file gives the same catalog as building it from the arrays."""
import os
import numpy as np
from hypothesis import strategies as st
import catmodel as cm
from core import Sub, Skip, fail

RULE = ("Raw columns (with NaNs, flags, weights, fields) are written by independent writers to text, FITS, HDF and Parquet files with drawn layout: column order and names, junk columns, "
        "extensions/groups, delimiter, comment marker, header; a Catalog with drawn ways to name the columns (number, name, expression, list-valued, config) and drawn row selection, flags, "
        "units, flips and patches must hold what the model of the documented cleaning gives; also after unloading and per patch when read lazily.  Non-trivial: read more than one column set or selection.")
ASSUMPTIONS = ["text values agree to 1e-12 (pandas does not parse to the last digit)", "comments only at the top of text files", "empty patches are not read alone"]

strat = st.fixed_dictionaries(dict(
    s=cm.spec, fmt=st.sampled_from(["ASCII", "ASCII", "CSV", "FITS", "FITS", "HDF", "HDF", "PARQUET"]), pandas=st.booleans(), header=st.booleans(), byname=st.booleans(), intcol=st.booleans(), marker=st.sampled_from(["#", "#", "%", "!"]),
    ncom=st.integers(0, 3), junk=st.integers(0, 3), order=st.integers(0, 999), ext=st.integers(0, 4), spread=st.booleans(), evals=st.lists(st.tuples(st.integers(0, 20), st.integers(0, 5)), max_size=3).map(lambda v: [list(x) for x in v]),
    via=st.sampled_from(["kwargs", "config", "listed"]), num=st.integers(0, 1), rand=st.sampled_from([False, False, False, True]), fext=st.booleans(),
    patch=st.sampled_from(["none", "none", "col", "col", "eval", "centers", "cenfile", "int", "int0"]), np=st.integers(1, 4), sel=st.sampled_from(["all", "all", "one", "low", "get"]), pick=st.integers(0, 3), reload=st.booleans(), f4=st.booleans(), same=st.just(False)))


def write_text(fn, cols, names, case, delim):
    mk = case["marker"]
    sep = "  " if delim is None else delim
    with open(fn, "w") as f:
        for i in range(case["ncom"] if case["header"] else max(0, case["ncom"])): f.write("%s a comment\n" % mk)
        if case["header"]: f.write(mk + " " + (" " if delim is None else delim).join(names) + "\n")
        for i in range(len(cols[0])):
            f.write(sep.join(("%d" % c[i]) if c.dtype.kind == "i" else repr(float(c[i])) for c in cols) + "\n")


def layout(case, d, ctx, fname="cat"):
    """Writes the columns; returns file name, options naming the columns, tolerance."""
    fmt = case["fmt"]
    r = np.random.RandomState(case["order"])
    names = {}
    for i, c in enumerate(sorted(d)):
        names[c] = (["X_%s", "col%s", "%sval", "%s"][case["order"] % 4] % c) if c != "patch" else "patchno"
    o = {}
    text = fmt in ("ASCII", "CSV")
    cols = dict(d)
    evals = {}
    extra = []
    for i, (ci, kind) in enumerate(case["evals"]):
        c = sorted(d)[ci % len(d)]
        if c in evals or c == "patch": continue
        nm = names[c]
        if c == "flag":
            evals[c] = "@*1"; extra.append(nm); continue
        if kind == 0: evals[c] = "@ * 2"; cols[c] = cols[c] / 2
        elif kind == 1: evals[c] = "-@"; cols[c] = -cols[c]
        elif kind == 2: evals[c] = "np.where(@ > 1e9, 0., @)"
        elif kind == 3: evals[c] = "data['@'] / 4."; cols[c] = cols[c] * 4
        elif kind == 4: evals[c] = "(@ + @) / 2"
        else: evals[c] = "math.pi * 0 + @"
        extra.append(nm)
    if "patch" in d and case["patch"] == "eval":
        evals["patch"] = "@ + 0"; extra.append(names["patch"])
    order = sorted(cols)
    r.shuffle(order)
    allc = [(names[c], np.asarray(cols[c])) for c in order]
    for j in range(case["junk"]): allc.insert(r.randint(0, len(allc) + 1), ("junk%d" % j, r.normal(size=len(allc[0][1]))))
    fn = os.path.join(ctx.tmp(), fname)
    suffix = dict(ASCII=".dat", CSV=".csv", FITS=".fits", HDF=".hdf5", PARQUET=".parquet")[fmt]
    if case["fext"]: suffix = ".xyz"; o["file_type"] = "ASCII" if text else {"HDF": "HDF", "FITS": "FITS", "PARQUET": "Parquet"}[fmt]
    fn += suffix
    ref = {}
    where = {}
    if text:
        delim = None if fmt == "ASCII" else [",", ";", "|"][case["order"] % 3]
        if delim: o["delimiter"] = delim
        if case["marker"] != "#": o["comment_marker"] = case["marker"]
        write_text(fn, [a for _, a in allc], [n for n, _ in allc], case, delim)
        pos = {n: i + 1 for i, (n, _) in enumerate(allc)}
        for c in d:
            if case["header"] and (case["byname"] or evals): ref[c] = names[c]
            else: ref[c] = pos[names[c]] if case["intcol"] else str(pos[names[c]])
        if not case["header"]:
            # no names to use in expressions: data['number']
            for c in list(evals):
                evals[c] = evals[c].replace("data['@']", "@").replace("@", "data['%s']" % pos[names[c]])
            extra = [str(pos[n]) for n in extra]
    elif fmt == "PARQUET":
        import pandas
        pandas.DataFrame({n: a for n, a in allc}).to_pickle(fn)     # (no parquet engine here: see noPandas)
        for c in d: ref[c] = names[c]
    else:
        # distribute over extensions
        groups = ["one", "two"] if case["spread"] and case["ext"] else ["one"]
        g = {n: groups[r.randint(len(groups))] for n, _ in allc}
        if case["same"] and len(groups) > 1:
            # the first two columns have the same name, in different extensions
            a, b = [c for c in d if c not in evals][-2:]
            g[names[a]] = "one"
            allc = [(n, q) for n, q in allc if n != names[b]] + [(names[a] + "@", np.asarray(cols[b]))]
            g[names[a] + "@"] = "two"
            names[b] = names[a] + "@"
        n0 = allc[0][0]
        g[n0] = "one"
        main = "one"
        if fmt == "FITS":
            import fitsio
            with fitsio.FITS(fn, "rw", clobber=True) as f:
                if case["ext"] in (2, 3):
                    f.write([np.arange(5.)], names=["other"], extname="zero")
                for k in groups:
                    cc = [(n, a) for n, a in allc if g[n] == k]
                    if cc: f.write([a for _, a in cc], names=[n.strip("@") for n, _ in cc], extname=k)
            num = {"one": 2 if case["ext"] in (2, 3) else 1, "two": 3 if case["ext"] in (2, 3) else 2}
            label = (lambda k: k) if case["ext"] in (1, 3) else (lambda k: num[k] if case["intcol"] else str(num[k]))
            if case["ext"]: o["ext"] = label("one")
        else:
            import h5py
            with h5py.File(fn, "w") as f:
                for k in groups:
                    grp = f if (k == "one" and case["ext"] == 0) else f.require_group(("deep/" if case["ext"] > 2 else "") + k)
                    for n, a in allc:
                        if g[n] == k: grp.create_dataset(n.strip("@"), data=a)
            label = lambda k: ("/" if case["ext"] == 0 and k == "one" else ("deep/" if case["ext"] > 2 else "") + k)
            if case["ext"]: o["ext"] = label("one")
        for c in d:
            ref[c] = names[c].strip("@")
            if g[names[c]] != "one" and c not in evals: where[c] = label(g[names[c]])
        # expressions: the columns they use may be in any extension that is read at all
        used = set(["one"] if True else []) | set(g[names[c]] for c in where)
        for c in evals:
            if g[names[c]] not in used: raise Skip("expression column in an extension that is not read")
    for c in d:
        if c in evals: o[c + "_eval"] = evals[c].replace("@", names[c])
        else: o[c + "_col"] = ref[c]
        if c in where: o[c + "_ext"] = where[c]
    if extra: o["extra_cols"] = sorted(set(extra))
    return fn, o, (1e-12 if text else 1e-15)


def noPandas(treecorr, use):
    """Context manager: without pandas the text reader falls back to numpy."""
    import contextlib
    mod = treecorr.catalog
    import pandas
    pandas.read_parquet = pandas.read_pickle        # stand-in for the missing parquet engine
    @contextlib.contextmanager
    def cmgr():
        if use: yield; return
        old = mod.PandasReader
        def no(*a, **k): raise ImportError("no pandas")
        mod.PandasReader = no
        mod.Catalog._emitted_pandas_warning = True
        try: yield
        finally: mod.PandasReader = old
    return cmgr()


def centers_for(case, s, d, r):
    NP = case["np"]
    k = 3 if s["coords"] != "flat" else 2
    cen = r.uniform(-1, 1, (NP, k)) * (15 if "x" in d or "r" in d else 1.)
    if s["coords"] in ("sphere", "rdr"): cen /= np.sqrt((cen ** 2).sum(axis=1))[:, None]
    if s["coords"] == "rdr": cen *= 10
    return cen


def near(P, cen):
    D = ((P[:, None, :] - cen[None]) ** 2).sum(axis=2)
    if len(cen) > 1:
        q = np.sort(D, axis=1)
        if (q[:, 1] - q[:, 0] < 1e-8).any(): raise Skip("ambiguous centre")
    return D.argmin(axis=1)


def check(case, ctx):
    import treecorr
    s = case["s"]
    d = cm.raw(s)
    n = s["n"]
    if case["fmt"] in ("ASCII", "CSV") and n == 1 and False: raise Skip("single row")
    r = np.random.RandomState(s["seed"] + 1)
    if case["f4"] and case["fmt"] not in ("ASCII", "CSV"):
        for c in d:
            if c in cm.FCOLS or c in ("w", "wpos"): d[c] = d[c].astype(np.float32)
    opt = cm.options(s, d)
    rws = cm.rows(n, opt)
    if not rws: raise Skip("no rows")
    mode, NP = case["patch"], case["np"]
    fields = [c for c in d if c in cm.FCOLS]
    patch = None
    kw = {}
    cen = None
    file_d = dict(d)
    if mode in ("col", "eval"):
        patch = r.randint(0, NP, n)
        file_d["patch"] = patch
    mod = {c: np.asarray(d[c], dtype=int if c == "flag" else float) for c in d}
    if case["rand"]:
        for c in fields: mod.pop(c)
    fn, co, tol = layout(case, file_d, ctx)
    if mode in ("centers", "cenfile"):
        cen = centers_for(case, s, d, r)
        posc = cm.POS[s["coords"]]
        full = cm.expect({c: np.where(np.isnan(mod[c]), 0., mod[c]) for c in mod if c in posc}, {q: opt[q] for q in opt if q.endswith("_units") or q == "allow_xyz"})
        P = np.column_stack([full[c] for c in "xyz"[:cen.shape[1]]])
        near_all = near(P, cen)
        nanpos = np.isnan(np.column_stack([mod[c] for c in posc])).any(axis=1)
        if nanpos.any() and case["sel"] != "all": raise Skip("patch of a NaN position")
        if mode == "cenfile":
            pf = os.path.join(ctx.tmp(), "cen" + [".dat", ".fits", ".hdf5"][case["pick"] % 3])
            t = treecorr.Catalog(x=[1.], y=[1.], **({"z": [1.]} if cen.shape[1] == 3 else {}), patch_centers=cen, verbose=0)
            t.write_patch_centers(pf)
            co["patch_centers"] = pf
        else: kw["patch_centers"] = cen
        if not nanpos.any(): patch = near_all
    single = None
    if mode in ("int", "int0"):
        single = kw["patch"] = 0 if mode == "int0" else case["pick"]
        if mode == "int": kw["npatch"] = max(NP, single + 1)
    o = dict(opt)
    o.update(co)
    via = case["via"]
    cfg = None
    num = 0
    args = dict(o)
    if via == "listed":
        num = case["num"]
        lo = {}
        for q, v in o.items():
            if q in treecorr.Catalog._valid_params and treecorr.Catalog._valid_params[q][1]:
                other = {"ra_units": "deg", "dec_units": "hours", "x_units": "arcsec", "y_units": "deg", "file_type": "FITS"}.get(q, False if q.startswith("flip_") else 5 if q in ("first_row", "last_row", "every_nth", "ignore_flag", "ok_flag") else "0")
                if q.endswith("_eval"): other = None
                if q.endswith("_ext") or q == "ext": other = None
                lo[q] = [other, v] if num else [v, other]
            else: lo[q] = v
        args = lo
    if via in ("config", "listed") and (via == "config" or case["order"] % 2):
        cfg = dict(args); args = {}
        cfg.update(min_sep=1., corr="nonsense")
    e = cm.expect(mod, opt, patch)
    sel = case["sel"]
    if single is not None: sel = "all"
    if mode == "none" and sel != "all": sel = "all"
    members = None
    if sel in ("one", "low", "get"):
        if patch is None: raise Skip("no patches")
        members = sorted(set(np.array(patch)[rws]))
    ctx.tag(case["fmt"] + ("" if case["pandas"] else "-nopandas"), s["coords"], "patch=" + mode, "sel=" + sel, "via=" + via, "rand" if case["rand"] else "", "eval" if "extra_cols" in o else "", "spread" if case["spread"] else "")
    base = dict(verbose=0, num=num, is_rand=case["rand"])
    with noPandas(treecorr, case["pandas"]):
        if sel == "one":
            p = members[case["pick"] % len(members)]
            ep = cm.expect(mod, opt, None, lambda i: patch[i] == p)
            if ep is None: raise Skip("patch without weight")
            cat = treecorr.Catalog(fn, cfg, patch=int(p), **kw, **args, **base)
            if cat.loaded: fail("loaded too early")
            cm.compare(cat, ep, "patch %d alone" % p, tol, patch=False)
            if cat.patch != p: fail("patch is %r, expected %r" % (cat.patch, p))
            if case["reload"]:
                cat.unload()
                cm.compare(cat, ep, "patch %d alone, reloaded" % p, tol, patch=False)
            return
        cat = treecorr.Catalog(fn, cfg, **kw, **args, **base)
        if cat.loaded: fail("loaded too early")
        if e is None:
            try: cat.load()
            except ValueError: return ctx.tag("refused")
            fail("a catalog without any weight was accepted")
        if mode in ("centers", "cenfile"):
            P = np.column_stack([e[c] for c in "xyz"[:cen.shape[1]]])
            e["patch"] = near(P, cen)
        if sel in ("all", "get") or case["reload"]:
            cm.compare(cat, e, "catalog", tol, patch=single is None)
            if single is not None and cat.patch != single: fail("patch is %r, expected %r" % (cat.patch, single))
            if cat.name != fn + ("" if single is None else " patch %d" % single): fail("name is %r" % cat.name)
        if case["reload"]:
            cat.unload()
            if cat.loaded: fail("still loaded")
            cm.compare(cat, e, "reloaded", tol, patch=single is None)
            if sel == "low": cat.unload()
        if sel in ("low", "get"):
            if any((e["patch"][e["w"] != 0] == p).sum() == 0 for p in set(e["patch"])): raise Skip("patch without weight")
            ps = cat.get_patches(low_mem=sel == "low")
            got = []
            want = sorted(set(e["patch"]))
            ids = [p._single_patch if p._single_patch is not None else None for p in ps]
            if len(ps) == 1 and ids == [None]:
                if cat.npatch != 1: fail("only one patch object of %d" % cat.npatch)
            else:
                for q in ps:
                    i = q._single_patch
                    if i not in want:
                        if sel == "low" and cen is not None: continue     # lazily read patches may turn out empty
                        fail("patch %s has no objects" % i)
                    if sel == "low" and q.loaded: fail("patch %s is loaded although low_mem" % i)
                    ep = cm.expect(mod, opt, None, lambda j: patch[j] == i)
                    ep["nontrivial"] = ep["nontrivial"]
                    cm.compare(q, ep, "patch %d (%s)" % (i, sel), tol, patch=False)
                    got.append(i)
                if sorted(got) != want: fail("patches %s, expected %s" % (sorted(got), want))
                if case["reload"] and sel == "low":
                    q = ps[-1]
                    if q._single_patch in want:
                        q.unload()
                        cm.compare(q, cm.expect(mod, opt, None, lambda j: patch[j] == q._single_patch), "patch reloaded", tol, patch=False)


# ------------------------------------------------------------------ lists of files
lst = st.fixed_dictionaries(dict(base=strat, seeds=st.lists(st.integers(0, 999), min_size=1, max_size=3), how=st.sampled_from(["one", "list", "string", "listfile"]), key2=st.booleans(), isrand=st.sampled_from([None, True, False])))


def check_list(case, ctx):
    import treecorr
    b = dict(case["base"], evals=[], spread=False, patch="none" if case["base"]["patch"] not in ("col",) else "col")
    s0 = b["s"]
    exps, fns = [], []
    tol = None
    rk = case["key2"]
    key, lkey = ("rand_file_name", "rand_file_list") if rk else ("file_name", "file_list")
    israndeff = rk if case["isrand"] is None else case["isrand"]
    o = None
    seeds = case["seeds"] if case["how"] != "one" else case["seeds"][:1]
    for i, sd in enumerate(seeds):
        s = dict(s0, seed=sd, nan=s0["nan"])
        d = cm.raw(s)
        opt = cm.options(s, d)
        if not cm.rows(s["n"], opt): raise Skip("no rows")
        fd = dict(d)
        pat = None
        if b["patch"] == "col":
            pat = np.random.RandomState(sd).randint(0, b["np"], s["n"])
            pat[cm.rows(s["n"], opt)[0]] = b["np"] - 1
            fd["patch"] = pat
        fn, co, tol = layout(b, fd, ctx, "cat%d" % i)
        mod = {c: np.asarray(d[c], dtype=int if c == "flag" else float) for c in d}
        if israndeff:
            for c in list(mod):
                if c in cm.FCOLS: mod.pop(c)
        e = cm.expect(mod, opt, pat)
        if e is None: raise Skip("no weight")
        if pat is not None and b["np"] > 1:
            for p in sorted(set(e["patch"])):
                ep = cm.expect(mod, opt, None, lambda j: pat[j] == p)
                if ep is None: raise Skip("patch without weight")
                exps.append(ep)
        else: exps.append(e)
        fns.append(fn)
        o = dict(opt, **co)
    cfg = dict(o, verbose=0)
    if case["how"] in ("one", "string"): cfg[key] = " ".join(fns)
    elif case["how"] == "list": cfg[key] = fns
    else:
        lf = os.path.join(ctx.tmp(), "list.txt")
        with open(lf, "w") as f: f.write("\n".join(fns) + ("\n" if b["order"] % 2 else ""))
        cfg[lkey] = lf
    ctx.tag(case["how"], "rand" if israndeff else "", "patches" if b["patch"] == "col" and b["np"] > 1 else "", "files=%d" % len(fns))
    with noPandas(treecorr, True): cats = treecorr.read_catalogs(cfg, key, lkey, is_rand=case["isrand"])
    if len(cats) != len(exps): fail("%d catalogs, expected %d" % (len(cats), len(exps)))
    for c, e in zip(cats, exps):
        cm.compare(c, e, "catalog of the list", tol, patch="patch" in e)
    if treecorr.read_catalogs(cfg, "file_name2", "file_list2") != []: fail("missing key must give an empty list")


# ------------------------------------------------------------------ unusable files and options
ERR = ["missing file", "bad x_col", "bad ra_col", "bad w_col", "bad flag_col", "bad patch_col", "bad k_col", "bad g2_col", "x no y", "ra no dec", "no positions", "x and ra", "z and ra", "r and x", "bad ext", "g1 no g2",
       "z2 no z1", "bad type", "no units", "arrays too", "both keys", "no keys", "k required", "g required"]
bad = st.fixed_dictionaries(dict(base=strat, err=st.sampled_from(ERR)))


def check_bad(case, ctx):
    import treecorr
    err = case["err"]
    b = dict(case["base"], evals=[], spread=False, patch="none", fext=False)
    s = dict(b["s"], nan=[], first=None, last=None, nth=None, w="pos", wpos="none", flag="01", flagopt="ignore0", fields=["g", "k", "z"], flips=[])
    s["coords"] = "sphere" if err in ("bad ra_col", "ra no dec", "z and ra", "no units") else "flat"
    if err == "r and x" : s["coords"] = "flat"
    d = cm.raw(s)
    if err == "bad patch_col": d["patch"] = np.zeros(s["n"], int)
    if err in ("z and ra", "r and x"): d["z" if err[0] == "z" else "r"] = np.ones(s["n"])
    if err == "x and ra": d["ra"] = d["x"]; d["dec"] = d["y"]
    fn, co, tol = layout(b, d, ctx)
    co.update(cm.options(s, d))
    co.pop("allow_xyz", None)
    E = (ValueError,)
    no = "99" if b["fmt"] in ("ASCII", "CSV") else "nothere"
    call = lambda: treecorr.Catalog(fn, verbose=0, **co).load()
    if err == "missing file": fn2 = fn + "not"; os.rename(fn, fn2); E = (OSError,)
    elif err.startswith("bad ") and err.endswith("_col"): co[err[4:]] = no
    elif err == "x no y": co.pop("y_col"); co.pop("x_units", None); co.pop("y_units", None)
    elif err == "ra no dec": co.pop("dec_col")
    elif err == "no positions": co.pop("x_col"); co.pop("y_col"); co.pop("x_units", None); co.pop("y_units", None)
    elif err == "bad ext": co["ext"] = "nope"
    elif err == "g1 no g2": co.pop("g2_col")
    elif err == "z2 no z1": co.pop("z1_col")
    elif err == "bad type": co["file_type"] = "JPEG"; E = (ValueError,)
    elif err == "no units": co.pop("ra_units"); E = (TypeError,)
    elif err == "arrays too": co["w"] = np.ones(s["n"]); E = (TypeError,)
    elif err == "both keys":
        E = (TypeError,)
        call = lambda: treecorr.read_catalogs(dict(co, file_name=fn, file_list=fn, verbose=0), "file_name", "file_list")
    elif err == "no keys":
        E = (TypeError,)
        call = lambda: treecorr.read_catalogs(dict(co, file_name=fn, verbose=0))
    elif err in ("k required", "g required"):
        for c in ("k_col", "g1_col", "g2_col", "z1_col", "z2_col"): co.pop(c)
        key = {"k": "nk_file_name", "g": "gg_file_name"}[err[0]]
        call = lambda: treecorr.Catalog(fn, dict(co, **{key: "out"}), num=1 if err[0] == "k" else 0, verbose=0)
    ctx.tag(err, b["fmt"])
    with noPandas(treecorr, b["pandas"]):
        try: call()
        except E: return
        fail("%s: accepted" % err)


SUBS = [Sub("file", strat, check, quick=3000), Sub("lists", lst, check_list, quick=400), Sub("refused", bad, check_bad, quick=500)]
