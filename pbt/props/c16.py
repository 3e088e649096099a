"""C16: catalogs hold exactly the cleaned input the user specified."""
import numpy as np
from hypothesis import strategies as st
import catmodel as cm, cmp, ref2
from core import Sub, Skip, fail

RULE = ("Raw columns with drawn coordinates, units, weights, position weights, flags, NaNs, fields, patches, row selection, flips and options, handed over in drawn forms (lists, integers, "
        "strided, read-only, 2-d, as config or keyword, as list-valued options with num) are compared row by row with an independent model of the documented cleaning; bad inputs must "
        "raise the documented error; correlations of the catalog equal those of the cleaned rows.  Non-trivial: some row is dropped, flagged, flipped, converted or the input was refused.")
ASSUMPTIONS = ["x_units, y_units apply to 2-d positions only", "patch numbers are non-negative"]

FORMS = ["array", "list", "tuple", "strided", "reversed", "readonly", "2d", "f4", "object"]
strat = st.fixed_dictionaries(dict(
    s=cm.spec, form=st.lists(st.sampled_from(FORMS), min_size=5, max_size=5), via=st.sampled_from(["kwargs", "config", "mixed", "listed"]), num=st.integers(0, 1),
    patch=st.sampled_from(["none", "none", "none", "array", "centers", "int", "int0", "intcen", "intcen"]), np=st.integers(1, 4), pick=st.integers(0, 3), proc=st.booleans()))


def as_form(a, form, r):
    a = np.array(a)
    if form == "list": return a.tolist()
    if form == "tuple": return tuple(a.tolist())
    if form == "strided":
        b = np.empty(2 * len(a), dtype=a.dtype); b[1::2] = a; b[::2] = 99
        return b[1::2]
    if form == "reversed": return a[::-1].copy()[::-1]
    if form == "readonly":
        a = a.copy(); a.flags.writeable = False
        return a
    if form == "2d": return a.reshape(1, -1) if len(a) % 2 else a.reshape(2, -1)
    if form == "object" and a.dtype == float: return a.astype(object)
    return a.copy()


def deepcopy_of(v):
    return np.array(v, copy=True) if isinstance(v, np.ndarray) else type(v)(v)


def check(case, ctx):
    import treecorr
    s = case["s"]
    d = cm.raw(s)
    n = s["n"]
    r = np.random.RandomState(s["seed"] + 1)
    for i, c in enumerate(sorted(d)):
        if case["form"][i % 5] == "f4" and c not in ("flag", "x", "y", "z", "ra", "dec", "r"): d[c] = d[c].astype(np.float32)
    o = cm.options(s, d)
    inp = {c: as_form(d[c], case["form"][i % 5], r) for i, c in enumerate(sorted(d))}
    dd = {c: np.asarray(d[c], dtype=int if c == "flag" else float) for c in d}
    # patches
    kw = {}
    patch = sel = None
    mode = case["patch"]
    NP = case["np"]
    single = None
    if mode in ("array", ):
        patch = r.randint(0, NP, n)
        kw["patch"] = as_form(patch, case["form"][0], r)
        if case["pick"] == 1: kw["npatch"] = NP + case["pick"]
        if case["pick"] == 2: kw["npatch"] = 1
    if mode in ("centers", "intcen"):
        k = 3 if s["coords"] != "flat" else 2
        cen = r.uniform(-1, 1, (NP, k)) * (15 if "x" in d or "r" in d else 1.)
        if s["coords"] in ("sphere", "rdr"): cen /= np.sqrt((cen ** 2).sum(axis=1))[:, None]
        if s["coords"] == "rdr": cen *= 10
        kw["patch_centers"] = cen
        # positions of all raw rows (NaN -> 0 happens only after the selection for single patches)
        full = cm.expect({c: np.where(np.isnan(dd[c]), 0., dd[c]) if c != "flag" else dd[c] for c in dd if c not in ("w", "wpos", "flag")}, {q: o[q] for q in o if q.endswith("_units") or q == "allow_xyz"})
        P = np.column_stack([full[c] for c in "xyz"[:k]])
        D = ((P[:, None, :] - cen[None]) ** 2).sum(axis=2)
        srt = np.sort(D, axis=1)
        amb = (srt[:, 1] - srt[:, 0] < 1e-9) if NP > 1 else np.zeros(n, bool)
        near = D.argmin(axis=1)
        nanpos = np.isnan(np.column_stack([dd[c] for c in cm.POS[s["coords"]]])).any(axis=1)
        if amb.any(): raise Skip("ambiguous centre")
        if mode == "centers": patch = near
        else:
            if nanpos.any(): raise Skip("patch of a NaN position")
            single = case["pick"] % NP
            kw["patch"] = single
            sel = lambda i: near[i] == single
            patch = None
    if mode in ("int", "int0"):
        single = kw["patch"] = 0 if mode == "int0" else case["pick"]
        kw["npatch"] = max(NP, single + 1)
        if mode == "int0" and case["proc"]: del kw["npatch"]
    e = cm.expect(dd, o, patch, sel)
    before = {c: deepcopy_of(inp[c]) for c in inp}
    kwb = {c: deepcopy_of(v) for c, v in kw.items() if isinstance(v, (np.ndarray, list, tuple))}
    # how options are passed
    via = case["via"]
    num = 0
    cfg = None
    arg = dict(o)
    if via == "listed":
        num = case["num"]
        lo = {}
        for q, v in o.items():
            if q in ("first_row", "last_row", "every_nth", "ignore_flag", "ok_flag", "ra_units", "dec_units", "x_units", "y_units") or q.startswith("flip_"):
                other = {"ra_units": "deg", "dec_units": "hours", "x_units": "arcsec", "y_units": "deg"}.get(q, False if q.startswith("flip_") else 5)
                lo[q] = [other, v] if num else [v, other]
            else: lo[q] = v
        arg = lo
    if via in ("config", "mixed"):
        cfg = dict(arg)
        cfg.update(bin_size=0.1, nonsense="ignored", file_name="not/used")
        arg = {}
        if via == "mixed":
            for q in sorted(o)[::2]: arg[q] = o[q]; cfg[q] = {"ra_units": "rad", "dec_units": "deg", "x_units": "rad", "y_units": "rad"}.get(q, 3 if q.endswith("row") or q.endswith("nth") else 0)
    cfgb = dict(cfg) if cfg is not None else None
    try:
        cat = treecorr.Catalog(config=cfg, num=num, logger=None if cfg is None else _logger(), verbose=0, **inp, **kw, **arg) if True else None
    except ValueError as ex:
        if e is None:
            ctx.tag("refused")
            return
        raise
    if e is None:
        # nothing left: only an empty single patch is accepted
        if single is not None and cat.ntot == 0: return ctx.tag("empty patch")
        fail("a catalog without any weight was accepted")
    ctx.tag(s["coords"], "via=" + via, "patch=" + mode)
    if len(e["w"]) == n and not o.get("flip_g1") and "ra" not in d and via == "kwargs": ctx.trivial("nothing to clean")
    # inputs unmodified
    for c in inp:
        if not _same(inp[c], before[c]): fail("input array %s was modified" % c)
    for c in kwb:
        if not _same(kw[c], kwb[c]): fail("input %s was modified" % c)
    if cfg is not None and cfg != cfgb: fail("config dict modified: %s, was %s" % (cfg, cfgb))
    if mode == "centers" and e is not None:
        # NaN positions become zero and are only kept with zero weight; their patch is that of the position kept
        k = cen.shape[1]
        P = np.column_stack([e[c] for c in "xyz"[:k]])
        D = ((P[:, None, :] - cen[None]) ** 2).sum(axis=2)
        if NP > 1 and (np.sort(D, axis=1)[:, 1] - np.sort(D, axis=1)[:, 0] < 1e-9).any(): raise Skip("ambiguous centre")
        e["patch"] = D.argmin(axis=1)
    if single is not None:
        if not (isinstance(cat.patch, (int, np.integer)) and cat.patch == single): fail("patch is %r, expected %r" % (cat.patch, single))
        if cat._single_patch != single: fail("single patch")
    cm.compare(cat, e, "catalog", patch=single is None)
    want_np = {"none": 1, "array": (max(int(patch[cm.rows(n, o)].max()) + 1, kw.get("npatch", 1)) if mode == "array" else 0), "centers": NP, "intcen": NP, "int": kw.get("npatch", 1), "int0": kw.get("npatch", 1)}[mode]
    if cat.npatch != want_np: fail("npatch is %s, expected %s" % (cat.npatch, want_np))
    if cat.name != ("" if single is None else "patch %d" % single): fail("name is %r" % cat.name)
    # the same computation as with the cleaned rows alone
    if case["proc"] and single is None and len(e["w"]) >= 2:
        use = e["w"] != 0
        if not use.any(): raise Skip("no live rows")
        kk = dict(ra_units="rad", dec_units="rad") if "ra" in e and "x" not in d else {}
        posc = ["ra", "dec", "r"] if kk else ["x", "y", "z"]
        q = {c: e[c][use] for c in posc + ["w", "wpos"] + cm.FCOLS if c in e}
        if not kk and "ra" in e: raise Skip("both kinds of positions")
        cl = treecorr.Catalog(verbose=0, **q, **kk)
        L = "N" if not s["fields"] else s["fields"][0].upper()
        cls = getattr(treecorr, L * 2 + "Correlation")
        m = 2. if cat.coords == "spherical" else 60.
        a = cls(min_sep=m * 0.02, max_sep=m, nbins=4, brute=True, verbose=0)
        b = a.copy()
        if keepish(e):
            # objects without weight still count as pairs, but nothing else
            names = ["weight"]
        else: names = ["npairs", "weight", "meanr"]
        names += [] if L == "N" else (["xi"] if L == "K" else ["xip", "xim"])
        a.process(cat if case["patch"] == "none" else _nopatch(treecorr, cat, q, kk, e, o), num_threads=1); b.process(cl, num_threads=1)
        for nm in names:
            x, y = getattr(a, nm), getattr(b, nm)
            cmp.close("process " + nm, x, y, 1e-9, max(np.abs(y).max(), 1e-3))


def keepish(e):
    return (e["w"] == 0).any()


def _nopatch(treecorr, cat, q, kk, e, o):
    c = cat.copy()
    c._patch = None; c._npatch = 1; c._centers = None; c._patches = None
    return c


def _same(a, b):
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and all((x == y) or (x != x and y != y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return len(a) == len(b) and all((x == y) or (x != x and y != y) for x, y in zip(a, b))


_L = []
def _logger():
    if not _L:
        import logging
        l = logging.getLogger("c16"); l.setLevel(logging.CRITICAL + 1); l.propagate = False
        l.addHandler(logging.NullHandler())
        _L.append(l)
    return _L[0]


# ------------------------------------------------------------------ refused inputs
ERRS = ["x only", "y only", "ra only", "dec only", "ra and x", "r and x", "no positions", "g1 only", "z2 only", "v1 only", "t2 only", "q1 only", "length", "flag length", "patch length", "empty",
        "empty rows", "first_row 0", "last<first", "nth 0", "no ra_units", "no dec_units", "ra_units with x", "x_units only", "y_units only", "bad unit", "npatch 0", "patch too large",
        "patch and centers", "npatch vs centers", "int without npatch", "zero weights", "all flagged", "all nan", "unknown", "file and arrays", "bad coords centers", "bad split", "bad flip",
        "num out of list", "int patch list"]
bad = st.fixed_dictionaries(dict(s=cm.spec, err=st.sampled_from(ERRS), k=st.integers(0, 50)))


def check_bad(case, ctx):
    import treecorr
    s = dict(case["s"])
    s["nan"] = []
    if s["n"] < 3: s["n"] = 3
    s.update(first=None, last=None, nth=None)
    err = case["err"]
    sky = err in ("ra only", "dec only", "no ra_units", "no dec_units", "r and x")
    flat = err in ("x only", "y only", "ra_units with x", "x_units only", "y_units only", "ra and x")
    if sky and "ra" not in cm.POS[s["coords"]]: s["coords"] = "rdr"
    if sky and s["coords"].startswith("both"): s["coords"] = "sphere"
    if flat: s["coords"] = "flat"
    if err.endswith(" only") and err[0] in "gzvtq": s["fields"] = sorted(set(s["fields"]) | {err[0]})
    d = cm.raw(s)
    if "w" in d: d["w"][:] = np.abs(d["w"]) + 1
    if "wpos" in d: d["wpos"][:] = np.abs(d["wpos"]) + 1
    d.pop("flag", None)
    o = cm.options(s, d)
    for q in list(o):
        if q.startswith("flip") or q.endswith("flag"): o.pop(q)
    k = case["k"]
    n = s["n"]
    kw = dict(o)
    E = (TypeError,)
    num = 0
    pair = {"g1 only": "g2", "z2 only": "z1", "v1 only": "v2", "t2 only": "t1", "q1 only": "q2"}
    if err == "x only": d.pop("y")
    elif err == "y only": d.pop("x")
    elif err == "ra only": d.pop("dec")
    elif err == "dec only": d.pop("ra")
    elif err == "ra and x": d["ra"] = d["x"] * 1; d["dec"] = d["x"] * 1; kw.update(ra_units="deg", dec_units="deg")
    elif err == "r and x": d.update(x=d["ra"] * 1, y=d["dec"] * 1, r=abs(d["ra"]) + 1); d.pop("ra"); d.pop("dec"); kw.pop("ra_units"); kw.pop("dec_units")
    elif err == "no positions":
        for c in cm.POS[s["coords"]]: d.pop(c)
        d["k"] = np.ones(3); [kw.pop(q, None) for q in ("ra_units", "dec_units", "x_units", "y_units", "allow_xyz")]
        E = (TypeError, ValueError)
    elif err in pair: d.pop(pair[err])
    elif err == "length":
        c = sorted(d)[k % len(d)]
        d[c] = d[c][:-1] if k % 2 or n == 1 else np.append(d[c], 1.)
        E = (ValueError,)
    elif err == "flag length": d["flag"] = np.zeros(n + (1 if k % 2 else -1), int); E = (ValueError,)
    elif err == "patch length": d["patch"] = np.zeros(n + (1 if k % 2 else -1), int); E = (ValueError,)
    elif err == "empty":
        for c in d: d[c] = d[c][:0]
        E = (ValueError,)
    elif err == "empty rows": kw["first_row"] = n + 1 + k; E = (ValueError,)
    elif err == "first_row 0": kw["first_row"] = -(k % 3); E = (ValueError,)
    elif err == "last<first": kw.update(first_row=3, last_row=1 + k % 2); E = (ValueError,)
    elif err == "nth 0": kw["every_nth"] = -(k % 3); E = (ValueError,)
    elif err == "no ra_units": kw.pop("ra_units"); E = (TypeError,)
    elif err == "no dec_units": kw.pop("dec_units"); E = (TypeError,)
    elif err == "ra_units with x": kw["ra_units" if k % 2 else "dec_units"] = "deg"
    elif err == "x_units only": kw.pop("y_units", None); kw["x_units"] = "deg"
    elif err == "y_units only": kw.pop("x_units", None); kw["y_units"] = "deg"
    elif err == "bad unit":
        q = [c for c in kw if c.endswith("_units")]
        if not q: raise Skip("no units")
        kw[q[k % len(q)]] = ["furlong", "parsec", "", "meters", "1.0"][k % 5]; E = (ValueError, TypeError)
    elif err == "npatch 0": kw["npatch"] = -(k % 3); E = (ValueError,)
    elif err == "patch too large": d["patch"] = np.arange(n); kw["npatch"] = max(2, n - 1 - k % 2); E = (ValueError,)
    elif err == "patch and centers": d["patch"] = np.arange(n); kw["patch_centers"] = np.ones((2, 3 if s["coords"] != "flat" else 2)); E = (ValueError,)
    elif err == "npatch vs centers": kw.update(npatch=3 if k % 2 else 1, patch_centers=np.ones((2, 3 if s["coords"] != "flat" else 2))); E = (ValueError,)
    elif err == "int without npatch": kw["patch"] = 1 + k % 4; E = (ValueError,)
    elif err == "zero weights": d["w"] = np.zeros(n); E = (ValueError,); kw["keep_zero_weight"] = bool(k % 2)
    elif err == "all flagged": d["flag"] = np.full(n, 3); kw["ok_flag"] = 4; E = (ValueError,)
    elif err == "all nan": c = sorted(d)[k % len(d)]; d[c] = np.full(n, np.nan); E = (ValueError,)
    elif err == "unknown": kw[["nthreads", "raunits", "X", "g3", "patches"][k % 5]] = 1
    elif err == "file and arrays": kw["file_name"] = "/nonexistent.dat"
    elif err == "bad coords centers": kw["patch_centers"] = np.ones((2, 2 if s["coords"] != "flat" else 3)); E = (ValueError,)
    elif err == "bad split": kw["split_method"] = "mode"; E = (ValueError,)
    elif err == "bad flip": kw["keep_zero_weight"] = "maybe"; E = (ValueError,)
    elif err == "num out of list": kw["every_nth"] = [1, 1]; num = 2; E = (IndexError,)
    elif err == "int patch list": kw["npatch"] = "two"; E = (ValueError,)
    ctx.tag(err)
    before = {c: d[c].copy() for c in d}
    try:
        c = treecorr.Catalog(num=num, verbose=0, **d, **kw)
    except E:
        pass
    else:
        fail("%s accepted: %d objects" % (err, c.ntot))
    for c in d:
        if not _same(d[c], before[c]): fail("input array %s was modified by a refused call" % c)


SUBS = [Sub("arrays", strat, check, quick=12000), Sub("refused", bad, check_bad, quick=5000)]
