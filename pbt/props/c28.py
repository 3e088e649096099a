"""C28: runs described by a configuration write what the equivalent library calls give."""
import contextlib
import io
import json
import os
import runpy
import sys
import numpy as np
from hypothesis import strategies as st
from core import Sub, Skip, fail

RULE = ("parse: parameter lines, values, units, booleans, dictionaries of drawn parameters against an independent model of the documented syntax; configuration files in "
        "the three formats read back.  corr2, corr3: drawn data and random catalogs are written to files by independent writers (1 or 2 files each, given as list, string or list file), "
        "with per-catalog column layouts and options given as scalars or lists, values in native or string spellings, delivered as dictionary, YAML, JSON or parameter file to the function or "
        "the command line program with overrides; each requested output must equal what a library call on the catalogs built with plain arguments writes.  reject: one invalid change to a "
        "valid configuration must raise the documented kind of error before anything is written.  Non-trivial: at least one output written and compared (or one value parsed).")
ASSUMPTIONS = ["values in parameter files contain neither spaces nor '#'", "a single thread, so that sums agree to rounding"]

X = "kzvgtq"
TWO = ["nn", "nk", "kk"] + [a + b for b in "zvgtq" for a in "nk"] + [b + b for b in "zvgtq"] + ["m2", "nm", "norm"]
CLS = {c: c.upper() + "Correlation" for c in TWO[:-3]}
FIELDCOLS = {"k": ["k"], "z": ["z1", "z2"], "v": ["v1", "v2"], "g": ["g1", "g2"], "t": ["t1", "t2"], "q": ["q1", "q2"]}
UNITS = {"deg": np.pi / 180, "arcmin": np.pi / 10800, "arcsec": np.pi / 648000, "hours": np.pi / 12, "rad": 1.}
LONG = {"deg": ["deg", "degree", "degrees"], "arcmin": ["arcmin", "arcminutes"], "arcsec": ["arcsec", "arcseconds"], "hours": ["hour", "hours"], "rad": ["rad", "radian", "radians"]}

slot = st.fixed_dictionaries(dict(n=st.integers(3, 12), seed=st.integers(0, 9999), nf=st.sampled_from([1, 1, 1, 2])))
per = st.fixed_dictionaries(dict(fmt=st.sampled_from(["dat", "dat", "fits", "hdf5"]), order=st.integers(0, 999), units=st.sampled_from(sorted(UNITS)), delim=st.sampled_from(["", "", ",", ";", "|"]),
                                 first=st.sampled_from([None, None, 1, 2]), last=st.sampled_from([None, None, 9, 6]), nth=st.sampled_from([None, None, 1, 2]),
                                 w=st.booleans(), wpos=st.sampled_from([False, False, True]), flag=st.sampled_from(["", "", "ignore", "ok", "plain"]), flips=st.sets(st.sampled_from(["g1", "g2", "v1", "t2", "q2", "z1"]), max_size=2).map(sorted),
                                 var=st.sampled_from([None, None, 0.25, 1e-3, 7]), ev=st.sampled_from([False, False, True]), ext=st.booleans()))
deliver = st.fixed_dictionaries(dict(how=st.sampled_from(["dict", "dict", "yaml", "json", "params", "cli-yaml", "cli-json", "cli-params", "cli-params"]), spell=st.integers(0, 9999), list2=st.integers(0, 2),
                                     over=st.integers(0, 4), names=st.sampled_from(["list", "string", "file"]), keepext=st.booleans()))
corr = st.fixed_dictionaries(dict(bt=st.sampled_from(["Log", "Log", "Linear", "TwoD"]), nbins=st.integers(1, 6), fmin=st.sampled_from([0.01, 0.1, 0.3]), fmax=st.sampled_from([0.7, 1.5]), drop=st.integers(0, 3),
                                  sep=st.sampled_from([None, "deg", "arcmin", "rad"]), slop=st.sampled_from([None, 0, 0.5, 1]), aslop=st.sampled_from([None, None, 0, 0.3]), brute=st.sampled_from([None, None, True, False, 1, 2]),
                                  split=st.sampled_from([None, "mean", "median", "middle"]), prec=st.sampled_from([None, 2, 9]), var=st.sampled_from([None, None, "shot", "jackknife", "sample"]), top=st.sampled_from([None, 0, 3]),
                                  metric=st.sampled_from([None, None, "Euclidean", "Arc", "Rperp", "Periodic"]), rpar=st.sampled_from([None, None, 1.]), uform=st.sampled_from([None, "Crittenden", "Schneider"])))
run2 = st.fixed_dictionaries(dict(coords=st.sampled_from(["flat", "flatu", "sphere", "rdr"]), d1=slot, d2=st.one_of(st.none(), slot, slot), r1=st.one_of(st.none(), slot), r2=st.one_of(st.none(), slot), p0=per, p1=per, same=st.booleans(),
                                  valid=st.sampled_from([True, True, True, False]), patch=st.sampled_from([0, 0, 2, 3]), lack=st.sampled_from([False, False, True]), outs=st.sets(st.sampled_from(TWO), min_size=1, max_size=4).map(sorted),
                                  stat=st.sampled_from([None, None, "simple", "compensated"]), ofmt=st.sampled_from(["out", "fits", "hdf5"]), c=corr, dl=deliver))
run3 = st.fixed_dictionaries(dict(coords=st.sampled_from(["flat", "flatu", "sphere"]), d1=slot, r1=st.one_of(st.none(), slot), p0=per, outs=st.sets(st.sampled_from(["nnn", "kkk", "ggg", "m3"]), min_size=1, max_size=3).map(sorted),
                                  patch=st.sampled_from([0, 0, 2]), stat=st.sampled_from([None, "simple", "compensated"]), ofmt=st.sampled_from(["out", "fits", "hdf5"]), bt=st.sampled_from(["LogRUV", "LogSAS", "LogSAS", "LogMultipole"]), c=corr, dl=deliver))

SPELL_BOOL = {True: [True, "True", "yes", "T", "y", "1", 1, "true"], False: [False, "false", "No", "f", "n", "0", 0, "None"]}


def spell(v, key, r, strings):
    """A way to write the value; strings: only text is possible (parameter files)."""
    if isinstance(v, bool):
        c = SPELL_BOOL[v]
        if key == "brute" and v: c = [q for q in c if q not in ("1",) and not (isinstance(q, int) and not isinstance(q, bool))]
        if strings: c = [q for q in c if isinstance(q, str)]
        return c[r.randint(len(c))]
    if isinstance(v, str):
        if key.endswith("units") and v in LONG: return LONG[v][r.randint(len(LONG[v]))]
        if key in ("bin_type", "metric", "split_method", "var_method") or key.endswith("statistic"): return v
        return v
    s = repr(v) if isinstance(v, float) else "%d" % v
    if strings: return s
    c = [v, v, s]
    if isinstance(v, int) and not key.endswith("_col"): c.append(v)
    return c[r.randint(len(c))]


def table(s, coords, npatch, salt):
    r = np.random.RandomState(s["seed"] + salt)
    n = s["n"]
    d = {}
    if coords in ("flat", "flatu"):
        d["x"], d["y"] = r.uniform(0, 1, n), r.uniform(0, 1, n)
    else:
        d["ra"], d["dec"] = r.uniform(0.2, 0.8, n), r.uniform(-0.5, 0.1, n)
        if coords == "rdr": d["r"] = r.uniform(2, 4, n)
    d["w"] = r.randint(1, 9, n) / 4.
    d["wpos"] = r.randint(1, 9, n) / 4.
    d["flag"] = r.choice([0, 0, 0, 1, 2, 4], n)
    d["patch"] = np.arange(n) % max(npatch, 1)
    for f in X:
        for c in FIELDCOLS[f]: d[c] = r.randint(-40, 41, n) / 32.
    return d


def plan(p, coords, num, npatch, needed, lack):
    """Plain (scalar) Catalog options for one catalog number and the layout of its files."""
    r = np.random.RandomState(p["order"])
    cols = (["x", "y"] if coords[0] == "f" else ["ra", "dec"] + (["r"] if coords == "rdr" else [])) + ["w", "wpos", "flag", "patch"] + [c for f in X for c in FIELDCOLS[f]]
    have = [c for c in cols if not (lack and c in sum(FIELDCOLS.values(), []) and not any(c in FIELDCOLS[f] for f in needed))]
    have = have + ["junk"]
    r.shuffle(have)
    missing = [c for c in cols if c not in have]
    name = {c: "%s_%s" % ("abcd"[p["order"] % 4], c) for c in cols + ["junk"]}
    text = p["fmt"] == "dat"
    ref = {c: (have.index(c) + 1 if c in have else 90 + i) if text else name[c] for i, c in enumerate(cols)}
    o = {}
    for c in ("x", "y", "ra", "dec", "r"):
        if c in cols: o[c + "_col"] = ref[c]
    for f in X:
        for c in FIELDCOLS[f]: o[c + "_col"] = ref[c]
    if p["w"]: o["w_col"] = ref["w"]
    if p["wpos"]: o["wpos_col"] = ref["wpos"]
    if p["flag"]:
        o["flag_col"] = ref["flag"]
        if p["flag"] == "ignore": o["ignore_flag"] = 3
        if p["flag"] == "ok": o["ok_flag"] = 6
    if npatch: o["patch_col"] = ref["patch"]
    if coords != "flat":
        for c in ("ra", "dec", "x", "y"):
            if c in cols: o[c + "_units"] = p["units"]
    if text and p["delim"]: o["delimiter"] = p["delim"]
    if not npatch:
        for k, q in (("first_row", "first"), ("last_row", "last"), ("every_nth", "nth")):
            if p[q] is not None: o[k] = p[q]
    for c in p["flips"]: o["flip_" + c] = True
    if p["var"] is not None:
        for f in X: o["var" + f] = float(p["var"])
    if not text and p["ext"]: o["ext"] = "stuff"
    if p["ev"] and not lack:
        o["k_eval"] = ("data['%s']*2" if text else "%s*2") % ref["k"]
        o["extra_cols"] = [str(ref["k"])] + ([name["w"]] if p["order"] % 3 == 0 and not text else [])
        del o["k_col"]
    return o, have, name, missing


def write_cat(fn, d, p, have, name):
    d = dict(d, junk=np.arange(len(d["w"])) * 0.5)
    if p["fmt"] == "dat":
        sep = p["delim"] or " "
        with open(fn, "w") as f:
            f.write("# a comment line\n")
            for i in range(len(d["w"])): f.write(sep.join(("%d" % d[c][i]) if d[c].dtype.kind == "i" else repr(float(d[c][i])) for c in have) + "\n")
    elif p["fmt"] == "fits":
        import fitsio
        with fitsio.FITS(fn, "rw", clobber=True) as f:
            if p["ext"]: f.write([np.zeros(2)], names=["other"], extname="first")
            f.write([d[c] for c in have], names=[name[c] for c in have], extname="stuff")
    else:
        import h5py
        with h5py.File(fn, "w") as f:
            g = f.create_group("stuff") if p["ext"] else f
            for c in have: g.create_dataset(name[c], data=d[c])


def corr_opts(c, coords, bt, three=False, npatch=0):
    """Correlation parameters."""
    o = dict(bin_type=bt)
    su = c["sep"] if coords in ("flatu", "sphere") else None
    scale = 1. / UNITS[su] if su else 1.
    mx, mn = c["fmax"] * scale * (1 if coords != "rdr" else 3.), c["fmin"] * c["fmax"] * scale
    if su: o["sep_units"] = su
    if bt == "TwoD": o.update(nbins=c["nbins"], max_sep=mx)
    else:
        full = dict(min_sep=mn, max_sep=mx, nbins=c["nbins"], bin_size=float(np.log(mx / mn) if bt != "Linear" else mx - mn) / c["nbins"])
        del full[["min_sep", "max_sep", "nbins", "bin_size"][c["drop"]]]
        o.update(full)
    for k, q in (("bin_slop", "slop"), ("angle_slop", "aslop"), ("brute", "brute"), ("split_method", "split"), ("precision", "prec"), ("var_method", "var"), ("max_top", "top"), ("m2_uform", "uform")):
        if c[q] is not None: o[k] = c[q] if isinstance(c[q], (bool, str)) or k in ("brute", "precision", "max_top") else float(c[q])
    if three:
        o.pop("m2_uform", None)
        if o.get("brute") in (1, 2): o["brute"] = True
        if o.get("var_method") in ("jackknife", "sample") and not npatch: del o["var_method"]
    m = c["metric"]
    if m == "Periodic" and coords[0] == "f" and su is None:
        o.update(metric=m, period=3. + c["nbins"])
    elif m == "Arc" and coords == "sphere": o["metric"] = m
    elif m == "Rperp" and coords == "rdr" and not three and bt != "TwoD": o["metric"] = m
    elif m == "Euclidean": o["metric"] = m
    if c["rpar"] and coords == "rdr" and not three: o.update(min_rpar=-c["rpar"], max_rpar=c["rpar"] * 1.5)
    return o


def params_line(k, v, r):
    if isinstance(v, list):
        a, b = [("{", "}"), ("[", "]"), ("(", ")"), ("", "")][r.randint(4)]
        if any("," in x for x in v) and a: a = b = ""
        t = (a + [",", ", ", " , "][r.randint(3)].join(v) + b) if a else ["  ", " "][r.randint(2)].join(v)
    else: t = v
    return k + [" = ", "=", "  =   "][r.randint(3)] + t + ["", "", "  # a comment", "   "][r.randint(4)]


class Capture(io.StringIO):
    pass


def run(prog, cfg, dl, tmp, treecorr):
    """Delivers the configuration cfg (native values) and runs; r draws the spellings."""
    r = np.random.RandomState(dl["spell"])
    how = dl["how"]
    strings = how.endswith("params")
    def sp(k, v, s): return [None if q is None else spell(q, k, r, s) for q in v] if isinstance(v, list) else spell(v, k, r, s)
    keys = sorted(cfg)
    r.shuffle(keys)
    over = []
    if how.startswith("cli"):
        cand = [k for k in keys if not (isinstance(cfg[k], list) and (None in cfg[k] or len(cfg[k]) == 1)) and k != "extra_cols"]
        over = cand[:dl["over"]]
    out = {k: sp(k, cfg[k], strings) for k in keys}
    for k in over:
        # either absent from the file or with another value there
        if r.randint(2): del out[k]
        elif isinstance(cfg[k], list): pass
        elif isinstance(cfg[k], (int, float)) and not isinstance(cfg[k], bool): out[k] = "3"
    if how == "dict":
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(treecorr, prog)(out)
        return
    kind = how.split("-")[-1]
    ext = "." + kind if dl["keepext"] or not how.startswith("cli") else ".cfg"
    fn = os.path.join(tmp, "run" + ext)
    if kind == "yaml":
        import yaml
        with open(fn, "w") as f: f.write(yaml.safe_dump(out, default_flow_style=bool(r.randint(2))))
    elif kind == "json":
        with open(fn, "w") as f: json.dump(out, f)
    else:
        lines = [params_line(k, v, r) for k, v in out.items()]
        cut = r.randint(len(lines) + 1) if r.randint(3) == 0 else len(lines)
        with open(fn, "w") as f:
            f.write("# the run\n\n")
            for l in lines[:cut]: f.write(["", "  "][r.randint(2)] + l + "\n" + ["", "\n", "# more\n"][r.randint(3)])
            num = [k for k, v in list(out.items())[cut:] if isinstance(v, (int, float)) and not isinstance(v, bool)]
            if num and r.randint(2): f.write(num[r.randint(len(num))] + " = 3\n")    # (the included file comes later and replaces it)
            if cut < len(lines): f.write("+" + os.path.join(tmp, "more.params") + "\n")
        if cut < len(lines):
            with open(os.path.join(tmp, "more.params"), "w") as f: f.write("\n".join(lines[cut:]))
    with contextlib.redirect_stdout(io.StringIO()):
        if not how.startswith("cli"):
            getattr(treecorr, prog)(treecorr.config.read_config(fn))
            return
        args = [prog] + (["-f", kind] if ext == ".cfg" else []) + [["-v", "0"], ["--verbosity", "0"], []][r.randint(3)] + [fn]
        for k in over: args.append(params_line(k, sp(k, cfg[k], True), r))
        old = sys.argv
        try:
            sys.argv = args
            runpy.run_path(os.path.join(os.path.dirname(os.path.dirname(treecorr.__file__)), "scripts", prog), run_name="__main__")
        finally:
            sys.argv = old


def merge(o0, o1, dl, defaults, r):
    """One configuration value per parameter from the two plain option sets (o1 None: no second catalog)."""
    cfg = {}
    nullable = not dl["how"].endswith("params")
    for k in sorted(set(o0) | set(o1 or {})):
        if k == "extra_cols":
            cfg[k] = o0.get(k) or (o1 or {}).get(k)
            if o0.get(k) != (o1 or o0).get(k): raise Skip("extra columns of one catalog")
            continue
        a = o0.get(k, defaults.get(k))
        b = a if o1 is None else o1.get(k, defaults.get(k))
        if a == b and type(a) == type(b):
            if dl["list2"] == 0 or (dl["list2"] == 1 and r.randint(2)) or (a is None): cfg[k] = a
            else: cfg[k] = [a, b] if o1 is not None or r.randint(2) or not nullable else [a]
            if cfg[k] is None: del cfg[k]
        else:
            if (a is None or b is None) and not nullable: return None
            cfg[k] = [a, b]
    return cfg


DEFAULTS = dict(first_row=1, last_row=-1, every_nth=1, ok_flag=0, comment_marker="#", **{c + "_col": "0" for c in ["x", "y", "z", "ra", "dec", "r", "k", "w", "wpos", "flag", "patch"] + [f + i for f in "zvgtq" for i in "12"]},
                **{"flip_" + f + i: False for f in "zvgtq" for i in "12"})


def files(slot, base, d, p, have, name, tmp):
    """Splits the table over the files."""
    k = slot["nf"]
    fns = []
    n = len(d["w"])
    for i in range(k):
        fn = os.path.join(tmp, "%s%d.%s" % (base, i, p["fmt"]))
        idx = np.arange(n) if k == 1 else (np.arange(n // 2) if i == 0 else np.arange(n // 2, n))
        write_cat(fn, {c: np.asarray(d[c])[idx] for c in d}, p, have, name)
        fns.append(fn)
    return fns


def name_files(cfg, key, lkey, fns, how, tmp, r):
    if how == "file":
        lf = os.path.join(tmp, lkey + ".txt")
        with open(lf, "w") as f: f.write("\n".join(fns))
        cfg[lkey] = lf
    elif how == "string" or len(fns) == 1: cfg[key] = " ".join(fns) if r.randint(2) or len(fns) > 1 else fns
    else: cfg[key] = fns


def needed2(outs, num):
    out = set()
    for o in outs:
        if o == "m2": out.add("g")
        elif o in ("nm", "norm"): out |= {"g"} if num == 1 else set()
        else:
            c = o[num]
            if c != "n": out.add(c)
    return out


def table_of(fn):
    """Columns of a written file."""
    if fn.endswith("fits"):
        import fitsio
        out = {}
        with fitsio.FITS(fn) as f:
            for h in f[1:]:
                a = h.read()
                for c in a.dtype.names: out[h.get_extname() + "/" + c] = np.atleast_1d(a[c]).astype(float)
                hd = h.read_header()
                for q in hd.keys():
                    if isinstance(hd[q], (int, float)) and q not in ("NAXIS1", "BITPIX"): out["hdr/" + h.get_extname() + q] = np.array([float(hd[q])])
                    elif isinstance(hd[q], str) and q not in ("CHECKSUM", "DATASUM", "DATE"): out["hdr/" + h.get_extname() + q] = hd[q]
        return out
    if fn.endswith("hdf5"):
        import h5py
        out = {}
        with h5py.File(fn, "r") as f:
            def visit(n, o):
                if isinstance(o, h5py.Dataset): out[n] = np.atleast_1d(o[...]).astype(float)
                for q in o.attrs:
                    v = o.attrs[q]
                    try: out[n + "@" + q] = np.atleast_1d(np.asarray(v, dtype=float))
                    except Exception: out[n + "@" + q] = str(v)
            f.visititems(visit)
            for q in f.attrs: out["@" + q] = str(f.attrs[q])
        return out
    with open(fn) as f: lines = f.read().splitlines()
    head = [l for l in lines if l.startswith("#")]
    rows = [[float(v) for v in l.split()] for l in lines if l and not l.startswith("#")]
    out = {"text/%d/%d" % (i, j): np.array([v]) for i, row in enumerate(rows) for j, v in enumerate(row)}
    out["heads"] = "\n".join(head)
    return out


def same(got, want, what, prec):
    a, b = table_of(got), table_of(want)
    if sorted(a) != sorted(b): fail("%s: the file holds %s, a library call writes %s" % (what, sorted(set(a) - set(b))[:6], sorted(set(b) - set(a))[:6]))
    sc = max([1.] + [np.max(np.abs(v)) for v in b.values() if not isinstance(v, str) and v.size]) if not got.endswith("out") else 0
    for k in b:
        if isinstance(b[k], str):
            if a[k] != b[k] and k != "heads": fail("%s: %s is %s, expected %s" % (what, k, a[k], b[k]))
            if k == "heads" and len(a[k]) != len(b[k]): fail("%s: header %s, expected %s" % (what, a[k], b[k]))
            continue
        if a[k].shape != b[k].shape: fail("%s: %s has shape %s, expected %s" % (what, k, a[k].shape, b[k].shape))
        t = 1e-10 if not got.endswith("out") else 2.1 * 10. ** -prec
        bad = ~((np.abs(a[k] - b[k]) <= t * np.abs(b[k]) + 1e-13) | (np.isnan(a[k]) & np.isnan(b[k])) | (a[k] == b[k]))
        if bad.any(): fail("%s: %s is %s, a library call writes %s" % (what, k, a[k][bad][:4], b[k][bad][:4]))


def outcome(f):
    try:
        return f(), None
    except (ValueError, TypeError, RuntimeError, AttributeError, IndexError, KeyError, OSError, AssertionError) as e:
        return None, e


def setup2(case, ctx, tmp):
    """Files, plain options and configuration of a two-point run.  (case is adjusted)"""
    import treecorr
    r = np.random.RandomState(case["dl"]["spell"] + 5)
    coords = case["coords"]
    slots = {k: case[k] for k in ("d1", "d2", "r1", "r2")}
    p = [case["p0"], case["p0"] if case["same"] else case["p1"]]
    if p[0]["ev"]: p[1] = p[0]
    else: p[1] = dict(p[1], ev=False)
    npatch = case["patch"]
    if case["valid"]:
        # only combinations that make sense
        if case["d2"] is None:
            slots["r2"] = None
            case["outs"] = [o for o in case["outs"] if o in ("nn", "m2") or o[0] == o[1]] or ["gg"]
        elif slots["r1"] is not None and slots["r2"] is None: slots["r2"] = dict(slots["r1"], seed=slots["r1"]["seed"] + 1)
        if slots["r1"] is None:
            case["outs"] = [o for o in case["outs"] if o != "norm"] or ["kk"]
            if case["stat"] == "compensated": case["stat"] = None
        if case["c"]["var"] in ("jackknife", "sample") and not npatch: npatch = 3
        if npatch: slots = {k: s and dict(s, n=max(6, s["n"])) for k, s in slots.items()}
    plans = [plan(p[i], coords, i, npatch, needed2(case["outs"], i), case["lack"]) for i in (0, 1)]
    if npatch: slots = {k: (None if s is None else dict(s, nf=1)) for k, s in slots.items()}
    cfg = dict(verbose=0, num_threads=1)
    c = corr_opts(case["c"], coords, case["c"]["bt"] if coords[0] == "f" and case["c"]["metric"] in (None, "Euclidean", "Periodic") or case["c"]["bt"] != "TwoD" else "Log")
    if c["bin_type"] == "TwoD" and c.get("metric") == "Periodic": raise Skip("TwoD is Euclidean")
    cfg.update(c)
    o0, o1 = plans[0][0], (plans[1][0] if slots["d2"] else None)
    m = merge(o0, o1, case["dl"], DEFAULTS, r)
    if m is None: raise Skip("not expressible in a parameter file")
    for k in list(m):
        if m[k] == "0" and k.endswith("_col"): pass
    cfg.update(m)
    fns = {}
    for i, (k, key, lkey) in enumerate((("d1", "file_name", "file_list"), ("d2", "file_name2", "file_list2"), ("r1", "rand_file_name", "rand_file_list"), ("r2", "rand_file_name2", "rand_file_list2"))):
        if slots[k] is None: continue
        num = int(k[1]) - 1
        o, have, name, missing = plans[num]
        d = table(slots[k], coords, npatch, 31 * i)
        for q in ("x", "y", "ra", "dec"):
            if q in d and q + "_units" in o: d[q] = d[q] / UNITS[o[q + "_units"]]
        fl = sum(FIELDCOLS.values(), [])
        hv = [q for q in have if not (k[0] == "r" and case["lack"] and q in fl)]
        if k[0] == "r" and p[num]["fmt"] == "dat": hv = have
        fns[k] = files(slots[k], k, d, p[num], hv, name, tmp)
        name_files(cfg, key, lkey, fns[k], case["dl"]["names"], tmp, r)
    st_ = case["stat"]
    outs = {}
    for o in case["outs"]:
        fo = os.path.join(tmp, "got_%s.%s" % (o, case["ofmt"]))
        cfg[o + "_file_name"] = fo
        outs[o] = fo
        if st_ is not None and o[0] == "n" and o in TWO[:-3]: cfg[o + "_statistic"] = st_
        if st_ is not None and o in ("nm", "norm"): cfg["ng_statistic"] = st_
        if st_ is not None and o == "norm": cfg["nn_statistic"] = st_
    return treecorr, cfg, outs, fns, plans, c, slots


def library2(treecorr, outs, fns, plans, c, slots, stat, tmp, missing):
    """The equivalent library calls."""
    c = dict(c, verbose=0, num_threads=1)
    def cats(k):
        if k not in fns: return None
        num = int(k[1]) - 1
        o = dict(plans[num][0])
        skip = set(missing[num])
        if k[0] == "r": skip |= set(sum(FIELDCOLS.values(), [])); o.pop("k_eval", None)
        for q in skip: o.pop(q + "_col", None); o.pop("flip_" + q, None)
        res = []
        for fn in fns[k]: res += treecorr.Catalog(fn, is_rand=(k[0] == "r"), verbose=0, **o).get_patches()
        return res
    d1, d2, r1, r2 = [cats(k) for k in ("d1", "d2", "r1", "r2")]
    if d2 is None and r2 is not None: raise TypeError("rand2 without cat2")
    def corr(cls, a, b=None):
        x = getattr(treecorr, cls)(**c)
        x.process(a, b)
        return x
    res = {}
    for o in [q for q in TWO if q in outs]:
        fo = os.path.join(tmp, "want_" + os.path.basename(outs[o]))
        ng_comp = None
        if o == "nn":
            dd = corr("NNCorrelation", d1, d2)
            kw = {}
            comp = stat != "simple"
            if r1 is not None:
                if d2 is None:
                    kw["rr"] = corr("NNCorrelation", r1)
                    if comp: kw["dr"] = corr("NNCorrelation", d1, r1)
                else:
                    if r2 is None: raise TypeError("needs rand2")
                    kw["rr"] = corr("NNCorrelation", r1, r2)
                    if comp: kw.update(dr=corr("NNCorrelation", d1, r2), rd=corr("NNCorrelation", r1, d2))
            dd.write(fo, **kw)
        elif o in ("m2",):
            corr("GGCorrelation", d1, d2).writeMapSq(fo)
        elif o[0] == "n":
            if d2 is None: raise TypeError("needs file_name2")
            cls = CLS["ng" if o in ("nm", "norm") else o]
            x = corr(cls, d1, d2)
            if stat == "compensated" and r1 is None: raise TypeError("needs randoms")
            rx = corr(cls, r1, d2) if r1 is not None and stat != "simple" else None
            if o == "nm": x.writeNMap(fo, rg=rx)
            elif o == "norm":
                if r1 is None: raise TypeError("norm needs randoms")
                x.writeNorm(fo, gg=corr("GGCorrelation", d2), dd=corr("NNCorrelation", d1), rr=corr("NNCorrelation", r1), dr=corr("NNCorrelation", d1, r1) if stat != "simple" else None, rg=rx)
            else: x.write(fo, **{"r" + o[1]: rx})
        else:
            if d2 is None and o[0] != o[1]: raise TypeError("needs file_name2")
            corr(CLS[o], d1, d2).write(fo)
        res[o] = fo
    return res


def check2(case, ctx):
    tmp = ctx.tmp()
    case = dict(case)
    treecorr, cfg, outs, fns, plans, c, slots = setup2(case, ctx, tmp)
    import treecorr as tc
    missing = [plans[0][3], plans[1][3]]
    want, ew = outcome(lambda: library2(tc, outs, fns, plans, c, slots, case["stat"], tmp, missing))
    _, eg = outcome(lambda: run("corr2", cfg, case["dl"], tmp, tc))
    ctx.tag(case["dl"]["how"], case["coords"], *case["outs"])
    finish(ctx, case, want, ew, eg, outs, cfg)


def finish(ctx, case, want, ew, eg, outs, cfg):
    if ew is not None:
        if os.environ.get("C28ASSERT") and isinstance(ew, AssertionError): raise ew
        ctx.tag("refused:" + type(ew).__name__ + (" " + str(ew)[:60] if os.environ.get("C28WHY") else ""))
        ctx.trivial("refused")
        if eg is None: fail("the library refuses this (%r) but the run of %s succeeded" % (ew, sorted(outs)))
        if isinstance(eg, (AttributeError, KeyError, AssertionError)): fail("the run fails with %r, the library calls with %r" % (eg, ew))
        return
    if eg is not None: fail("the run failed with %r; config %s" % (eg, cfg)) if not os.environ.get("C28RAISE") else (_ for _ in ()).throw(eg)
    prec = case["c"]["prec"] if case["c"]["prec"] is not None else 4
    for o in outs:
        if not os.path.exists(outs[o]): fail("%s was not written" % o)
        same(outs[o], want[o], o, prec)
    ctx.tag("written:%d" % len(outs))


def setup3(case, ctx, tmp):
    r = np.random.RandomState(case["dl"]["spell"] + 5)
    coords, npatch = case["coords"], case["patch"]
    p = case["p0"]
    slots = {k: case[k] for k in ("d1", "r1")}
    if npatch: slots = {k: (None if s is None else dict(s, nf=1)) for k, s in slots.items()}
    pl = plan(p, coords, 0, npatch, set("kg"), False)
    cfg = dict(verbose=0, num_threads=1)
    bt = case["bt"]
    c = corr_opts(case["c"], coords, bt, True, npatch)
    r3 = np.random.RandomState(case["c"]["nbins"] + 7 * case["dl"]["spell"])
    c["nbins" if "nbins" in c else "bin_size"] = c.get("nbins", c.get("bin_size"))
    if bt == "LogRUV":
        c.update(nubins=int(r3.randint(1, 4)), nvbins=int(r3.randint(1, 4)))
        if r3.randint(2): c.update(min_u=0.1, max_u=0.9)
        if r3.randint(2): c.update(min_v=0.05, max_v=0.8)
    elif bt == "LogSAS":
        c["nphi_bins"] = int(r3.randint(1, 5))
        if r3.randint(2):
            u = ["deg", "rad", "arcmin"][r3.randint(3)]
            c.update(min_phi=0.3 / UNITS[u], max_phi=2.5 / UNITS[u], phi_units=u)
    else: c["max_n"] = int(r3.randint(1, 5))
    cfg.update(c)
    m = merge(pl[0], None, case["dl"], DEFAULTS, r)
    cfg.update(m)
    fns = {}
    for i, (k, key, lkey) in enumerate((("d1", "file_name", "file_list"), ("r1", "rand_file_name", "rand_file_list"))):
        if slots[k] is None: continue
        d = table(slots[k], coords, npatch, 31 * i)
        for q in ("x", "y", "ra", "dec"):
            if q in d and q + "_units" in pl[0]: d[q] = d[q] / UNITS[pl[0][q + "_units"]]
        fns[k] = files(slots[k], k, d, p, pl[1], pl[2], tmp)
        name_files(cfg, key, lkey, fns[k], case["dl"]["names"], tmp, r)
    outs = {}
    for o in case["outs"]:
        outs[o] = cfg[o + "_file_name"] = os.path.join(tmp, "got_%s.%s" % (o, case["ofmt"]))
        if case["stat"] and o == "nnn": cfg["nnn_statistic"] = case["stat"]
    return cfg, outs, fns, pl, c


def library3(treecorr, outs, fns, o, c, stat, tmp):
    c = dict(c, verbose=0, num_threads=1)
    def cats(k):
        if k not in fns: return None
        oo = dict(o)
        if k == "r1":
            for q in sum(FIELDCOLS.values(), []): oo.pop(q + "_col", None); oo.pop("flip_" + q, None)
            oo.pop("k_eval", None)
        res = []
        for fn in fns[k]: res += treecorr.Catalog(fn, is_rand=(k == "r1"), verbose=0, **oo).get_patches()
        return res
    d1, r1 = cats("d1"), cats("r1")
    def corr(cls, *a, **kw):
        x = getattr(treecorr, cls)(**c)
        x.process(*a, **kw)
        return x
    res = {}
    for q in outs:
        fo = res[q] = os.path.join(tmp, "want_" + os.path.basename(outs[q]))
        if q == "ggg": corr("GGGCorrelation", d1).write(fo)
        if q == "m3": corr("GGGCorrelation", d1).writeMap3(fo)
        if q == "kkk": corr("KKKCorrelation", d1).write(fo)
        if q == "nnn":
            ddd = corr("NNNCorrelation", d1)
            kw = {}
            if r1 is not None:
                kw["rrr"] = corr("NNNCorrelation", r1)
                if stat != "simple": kw.update(drr=corr("NNNCorrelation", d1, r1, ordered=False), rdd=corr("NNNCorrelation", r1, d1, ordered=False))
            ddd.write(fo, **kw)
    return res


def check3(case, ctx):
    import treecorr as tc
    tmp = ctx.tmp()
    cfg, outs, fns, pl, c = setup3(case, ctx, tmp)
    want, ew = outcome(lambda: library3(tc, outs, fns, pl[0], c, case["stat"], tmp))
    _, eg = outcome(lambda: run("corr3", cfg, case["dl"], tmp, tc))
    ctx.tag(case["dl"]["how"], case["bt"], *case["outs"])
    finish(ctx, case, want, ew, eg, outs, cfg)


MUT = ["unknown", "type", "choice", "both", "nofile", "rand2", "cross", "stat", "column", "bool", "unit", "eitherlist"]
rej = st.fixed_dictionaries(dict(run=run2, mut=st.sampled_from(MUT), pick=st.integers(0, 999)))


def check_reject(case, ctx):
    import treecorr as tc
    tmp = ctx.tmp()
    base = case["run"]
    mut, pick = case["mut"], case["pick"]
    base = dict(base, lack=False, valid=True)
    if mut in ("cross",): base = dict(base, d2=None, r2=None)
    treecorr, cfg, outs, fns, plans, c, slots = setup2(base, ctx, tmp)
    _, e0 = outcome(lambda: library2(tc, outs, fns, plans, c, slots, base["stat"], tmp, [[], []]))
    if e0 is not None and (mut not in ("cross", "stat") or not isinstance(e0, TypeError)): raise Skip("invalid anyway")
    kind = (TypeError,)
    if mut == "unknown": cfg[["nbin", "filename", "g3_col", "sepunits", "max_n", "nubins", "nnn_file_name", "xcol", "n_patch", "bad"][pick % 10]] = "1"
    elif mut == "type":
        k = ["min_sep", "max_sep", "nbins", "bin_size", "first_row", "bin_slop", "num_threads", "vark", "ignore_flag", "period", "precision"][pick % 11]
        cfg[k] = ["abc", "1.x", "--3", "1,5"][pick // 11 % 4]
        kind = (ValueError,)
    elif mut == "choice":
        k = ["bin_type", "metric", "split_method", "var_method", "m2_uform", "nn_statistic", "nk_statistic", "verbose", "file_type", "brute"][pick % 10]
        cfg[k] = "7" if k in ("verbose", "brute") else ["", "log", "Xyz", "compensate", "euclidean"][pick // 10 % 5] or "none"
        kind = (ValueError, KeyError) if k == "verbose" else (ValueError,)   # (the logger is set up first)
    elif mut == "bool":
        cfg[["flip_g1", "brute", "allow_xyz", "output_dots"][pick % 4]] = ["maybe", "ja", "tru", "1.5"][pick // 4 % 4]
        kind = (ValueError,)
    elif mut == "unit":
        cfg[["sep_units", "ra_units", "x_units"][pick % 3]] = ["furlong", "Deg", "min", "d"][pick // 3 % 4]
        kind = (ValueError,)
    elif mut == "both":
        k, l = [("file_name", "file_list"), ("rand_file_name", "rand_file_list"), ("file_name2", "file_list2")][pick % 3]
        cfg.setdefault(k, fns["d1"][0]); cfg.setdefault(l, os.path.join(tmp, "l.txt"))
        with open(os.path.join(tmp, "l.txt"), "w") as f: f.write(fns["d1"][0])
    elif mut == "nofile":
        cfg.pop("file_name", None); cfg.pop("file_list", None)
    elif mut == "rand2":
        if "file_name2" in cfg or "file_list2" in cfg: cfg.pop("file_name2", None); cfg.pop("file_list2", None)
        if "r2" not in fns: raise Skip("no second randoms")
    elif mut == "cross":
        o = ["nk", "ng", "nz", "nv", "nt", "nq", "kz", "kv", "kg", "kt", "kq", "nm", "norm"][pick % 13]
        cfg[o + "_file_name"] = os.path.join(tmp, "x.out")
    elif mut == "stat":
        o = ["nk", "ng", "nz", "nv", "nt", "nq"][pick % 6]
        if "r1" in fns or "d2" not in fns: raise Skip("has randoms")
        cfg[o + "_file_name"] = os.path.join(tmp, "x.out"); cfg[o + "_statistic"] = "compensated"
    elif mut == "column":
        # a column that the requested output needs is not named
        o = ["kk", "gg", "zz", "vv", "tt", "qq", "m2"][pick % 7] if "d2" not in fns else ["nk", "ng", "nz", "nv", "nt", "nq", "kz", "kv", "kg", "kt", "kq", "nm", "kk", "gg"][pick % 14]
        fields = [("g", "g")] if o == "m2" else [("n", "g")] if o == "nm" else [tuple(o)]
        need = [(i, f) for i, f in enumerate(fields[0]) if f != "n"]
        i, f = need[pick // 14 % len(need)]
        col = FIELDCOLS[f][pick // 50 % len(FIELDCOLS[f])]
        k = col + "_col"
        if k not in cfg: raise Skip("no column")
        cfg[o + "_file_name"] = os.path.join(tmp, "x.out")
        v = cfg[k] if isinstance(cfg[k], list) else [cfg[k], cfg[k]]
        if pick % 2: cfg[k] = [("0" if j == i or "d2" not in fns else q) for j, q in enumerate(v)]
        else:
            bad = "77" if plans[i][0][k].__class__ is int else "nosuch"
            cfg[k] = [(bad if j == i or "d2" not in fns else q) for j, q in enumerate(v)]
            if plans[i][0].get("flip_" + col): pass
        kind = (TypeError, ValueError)
    elif mut == "eitherlist":
        # a list too short for the second catalog
        if "d2" not in fns: raise Skip("one catalog")
        k = "file_type"
        cfg[k] = [{"dat": "ASCII", "fits": "FITS", "hdf5": "HDF"}[base["p0"]["fmt"]]]
        if base["dl"]["how"].endswith("params"): raise Skip("no one-element lists")
        kind = (IndexError, TypeError, ValueError)
    try:
        run("corr2", cfg, dict(base["dl"], over=0), tmp, tc)
    except kind as e:
        ctx.tag(mut, type(e).__name__)
    except Exception as e:
        fail("%s: %r instead of %s" % (mut, e, [q.__name__ for q in kind]))
    else:
        fail("%s: an invalid configuration was accepted: %s" % (mut, cfg))
    if mut in ("unknown", "type", "choice", "bool", "unit", "both", "nofile", "rand2"):
        for o in outs:
            if os.path.exists(outs[o]): fail("%s: %s was written before the error" % (mut, o))


# ---- values
word = st.text("abcXYZ019._-/", min_size=1, max_size=6)
pl_strat = st.fixed_dictionaries(dict(key=st.text("abc_019", min_size=1, max_size=8), vals=st.lists(word, min_size=1, max_size=4), br=st.integers(0, 3), sp=st.lists(st.integers(0, 3), min_size=8, max_size=8), com=st.sampled_from(["", "#", " # x = 3", "#=#"]),
                                      kinds=st.lists(st.tuples(st.integers(0, 10**6), st.integers(0, 7)), min_size=1, max_size=8).map(lambda v: [list(q) for q in v]), fmt=st.sampled_from(["yaml", "json", "params", "params"]), auto=st.booleans(), which=st.sampled_from(["corr2", "corr3", "Catalog", "Corr2"])))


def stdmodel(v, ty, valid):
    """The documented meaning of a scalar value; raises ValueError."""
    if ty is bool:
        if isinstance(v, str):
            u = v.strip().upper()
            if u in ("TRUE", "YES", "T", "Y"): x = True
            elif u in ("FALSE", "NO", "F", "N", "NONE"): x = False
            else: x = int(v)
        elif isinstance(v, (bool, int)): x = v
        else: raise ValueError
    elif v is None: return None
    elif ty is list: x = [v] if isinstance(v, str) else list(v)
    else: x = ty(v)
    if valid is not None:
        if ty is str:
            m = [q for q in valid if q == x] or [q for q in valid if isinstance(q, str) and x.startswith(q)]
            if len(m) != 1: raise ValueError
            return m[0]
        if x not in valid: raise ValueError
    return x


def check_parse(case, ctx):
    import treecorr, coord
    cf = treecorr.config
    tmp = ctx.tmp()
    S = [" " * q for q in case["sp"]]
    # one line
    br = ["", "{}", "[]", "()"][case["br"]]
    vals = case["vals"]
    key = case["key"]
    if br: txt = S[0] + key + S[1] + "=" + S[2] + br[0] + S[3] + (S[4] + "," + S[5]).join(vals) + S[6] + br[1] + S[7] + case["com"]
    else: txt = S[0] + key + S[1] + "=" + S[2] + (" " + S[3]).join(vals) + S[7] + case["com"]
    cfg = {"other": 1, key: "old"}
    cf.parse_variable(cfg, txt)
    want = {"other": 1, key: vals[0] if len(vals) == 1 else vals}
    if key == "other": want = {key: want[key]}
    if cfg != want: fail("%r parses to %s, expected %s" % (txt, cfg, want))
    # booleans and units
    for a, b in case["kinds"]:
        r = np.random.RandomState(a)
        v = [True, False, "yes", "No", "T", "none", " y ", "FALSE", "2", "0", 2, 0, 1, "x", "1.5", "tr", np.bool_(True), np.int64(3), 1.5][r.randint(19)]
        try: w = stdmodel(v if not isinstance(v, (np.bool_, np.integer)) else v.item(), bool, None)
        except ValueError: w = ValueError
        try: g = cf.parse_bool(v)
        except ValueError: g = ValueError
        if g is not w and (g != w or isinstance(g, (bool, np.bool_)) != isinstance(w, bool)): fail("parse_bool(%r) = %r, expected %r" % (v, g, w))
        u = sorted(UNITS)[r.randint(5)]
        lu = LONG[u][r.randint(len(LONG[u]))]
        if abs(cf.parse_unit(lu) / UNITS[u] - 1) > 1e-15: fail("parse_unit(%s) = %r" % (lu, cf.parse_unit(lu)))
    # a dictionary of parameters
    params = {"corr2": treecorr.exec_corr2.corr2_valid_params, "corr3": treecorr.exec_corr3.corr3_valid_params, "Catalog": treecorr.Catalog._valid_params, "Corr2": treecorr.Corr2._valid_params}[case["which"]]
    names = sorted(params)
    cfg, want, bad = {}, {}, None
    for a, b in case["kinds"]:
        r = np.random.RandomState(a)
        k = names[r.randint(len(names))]
        ty, lst, default, valid = params[k][:4]
        def one():
            if valid is not None and r.randint(12): q = valid[r.randint(len(valid))]; return (q + ["", "", "s"][r.randint(3)]) if isinstance(q, str) else [q, str(q)][r.randint(2)]
            return {str: lambda: ["abc", "3", 3, "deg"][r.randint(4)], int: lambda: [4, "5", -1, "0", "2.5", "z"][r.randint(6)], float: lambda: [4, "5", -1.5, "1e-3", 0.25, "q"][r.randint(6)],
                    bool: lambda: ["yes", "n", True, 0, "what", "1"][r.randint(6)], list: lambda: [["a", "b"], ("c",), "col"][r.randint(3)]}[ty]()
        v = [one() for _ in range(r.randint(1, 4))] if lst and r.randint(3) == 0 else None if r.randint(15) == 0 else one()
        if lst and isinstance(v, list) and r.randint(3) == 0: v.append(None)
        cfg[k] = v
    for k, v in cfg.items():
        ty, lst, default, valid = params[k][:4]
        try:
            if lst and isinstance(v, list):
                want[k] = [stdmodel(q, ty, None) if q is not None or ty is bool else None for q in v]
                want[k] = [stdmodel(q, ty, valid) if q is not None or ty is bool else None for q in v]
            else: want[k] = stdmodel(v, ty, valid)
        except ValueError: bad = bad or k
        except TypeError: bad = bad or k
    copy = json.dumps(cfg, default=str)
    if bad is None:
        got = cf.check_config(cfg, params)
        for k in params:
            if k not in want and params[k][2] is not None: want[k] = params[k][2]
        if set(got) != set(want): fail("check_config keys %s" % (set(got) ^ set(want)))
        for k in want:
            if got[k] != want[k] or type(got[k]) != type(want[k]): fail("check_config: %s=%r gives %r, expected %r" % (k, cfg.get(k), got[k], want[k]))
        try: cf.check_config(dict(cfg, **{key + "?": 1}), params)
        except TypeError: pass
        else: fail("unknown parameter accepted")
        ctx.tag("valid")
    else:
        try: got = cf.check_config(cfg, params)
        except ValueError: ctx.tag("invalid")
        else: fail("check_config accepts %s=%r" % (bad, cfg[bad]))
    if json.dumps(cfg, default=str) != copy: fail("check_config changed its argument")
    # files
    native = {k: v for k, v in cfg.items() if not isinstance(v, tuple)}
    native = json.loads(json.dumps(native))
    fmt = case["fmt"]
    fn = os.path.join(tmp, "c." + (fmt if case["auto"] else "txt"))
    if fmt == "json":
        with open(fn, "w") as f: json.dump(native, f)
    elif fmt == "yaml":
        import yaml
        with open(fn, "w") as f: yaml.safe_dump(native, f)
    else:
        r = np.random.RandomState(case["kinds"][0][0])
        native = {k: ([str(q) for q in v] if isinstance(v, list) else str(v)) for k, v in native.items() if not (isinstance(v, list) and (len(v) == 1 or None in v)) and v is not None}
        with open(fn, "w") as f:
            for k, v in native.items(): f.write(params_line(k, v, r) + "\n")
    got = cf.read_config(fn, "auto" if case["auto"] else fmt)
    if got != native: fail("%s file reads as %s, expected %s" % (fmt, got, native))
    if not case["auto"]:
        try: cf.read_config(fn)
        except ValueError: pass
        else: fail("type of %s determined" % fn)
    # keyword arguments take precedence, extra configuration is ignored, extra keywords are not
    if case["which"] == "Corr2" and bad is None:
        conf = dict({k: v for k, v in cfg.items()}, file_name="q", junk=3)
        kw = {k: cfg[k] for i, k in enumerate(sorted(cfg)) if case["kinds"][0][0] >> i & 1}
        conf.update({k: "wrong" for k in kw})
        m = cf.merge_config(conf, dict(kw), params)
        full = {k: v for k, v in want.items()}
        for k in full:
            if m.get(k) != full[k]: fail("merge_config: %s=%r, expected %r" % (k, m.get(k), full[k]))
        if "junk" in m or "file_name" in m: fail("merge_config keeps parameters of others")
        try: cf.merge_config(conf, dict(kw, junk=3), params)
        except TypeError: pass
        else: fail("merge_config accepts an unknown keyword")


SUBS = [Sub("parse", pl_strat, check_parse, quick=4000),
        Sub("corr2", run2, check2, quick=2400),
        Sub("corr3", run3, check3, quick=700),
        Sub("reject", rej, check_reject, quick=1500)]
