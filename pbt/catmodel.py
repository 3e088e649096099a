"""Independent model of what a Catalog must hold for given raw columns and options."""
import numpy as np
from hypothesis import strategies as st
from core import fail, Skip

PAIRS = ["z", "v", "g", "t", "q"]
FIELDS = ["k"] + PAIRS
FCOLS = ["k"] + [p + i for p in PAIRS for i in "12"]
UNITS = {"deg": np.pi / 180, "degrees": np.pi / 180, "degree": np.pi / 180, "arcmin": np.pi / 10800, "arcsec": np.pi / 648000, "hour": np.pi / 12, "hours": np.pi / 12,
         "rad": 1., "radians": 1., "arcminutes": np.pi / 10800}
POS = {"flat": ["x", "y"], "3dxyz": ["x", "y", "z"], "sphere": ["ra", "dec"], "rdr": ["ra", "dec", "r"], "both": ["x", "y", "z", "ra", "dec"], "bothr": ["x", "y", "z", "ra", "dec", "r"]}
ALLCOLS = ["x", "y", "z", "ra", "dec", "r", "w", "wpos"] + FCOLS

spec = st.fixed_dictionaries(dict(
    n=st.integers(0, 7).flatmap(lambda q: st.integers(1, 16) if q else st.integers(22, 60)), bulk=st.sampled_from([0, 0, 0, 1, 2]), seed=st.integers(0, 9999), coords=st.sampled_from(["flat", "flat", "sphere", "sphere", "rdr", "3dxyz", "both", "bothr"]),
    fields=st.sets(st.sampled_from(FIELDS), max_size=3).map(sorted), w=st.sampled_from(["none", "pos", "zeros", "int"]), wpos=st.sampled_from(["none", "none", "pos", "zeros"]),
    flag=st.sampled_from(["none", "none", "bits", "01"]), nan=st.lists(st.tuples(st.integers(0, 30), st.integers(0, 15)), max_size=3).map(lambda v: [list(x) for x in v]),
    units=st.tuples(st.sampled_from(sorted(UNITS)), st.sampled_from(sorted(UNITS))).map(list), xyunits=st.booleans(),
    first=st.sampled_from([None, None, 1, 2, 3, 7]), last=st.sampled_from([None, None, -1, 4, 9, 12, 100]), nth=st.sampled_from([None, None, 1, 2, 3]),
    flips=st.sets(st.sampled_from(["z1", "z2", "v1", "v2", "g1", "g2", "t1", "t2", "q1", "q2"]), max_size=4).map(sorted), keep=st.sampled_from([None, True, False]),
    flagopt=st.sampled_from(["default", "ignore1", "ignore6", "ok2", "ok5", "ignore0"])))


def raw(s):
    """Raw columns as the user has them (float64 arrays; flag int)."""
    r = np.random.RandomState(s["seed"])
    n = s["n"]
    d = {}
    for c in POS[s["coords"]]:
        if c == "ra": d[c] = r.uniform(-7, 7, n) / UNITS[s["units"][0]]
        elif c == "dec": d[c] = r.uniform(-1.57, 1.57, n) / UNITS[s["units"][1]]
        elif c == "r": d[c] = r.uniform(0.5, 30, n)
        else: d[c] = r.uniform(-20, 20, n)
    if s["w"] == "pos": d["w"] = r.uniform(0.2, 3, n)
    if s["w"] == "zeros": d["w"] = np.where(r.uniform(size=n) < 0.35, 0., r.uniform(0.2, 3, n))
    if s["w"] == "int": d["w"] = r.randint(1, 5, n) * 1.
    if s["wpos"] == "pos": d["wpos"] = r.uniform(0.2, 3, n)
    if s["wpos"] == "zeros": d["wpos"] = np.where(r.uniform(size=n) < 0.3, 0., r.uniform(0.2, 3, n))
    if s["flag"] == "bits": d["flag"] = r.randint(0, 8, n)
    if s["flag"] == "01": d["flag"] = r.randint(0, 2, n)
    for f in s["fields"]:
        for c in ([f] if f == "k" else [f + "1", f + "2"]): d[c] = r.normal(0, 1, n)
    nanable = [c for c in d if c != "flag"]
    for i, j in s["nan"]:
        c = d[nanable[i % len(nanable)]]
        c[j % n] = np.nan
        if s["bulk"] and n > 20: c[r.uniform(size=n) < (0.35 if s["bulk"] == 1 else 0.8)] = np.nan   # many bad rows in one column
    return d


def options(s, d):
    """Constructor options other than columns."""
    o = {}
    if "ra" in d: o.update(ra_units=s["units"][0], dec_units=s["units"][1])
    if "x" in d and s["xyunits"] and "z" not in d: o.update(x_units=s["units"][0], y_units=s["units"][1])
    if "x" in d and "ra" in d: o["allow_xyz"] = True
    for k, q in (("first_row", "first"), ("last_row", "last"), ("every_nth", "nth"), ("keep_zero_weight", "keep")):
        if s[q] is not None: o[k] = s[q]
    if o.get("last_row", -1) > 0 and o.get("first_row", 1) > o["last_row"]: o["last_row"] = o["first_row"] + 1
    for c in s["flips"]:
        if c in d: o["flip_" + c] = True
    if "flag" in d:
        f = s["flagopt"]
        if f.startswith("ignore"): o["ignore_flag"] = int(f[6:])
        if f.startswith("ok"): o["ok_flag"] = int(f[2:])
    return o


def rows(n, o):
    a = o.get("first_row", 1) - 1
    b = o.get("last_row", -1)
    if b <= 0: b = n
    return [i for i in range(n) if a <= i < b and (i - a) % o.get("every_nth", 1) == 0]


def expect(d, o, patch=None, sel=None):
    """The columns a catalog must hold; None if it must be refused (no weight at all).

    patch: the patch numbers per raw row (None = no patches).  sel: predicate on row index -> keep (single patch).
    Returns dict with also 'rows' (raw row numbers kept), 'nontrivial', 'sumw', 'nobj'.
    """
    n = len(next(iter(d.values())))
    out = []
    keep = o.get("keep_zero_weight", False)
    weighted = "w" in d
    any_zero_wpos = False
    for i in rows(n, o):
        if sel is not None and not sel(i): continue
        v = {c: float(d[c][i]) for c in d if c != "flag"}
        w = v.pop("w", 1.)
        wp = v.pop("wpos", None)
        for c, f in (("x", "x_units"), ("y", "y_units"), ("ra", "ra_units"), ("dec", "dec_units")):
            if c in v and f in o: v[c] = v[c] * UNITS[o[f]]
        for c in list(v):
            if o.get("flip_" + c): v[c] = -v[c]
        bad = False
        if "flag" in d:
            weighted = True
            fl = int(d["flag"][i])
            if (fl & o["ignore_flag"]) if "ignore_flag" in o else (fl & ~o.get("ok_flag", 0)): bad = True
        isnan = False
        for c in list(v):
            if v[c] != v[c]: v[c] = 0.; isnan = True
        if w != w: isnan = True
        if wp is not None and wp != wp: isnan = True
        if isnan: weighted = True; bad = True
        if bad:
            w = 0.
            if wp is not None: wp = 0.
        if wp == 0.: w = 0.; weighted = True
        v["w"] = w
        if wp is not None: v["wpos"] = wp
        if "ra" in v and "x" not in v:
            r = v.get("r", 1.)
            v["x"] = r * np.cos(v["dec"]) * np.cos(v["ra"]); v["y"] = r * np.cos(v["dec"]) * np.sin(v["ra"]); v["z"] = r * np.sin(v["dec"])
        v["_row"] = i
        out.append(v)
    if not out: return None
    if sum(v["w"] for v in out) == 0: return None
    sumw = sum(v["w"] for v in out)
    if weighted and not keep: out = [v for v in out if (v["wpos"] if "wpos" in v else v["w"]) != 0]
    e = {c: np.array([v[c] for v in out]) for c in out[0]} if out else {}
    e["rows"] = e.pop("_row").astype(int)
    e["nontrivial"] = weighted
    e["sumw"] = sumw
    e["nobj"] = int(np.sum(e["w"] != 0))
    if patch is not None: e["patch"] = np.array(patch)[e["rows"]]
    return e


def compare(cat, e, what, rtol=1e-15, patch=True):
    """All attributes of the catalog against the expectation."""
    for c in ALLCOLS:
        got, want = getattr(cat, c), e.get(c)
        if want is None:
            if got is not None: fail("%s: %s is set, expected None" % (what, c))
            continue
        if got is None: fail("%s: %s is None" % (what, c))
        got = np.asarray(got)
        if got.dtype != float: fail("%s: %s has dtype %s" % (what, c, got.dtype))
        if got.shape != want.shape: fail("%s: %s has %s rows, expected %d" % (what, c, got.shape, len(want)))
        exact = c in ("w", "wpos", "r") or c in FCOLS
        t = rtol if rtol > 1e-15 or not exact else 0.
        a = 0.
        if c in ("x", "y", "z") and "ra" in e: t = max(rtol, 4e-15); a = t * np.max(np.abs(want), initial=1.) * 4
        if c in ("ra", "dec"): a = 1e-300
        badi = ~(np.abs(got - want) <= t * np.abs(want) + a)
        if badi.any(): fail("%s: %s is %s, expected %s (rows %s)" % (what, c, got[badi][:4], want[badi][:4], np.where(badi)[0][:4]))
    if cat.ntot != len(e["w"]): fail("%s: ntot=%s" % (what, cat.ntot))
    if cat.nobj != e["nobj"]: fail("%s: nobj=%s, expected %s" % (what, cat.nobj, e["nobj"]))
    if abs(cat.sumw - e["sumw"]) > 1e-13 * abs(e["sumw"]): fail("%s: sumw=%r, expected %r" % (what, cat.sumw, e["sumw"]))
    s2 = float(np.sum(e["w"] ** 2))
    if abs(cat.sumw2 - s2) > 1e-12 * s2: fail("%s: sumw2=%r, expected %r" % (what, cat.sumw2, s2))
    if bool(cat.nontrivial_w) != bool(e["nontrivial"]) and (e["w"] != 1).any(): fail("%s: nontrivial_w=%s" % (what, cat.nontrivial_w))
    co = "3d" if ("r" in e or ("z" in e and "ra" not in e)) else ("spherical" if "ra" in e else "flat")
    if cat.coords != co: fail("%s: coords=%s, expected %s" % (what, cat.coords, co))
    if patch:
        want = e.get("patch")
        if (want is None) != (cat.patch is None): fail("%s: patch is %s, expected %s" % (what, cat.patch, want))
        if want is not None and not np.array_equal(cat.patch, want): fail("%s: patch is %s, expected %s" % (what, cat.patch, want))
