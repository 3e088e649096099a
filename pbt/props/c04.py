"""C04: binning specification and placement of every pair in its own bin."""
import itertools, math
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("spec: binning specifications (which of nbins/bin_size/min_sep/max_sep are given, units, magnitudes); attributes compared "
        "with an arithmetic model, incomplete/over-complete ones must raise.  place: objects placed by construction on, just "
        "below and just above bin edges relative to objects of the first catalog, each identified through a field value 2^i; the "
        "set of objects in each bin must be the designed one.  Non-trivial: a valid specification with >1 bin / a designed pair in range.")
ASSUMPTIONS = ["exactly-on-edge placements only where the edge and separation are exact in binary (dyadic linear bins, outer log limits)",
               "coincident objects are excluded for linear bins starting at 0"]
UN = dict(rad=1., radians=1., deg=np.pi / 180, degrees=np.pi / 180, arcmin=np.pi / 10800, arcsec=np.pi / 648000, hours=np.pi / 12, hour=np.pi / 12)
CLS = ["NN", "KK", "NG", "GG", "NK", "KG", "VV", "NV", "TT", "QQ", "ZZ"]

spec_st = st.fixed_dictionaries(dict(
    bin_type=st.sampled_from(["Log", "Linear", "TwoD"]), cls=st.sampled_from(CLS),
    give=st.sets(st.sampled_from(["nbins", "bin_size", "min_sep", "max_sep"]), min_size=0, max_size=4).map(sorted) |
    st.sampled_from([["max_sep", "min_sep", "nbins"], ["bin_size", "max_sep", "min_sep"], ["bin_size", "min_sep", "nbins"],
                     ["bin_size", "max_sep", "nbins"], ["max_sep", "nbins"], ["bin_size", "max_sep"], ["bin_size", "nbins"]]),
    nbins=st.integers(1, 60), bs=st.sampled_from([0.01, 0.05, 0.1, 0.37, 1.0, 2.5]) | st.floats(0.01, 3.0),
    mn=st.floats(1e-3, 10.), ratio=st.sampled_from([1.5, 2., 10., 1000.]) | st.floats(1.01, 1e4), zero=st.booleans(),
    slop=st.sampled_from([None, 0, 0.5, 1.0, 2.0]), units=st.sampled_from([None, None] + sorted(UN)), swap=st.integers(0, 9),
    how=st.sampled_from(["kw", "config", "mixed"]),
))


def run_spec(case, ctx):
    import treecorr
    t = case["bin_type"]
    mn = case["mn"]
    mx = mn * case["ratio"]
    if t != "Log" and case["zero"]:
        mn = 0.
    bs = case["bs"] * (mx - mn) / 3 if t == "Linear" else case["bs"] * mx if t == "TwoD" else case["bs"]
    if case["swap"] == 0:
        mn, mx = mx, mn
        if mx <= 0:
            raise Skip("empty range")
    kw = {}
    vals = dict(nbins=case["nbins"], bin_size=bs, min_sep=mn, max_sep=mx)
    for g in case["give"]:
        kw[g] = vals[g]
    g = set(case["give"])
    full = dict(kw)
    full["bin_type"] = t
    if case["units"]:
        full["sep_units"] = case["units"]
    if case["slop"] is not None:
        full["bin_slop"] = case["slop"]
    cls = gen.corr_class(case["cls"])

    def make():
        if case["how"] == "kw":
            return cls(**full)
        if case["how"] == "config":
            return cls(full)
        k1 = {k: v for i, (k, v) in enumerate(sorted(full.items())) if i % 2}
        k2 = {k: v for i, (k, v) in enumerate(sorted(full.items())) if not i % 2}
        return cls(k1, **k2)
    need = g - ({"min_sep"} if t == "TwoD" else set())
    if t == "TwoD":
        valid = len(need) == 2
    else:
        valid = len(g) == 3
    valid = valid and not ("max_sep" in g and mn >= mx and "min_sep" in g)
    if t == "TwoD" and "max_sep" not in g:
        # min_sep may exceed the implied maximum
        if "min_sep" in g and kw["min_sep"] >= case["nbins"] * bs / 2:
            raise Skip("range implied by nbins*bin_size is empty")
    ctx.tag(t, "+".join(sorted(g)) or "none", "valid" if valid else "invalid")
    if not valid:
        if "max_sep" not in g and len(g) == 3 and t != "TwoD":
            pass
        try:
            make()
        except (TypeError, ValueError):
            return
        fail("invalid binning specification accepted: %s" % full)
    if t == "Linear" and "min_sep" not in g and mx - case["nbins"] * bs < 0:
        raise Skip("negative min_sep")
    c = make()
    # the model
    nb = kw.get("nbins")
    b = kw.get("bin_size")
    lo, hi = kw.get("min_sep"), kw.get("max_sep")
    if t == "TwoD":
        lo = lo or 0.
        if hi is None:
            hi = nb * b / 2
        x0, x1 = -hi, hi
    elif t == "Log":
        x0 = None if lo is None else math.log(lo)
        x1 = None if hi is None else math.log(hi)
    else:
        x0, x1 = lo, hi
    if x0 is None: x0 = x1 - nb * b
    if x1 is None: x1 = x0 + nb * b
    shrunk = False
    if nb is None:
        q = (x1 - x0) / b
        if abs(q - round(q)) < 1e-9 * max(1, q):
            nb = c.nbins
            if abs(nb - q) > 1.001:
                fail("nbins %s for %s" % (nb, full))
        else:
            nb = int(math.ceil(q))
        shrunk = True
    bb = (x1 - x0) / nb
    if shrunk and c.bin_size > b * (1 + 1e-9):
        fail("bin_size was enlarged: %s > %s" % (c.bin_size, b))
    if t == "Log":
        lo, hi = math.exp(x0), math.exp(x1)
    elif t == "Linear":
        lo, hi = x0, x1
    cmp.eq("nbins", c.nbins, nb)
    cmp.close("bin_size", c.bin_size, bb, 1e-9)
    cmp.close("min_sep", c.min_sep, lo, 1e-9, hi if t != "Log" else None)
    cmp.close("max_sep", c.max_sep, hi, 1e-9)
    for k in ("nbins", "bin_size", "min_sep", "max_sep"):
        if k in kw and not (k == "bin_size" and shrunk):
            cmp.eq(k, getattr(c, k), kw[k])
    E = np.array([x0 + i * bb for i in range(nb + 1)])
    C = 0.5 * (E[1:] + E[:-1])
    if t == "Log":
        cmp.close("logr", c.logr, C, 1e-9, 1.)
        cmp.close("rnom", c.rnom, np.exp(C), 1e-9)
        cmp.close("left_edges", c.left_edges, np.exp(E[:-1]), 1e-9)
        cmp.close("right_edges", c.right_edges, np.exp(E[1:]), 1e-9)
    elif t == "Linear":
        cmp.close("rnom", c.rnom, C, 1e-9, hi)
        cmp.close("logr", c.logr, np.log(C), 1e-8, 1.)
        cmp.close("left_edges", c.left_edges, E[:-1], 1e-9, hi)
        cmp.close("right_edges", c.right_edges, E[1:], 1e-9, hi)
    else:
        one = np.ones(nb)
        cmp.close("dxnom", c.dxnom, np.outer(one, C), 1e-9, hi)
        cmp.close("dynom", c.dynom, np.outer(C, one), 1e-9, hi)
        cmp.close("left_edges", c.left_edges, np.outer(one, E[:-1]), 1e-9, hi)
        cmp.close("right_edges", c.right_edges, np.outer(one, E[1:]), 1e-9, hi)
        cmp.close("bottom_edges", c.bottom_edges, np.outer(E[:-1], one), 1e-9, hi)
        cmp.close("top_edges", c.top_edges, np.outer(E[1:], one), 1e-9, hi)
        rn = np.sqrt(np.outer(one, C) ** 2 + np.outer(C, one) ** 2)
        cmp.close("rnom", c.rnom, rn, 1e-9, hi)
        if (rn > 1e-6 * hi).all():
            cmp.close("logr", c.logr, np.log(rn), 1e-6, 1.)
    cmp.close("b", c.b, c.bin_size * c.bin_slop, 1e-9)
    if case["slop"] is not None:
        cmp.eq("bin_slop", c.bin_slop, case["slop"])
    elif t == "Log":
        cmp.close("bin_slop", c.bin_slop, 1. if c.bin_size <= 0.1 else 0.1 / c.bin_size, 1e-9)
    elif c.bin_slop > 1.0000001 or c.bin_slop < 0:
        fail("default bin_slop %s" % c.bin_slop)
    if nb == 1:
        ctx.trivial("one bin")
    shape = (nb, nb) if t == "TwoD" else (nb,)
    for a in ("meanr", "meanlogr", "weight", "npairs", "rnom", "logr"):
        if getattr(c, a).shape != shape:
            fail("%s has shape %s not %s" % (a, getattr(c, a).shape, shape))


# --- placement

place_st = st.fixed_dictionaries(dict(
    bin_type=st.sampled_from(["Log", "Linear", "Linear", "TwoD", "TwoD"]), nb=st.integers(1, 6),
    lo=st.integers(0, 5), size=st.sampled_from([0.25, 0.5, 1.0, 2.0]), lgmin=st.sampled_from([0.125, 0.5, 1.0, 4.0]),
    lgfac=st.sampled_from([2., 8., 3.7, 100.]), min2d=st.sampled_from([0, 0, 0.75, 1.3]),
    coords=st.sampled_from(["flat", "flat", "3d"]), rot=st.integers(0, 3), origin=st.sampled_from([0., 1.0, -64.0]),
    flip=st.booleans(), auto=st.booleans(),
    pts=st.lists(st.tuples(st.integers(-8, 20), st.integers(-8, 20), st.sampled_from(["on", "on", "below", "above", "mid"]),
                           st.sampled_from(["on", "below", "above", "mid"])), min_size=1, max_size=14),
    mode=st.sampled_from([dict(brute=True), dict(bin_slop=0), dict(bin_slop=0, max_top=0, min_top=0), dict()]),
))


def off(kind, e, step):
    if kind == "on": return e
    if kind == "below": return e - 2e-7 * step
    if kind == "above": return e + 2e-7 * step
    return e + 0.5 * step


def run_place(case, ctx):
    import treecorr
    t, nb = case["bin_type"], case["nb"]
    coords = case["coords"] if t != "TwoD" else "flat"
    mode = dict(case["mode"])
    o = case["origin"]
    if "max_top" in mode:     # a cell of several objects may touch an edge exactly: its range is a closed interval
        case = dict(case, pts=[(a, b, "above" if ka == "on" else ka, "above" if kb == "on" else kb) for a, b, ka, kb in case["pts"]])
    P, want = [], []
    if t == "Linear":
        s = case["size"]
        lo = case["lo"] * s / 2
        kw = dict(min_sep=lo, nbins=nb) if case["flip"] else dict(min_sep=lo, max_sep=lo + nb * s)
        kw["bin_size"] = s
        edges = [lo + i * s for i in range(nb + 1)]
    elif t == "Log":
        lo = case["lgmin"]
        hi = lo * case["lgfac"]
        kw = dict(min_sep=lo, max_sep=hi, nbins=nb)
        s = (math.log(hi) - math.log(lo)) / nb
        edges = [lo] + [math.exp(math.log(lo) + i * s) for i in range(1, nb)] + [hi]
    else:
        s = case["size"]
        kw = dict(bin_size=s, nbins=nb) if case["flip"] else dict(max_sep=nb * s / 2, nbins=nb)
        if case["min2d"]:
            kw["min_sep"] = case["min2d"] * s
            if kw["min_sep"] >= nb * s / 2:
                raise Skip("empty range")
        edges = [-nb * s / 2 + i * s for i in range(nb + 1)]
    if not mode:
        mode = dict(bin_slop=0, angle_slop=0)
    for i, (a, b, ka, kb) in enumerate(case["pts"]):
        if t == "TwoD":
            ea = -nb * s / 2 + a % (nb + 3) * s - s
            eb = -nb * s / 2 + b % (nb + 3) * s - s
            dx, dy = off(ka, ea, s), off(kb, eb, s)
            if abs(dx) < 1e-6 * s and abs(dy) < 1e-6 * s:
                dx += 0.25 * s
            P.append((dx, dy, 0.))
            r = math.hypot(dx, dy)
            mn = kw.get("min_sep", 0.)
            if mn and abs(r - mn) < 1e-7 * mn:
                raise Skip("on min_sep")
            inside = max(abs(dx), abs(dy)) < nb * s / 2 and r >= mn
            want.append((math.floor((dy + nb * s / 2) / s) * nb + math.floor((dx + nb * s / 2) / s)) if inside else -1)
        else:
            j = a % (nb + 1)
            e = edges[j]
            if t == "Log":
                if ka == "on" and 0 < j < nb:
                    ka = "above"
                r = {"on": e, "below": e * (1 - 2e-7), "above": e * (1 + 2e-7), "mid": e * math.exp(s / 2)}[ka]
            else:
                r = off(ka, e, s)
            if r <= 0:
                r = s / 4
            ax = (case["rot"] + b) % (2 if coords == "flat" else 3)
            v = [0., 0., 0.]
            v[ax] = r if b % 2 else -r
            P.append(tuple(v))
            k = -1
            for q in range(nb):
                if edges[q] <= r < edges[q + 1]:
                    k = q
            want.append(k)
    P = np.array(P)
    exact_on = o == 0.          # offsets from a non-zero origin round; only exact for dyadic values
    n = len(P)
    if o != 0.:
        # recompute the separations that the rounded positions really have; on-edge dyadic values are exact anyway
        for i in range(n):
            d = (P[i] + o) - o
            if t == "TwoD":
                chk = np.abs(d[:2] - P[i][:2]).max()
            else:
                chk = abs(math.sqrt((d ** 2).sum()) - math.sqrt((P[i] ** 2).sum()))
            if chk > 0 and case["pts"][i][2] == "on":
                raise Skip("inexact")
            if chk > 5e-8 * s:
                raise Skip("inexact")
    val = 2. ** np.arange(n)

    def cat(xyz, **k):
        q = dict(x=xyz[:, 0] + o, y=xyz[:, 1] + o)
        if coords == "3d":
            q["z"] = xyz[:, 2] + o
        q.update(k)
        return treecorr.Catalog(**q)
    A = cat(np.zeros((1, 3)), k=[1.])
    kw.update(bin_type=t, **mode)
    c = treecorr.NKCorrelation(**kw)
    c.process(A, cat(P, k=val))
    nk = c.npairs.size
    w = np.zeros(nk)
    f = np.zeros(nk)
    for i, k in enumerate(want):
        if k >= 0:
            w[k] += 1
            f[k] += val[i]
    ctx.tag(t, coords, *sorted(mode))
    if not w.any():
        ctx.trivial("nothing in range")
    cmp.eq("npairs", c.npairs.ravel(), w)
    cmp.close("sum of identifiers", (c.xi * np.where(c.weight == 0, 1, c.weight)).ravel(), f, 1e-9)
    cmp.eq("meanr of empty bins", c.meanr.ravel()[w == 0], c.rnom.ravel()[w == 0])
    cmp.eq("meanlogr of empty bins", c.meanlogr.ravel()[w == 0], c.logr.ravel()[w == 0])
    # the reverse order: TwoD offsets change sign
    c2 = treecorr.KKCorrelation(**kw)
    c2.process(cat(P, k=val), A)
    if t == "TwoD":
        w2 = np.zeros(nk)
        for i in range(n):
            dx, dy = -P[i, 0], -P[i, 1]
            if want[i] >= 0:
                w2[math.floor((dy + nb * s / 2) / s) * nb + math.floor((dx + nb * s / 2) / s)] += 1
        cmp.eq("npairs reversed", c2.npairs.ravel(), w2)
    else:
        cmp.eq("npairs reversed", c2.npairs.ravel(), w)
        w2 = w
    if case["auto"] and n == 1:
        c3 = treecorr.NNCorrelation(**kw)
        c3.process(cat(np.concatenate([np.zeros((1, 3)), P])))
        cmp.eq("auto npairs", c3.npairs.ravel(), w + w2 if t == "TwoD" else w)


SUBS = [Sub("spec", spec_st, run_spec, quick=16000), Sub("place", place_st, run_place, quick=16000)]
