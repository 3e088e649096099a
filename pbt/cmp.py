"""Comparison helpers."""
import numpy as np
from core import fail, Skip


def eq(name, got, want, msg=""):
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape:
        fail("%s %s: shape %s, expected %s" % (name, msg, got.shape, want.shape))
    if not np.array_equal(got, want):
        bad = np.nonzero((got != want).ravel())[0][:5]
        fail("%s %s: differs at %s: got %s, expected %s" % (name, msg, bad.tolist(), got.ravel()[bad], want.ravel()[bad]))


def close(name, got, want, rtol=1e-9, scale=None, msg="", atol=0.):
    """|got-want| <= rtol*(|want|+scale) + atol, elementwise.  NaN/inf never pass unless want has the same."""
    got = np.asarray(got); want = np.asarray(want)
    if got.shape != want.shape:
        fail("%s %s: shape %s, expected %s" % (name, msg, got.shape, want.shape))
    sc = np.abs(want) + (0. if scale is None else np.abs(scale))
    with np.errstate(all="ignore"):
        ok = np.abs(got - want) <= rtol * sc + atol
    ok |= (got == want)
    if not np.all(ok):
        bad = np.nonzero(~np.atleast_1d(ok).ravel())[0][:5]
        fail("%s %s: differs at %s: got %s, expected %s (rtol %g)" % (
            name, msg, bad.tolist(), got.ravel()[bad], want.ravel()[bad], rtol))


def finite(name, a):
    a = np.asarray(a)
    if not np.all(np.isfinite(a)):
        fail("%s has non-finite entries: %s" % (name, a.ravel()[:10]))


XI = {"NN": [], "NK": ["xi"], "KK": ["xi"]}


def xi_names(typ):
    if typ in XI:
        return XI[typ]
    if typ[0] in "NK":
        return ["xi", "xi_im"]
    return ["xip", "xip_im", "xim", "xim_im"]


def is_sphere_chord(c):
    return c.coords == "spherical" and c.metric == "Euclidean"


def check2(c, R, typ, binner, auto, tol_f=3e-6, exact_r=True, su=1., chord=False, rtol_w=1e-9, what=""):
    """Compare a finalized Corr2 with the reference sums."""
    shp = c.npairs.shape
    n = lambda a: np.asarray(a).ravel()
    eq("npairs", n(c.npairs), R["npairs"], what)
    close("weight", n(c.weight), R["weight"], rtol_w, R["aw"], what)
    good = np.abs(R["weight"]) > 1e-6 * R["aw"]
    good &= R["aw"] > 0
    wt = np.where(good, R["weight"], 1.)
    if (R["weight"] == R["aw"]).all():
        mr, ml = R["wr"] / wt, R["wlogr"] / wt
        if exact_r:
            if chord:
                mr = 2 * np.arcsin(np.minimum(mr / 2, 1))
                ml = np.log(2 * np.arcsin(np.minimum(np.exp(ml) / 2, 1)))
            with np.errstate(all="ignore"):
                close("meanr", n(c.meanr)[good], (mr / su)[good], 1e-7, None, what)
                close("meanlogr", n(c.meanlogr)[good], (ml - np.log(su))[good], 1e-7, 1., what)
        elif binner.t in ("Log", "Linear"):
            lo, hi = binner.edges[:-1], binner.edges[1:]
            if chord:
                lo, hi = [2 * np.arcsin(np.minimum(e / 2, 1)) for e in (lo, hi)]
            lo, hi = lo / su, hi / su
            r = n(c.meanr)
            if np.any(good & ((r < lo * (1 - 1e-6)) | (r > hi * (1 + 1e-6)))):
                fail("meanr outside its bin: %s not in [%s, %s] %s" % (r, lo, hi, what))
            with np.errstate(all="ignore"):
                r = np.exp(n(c.meanlogr))
            if np.any(good & ((r < lo * (1 - 1e-6)) | (r > hi * (1 + 1e-6)))):
                fail("meanlogr outside its bin: %s not in [%s, %s] %s" % (np.log(r), np.log(lo), np.log(hi), what))
        else:
            # range of |(dx,dy)| over each square bin (and the upper limit of the convex combination)
            e = binner.edges
            a = np.where((e[:-1] < 0) & (e[1:] > 0), 0., np.minimum(np.abs(e[:-1]), np.abs(e[1:])))
            b = np.maximum(np.abs(e[:-1]), np.abs(e[1:]))
            lo = np.sqrt(a[None, :] ** 2 + a[:, None] ** 2).ravel()
            hi = np.sqrt(b[None, :] ** 2 + b[:, None] ** 2).ravel()
            lo = np.maximum(lo, binner.mn * 0.)
            r = n(c.meanr)
            if np.any(good & ((r < lo * (1 - 1e-6) - 1e-12 * binner.mx) | (r > hi * (1 + 1e-6)))):
                fail("meanr outside its bin: %s not in [%s, %s] %s" % (r, lo, hi, what))
            with np.errstate(all="ignore"):
                r = np.exp(n(c.meanlogr))
            if np.any(good & ((r < lo * (1 - 1e-6) - 1e-12 * binner.mx) | (r > hi * (1 + 1e-6)))):
                fail("meanlogr outside its bin: %s not in [%s, %s] %s" % (r, lo, hi, what))
    # empty bins report nominal values
    em = (R["npairs"] == 0)
    if em.any():
        eq("meanr of empty bins", n(c.meanr)[em], n(c.rnom)[em], what)
        eq("meanlogr of empty bins", n(c.meanlogr)[em], n(c.logr)[em], what)
    for a in xi_names(typ):
        if auto and a == "xip_im" and binner.t != "TwoD":
            continue
        w = np.where(good, R["weight"], 1.)
        sel = good | em
        want = np.where(good, R[a] / w, 0.)
        close(a, n(getattr(c, a))[sel], want[sel], tol_f, (R["absf"] / np.abs(w))[sel], what, atol=1e-12)
