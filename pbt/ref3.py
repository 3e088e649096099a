"""Reference (direct triangle loop) three-point correlations, written from the documented definitions.

All ordered triples (P1,P2,P3) that the catalogs allow are enumerated; side i is opposite to vertex i.  A triple is
counted where the binning accepts this order of its vertices (LogRUV: d1 > d2 > d3; LogSAS: P1,P3,P2 counter-clockwise;
LogMultipole: any)."""
import numpy as np
import ref2


def slots(ds, ordered=True):
    """ds: list of 1 (auto), 2 (one point from the first, two from the second) or 3 catalogs.
    Returns [(A,B,C)] catalogs to take P1,P2,P3 from."""
    if len(ds) == 1:
        a = ds[0]
        return [(a, a, a)]
    if len(ds) == 2:
        a, b = ds
        return [(a, b, b)] if ordered else [(a, b, b), (b, a, b), (b, b, a)]
    a, b, c = ds
    if ordered:
        return [(a, b, c)]
    return [(a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)]


def sides(A, B, C, metric, period):
    pa, pb, pc = (ref2.cart(q) for q in (A, B, C))
    d1 = ref2.metric_sep(pb, pc, metric, period)[None, :, :]
    d2 = ref2.metric_sep(pa, pc, metric, period)[:, None, :]
    d3 = ref2.metric_sep(pa, pb, metric, period)[:, :, None]
    return np.broadcast_arrays(d1, d2, d3)


def ccw(A, B, C, metric, period):
    """(whether P1,P2,P3 are counter-clockwise, a dimensionless measure of how far this is from being undecided)"""
    pa, pb, pc = (ref2.cart(q) for q in (A, B, C))
    r21 = pb[None, :, :] - pa[:, None, :]
    r31 = pc[None, :, :] - pa[:, None, :]
    if metric == "Periodic":
        per = np.asarray(period, float)[:pa.shape[1]]
        r21 = r21 - per * np.round(r21 / per)
        r31 = r31 - per * np.round(r31 / per)
    if A["coords"] == "flat":
        x = (r21[:, :, None, 0] * r31[:, None, :, 1] - r21[:, :, None, 1] * r31[:, None, :, 0])
        n = np.sqrt((r21 ** 2).sum(axis=2))[:, :, None] * np.sqrt((r31 ** 2).sum(axis=2))[:, None, :]
        with np.errstate(all="ignore"):
            q = np.where(n > 0, np.abs(x) / n, 1.)
        return x > 0, q
    cr = np.cross(r21[:, :, None, :], r31[:, None, :, :])
    x = -(cr * pa[:, None, None, :]).sum(axis=3)
    n = np.sqrt((r21 ** 2).sum(axis=2))[:, :, None] * np.sqrt((r31 ** 2).sum(axis=2))[:, None, :]
    n = n * np.sqrt((pa ** 2).sum(axis=1))[:, None, None]
    with np.errstate(all="ignore"):
        q = np.where(n > 0, np.abs(x) / n, 1.)
    return x > 0, q


def unclosed(A, B, C, metric, period):
    """Triples whose orientation is not defined: with the Periodic metric, where the three separations (each to the nearest
    image) do not close to a triangle or the vertices disagree about the direction of view."""
    if metric != "Periodic":
        return False
    pa, pb, pc = (ref2.cart(q) for q in (A, B, C))
    per = np.asarray(period, float)[:pa.shape[1]]

    def wrap(r):
        return r - per * np.round(r / per)
    r21 = wrap(pb[None, :, None, :] - pa[:, None, None, :])
    r31 = wrap(pc[None, None, :, :] - pa[:, None, None, :])
    r32 = wrap(pc[None, None, :, :] - pb[None, :, None, :])
    bad = np.abs(r21 + r32 - r31).max(axis=-1) > 1e-6 * per.max()
    if A["coords"] != "flat":
        cr = np.cross(r21, r31)
        v = [np.sign((cr * q).sum(axis=-1)) for q in (pa[:, None, None, :], pb[None, :, None, :], pc[None, None, :, :])]
        bad = bad | (v[0] != v[1]) | (v[0] != v[2])
    return bad


def unit(v):
    n = np.sqrt((v ** 2).sum(axis=-1))[..., None]
    return v / np.where(n > 0, n, 1.)


def tangent_angle(p, q):
    """Angle (in the west/north frame at unit vectors p) of the direction towards q."""
    w, n = ref2.frame(p)
    D = q - p
    return np.arctan2((D * n).sum(axis=-1), (D * w).sum(axis=-1))


def centroid_angles(A, B, C):
    """Directions from each vertex to the centroid of the triangle, (n1,n2,n3) each."""
    pa, pb, pc = (ref2.cart(q) for q in (A, B, C))
    if A["coords"] == "flat":
        cen = (pa[:, None, None] + pb[None, :, None] + pc[None, None, :]) / 3.
        out = []
        for p in (pa[:, None, None], pb[None, :, None], pc[None, None, :]):
            D = cen - p
            out.append(np.arctan2(D[..., 1], D[..., 0]))
        return out
    pa, pb, pc = unit(pa), unit(pb), unit(pc)
    cen = unit(pa[:, None, None] + pb[None, :, None] + pc[None, None, :])
    full = cen.shape
    return [tangent_angle(np.broadcast_to(p, full), cen) for p in (pa[:, None, None], pb[None, :, None], pc[None, None, :])]


def pair_angle(A, B, metric="Euclidean", period=None):
    """(n1,n2): direction at each object of A towards each object of B (flat: plane angle; else on the sky)."""
    if metric == "Periodic":
        pa, pb = ref2.cart(A), ref2.cart(B)
        per = np.asarray(period, float)[:pa.shape[1]]
        D = pb[None, :, :] - pa[:, None, :]
        D = D - per * np.round(D / per)
        if A["coords"] == "flat":
            return np.arctan2(D[..., 1], D[..., 0])
        u = unit(pa)[:, None, :] + np.zeros_like(D)
        return tangent_angle(u, unit(pa[:, None, :] + D))
    a1, a2 = ref2.directions(A, B)
    return a1


def near(x, e, tol):
    return np.abs(x - e) <= tol


class RUV:
    def __init__(self, nbins, min_sep, max_sep, min_u=0., max_u=1., nubins=1, min_v=0., max_v=1., nvbins=1):
        self.shape = (nbins, nubins, 2 * nvbins)
        self.re = np.exp(np.linspace(np.log(min_sep), np.log(max_sep), nbins + 1))
        self.ue = np.linspace(min_u, max_u, nubins + 1)
        self.ve = np.linspace(min_v, max_v, nvbins + 1)

    def triples(self, slot, metric, period, tol):
        d1, d2, d3 = sides(*slot, metric, period)
        with np.errstate(all="ignore"):
            u = d3 / d2
            v = (d1 - d2) / d3
        u = np.where(np.isfinite(u), u, 2.)
        v = np.where(np.isfinite(v), v, 2.)
        turn, q = ccw(*slot, metric, period)
        # crit: list of (ok, near)
        crit = [(d1 > d2, near(d1, d2, tol * d2)), (d2 > d3, near(d2, d3, tol * d2))]
        inner = np.zeros(d1.shape, bool)
        idx = []
        vt = tol * (1 + d2 / np.where(d3 > 0, d3, 1.))
        for x, e, t in ((d2, self.re, tol * d2), (u, self.ue, tol), (v, self.ve, vt)):
            crit.append(((x >= e[0]) & (x < e[-1]), near(x, e[0], t) | near(x, e[-1], t)))
            for f in e[1:-1]:
                inner |= near(x, f, t)
            idx.append(np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(e) - 2))
        # exact lower limits u = 0 and v = 0 need care only where they can be crossed
        inner |= (q < max(tol, 1e-9))
        ok, amb = combine(crit, inner)
        ok0 = ok
        nv = len(self.ve) - 1
        kv = np.where(turn, nv + idx[2], nv - 1 - idx[2])
        k = (idx[0] * (len(self.ue) - 1) + idx[1]) * 2 * nv + kv
        return dict(d1=d1, d2=d2, d3=d3, u=u, v=np.where(turn, v, -v), ok=ok, amb=amb, k=k, ok0=ok0)


def combine(crit, inner):
    ok = np.ones(inner.shape, bool)
    loose = np.ones(inner.shape, bool)
    anynear = inner.copy()
    for o, n in crit:
        ok &= o
        loose &= (o | n)
        anynear |= n
    return ok, loose & anynear


def cos_angle(slot, d1, d2, d3, metric, period):
    with np.errstate(all="ignore"):
        if metric == "Arc":
            h1, h2, h3 = (4 * np.sin(d / 2) ** 2 for d in (d1, d2, d3))
            c = (h2 + h3 - 0.5 * h2 * h3 - h1) / (2 * np.sqrt(h2 * h3 * (1 - 0.25 * h2) * (1 - 0.25 * h3)))
        else:
            c = (d2 ** 2 + d3 ** 2 - d1 ** 2) / (2 * d2 * d3)
    return np.clip(np.where(np.isfinite(c), c, 1.), -1, 1)


class SAS:
    def __init__(self, nbins, min_sep, max_sep, min_phi=0., max_phi=np.pi, nphi=1):
        self.shape = (nbins, nbins, nphi)
        self.re = np.exp(np.linspace(np.log(min_sep), np.log(max_sep), nbins + 1))
        self.pe = np.linspace(min_phi, max_phi, nphi + 1)

    def triples(self, slot, metric, period, tol):
        d1, d2, d3 = sides(*slot, metric, period)
        c = cos_angle(slot, d1, d2, d3, metric, period)
        phi = np.arccos(c)
        turn, q = ccw(*slot, metric, period)
        turn = ~turn                # 1,3,2 counter-clockwise
        crit = [(turn, q < max(tol, 1e-9))]
        inner = np.zeros(d1.shape, bool)
        idx = []
        with np.errstate(all="ignore"):
            pt = tol * (1 + np.maximum(d2, d3) / np.minimum(d2, d3)) + np.minimum(tol / np.maximum(np.sin(phi), 1e-8), 1e-3)
        pt = np.where(np.isfinite(pt), pt, tol)
        for x, e, t in ((d2, self.re, tol * d2), (d3, self.re, tol * d3), (phi, self.pe, pt)):
            ok_ = (x >= e[0]) & (x < e[-1])
            nr = near(x, e[0], t) | near(x, e[-1], t)
            crit.append((ok_, nr))
            for f in e[1:-1]:
                inner |= near(x, f, t)
            idx.append(np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(e) - 2))
        ok, amb = combine(crit, inner)
        ok0 = combine(crit[1:], inner)[0]
        k = (idx[0] * self.shape[1] + idx[1]) * self.shape[2] + idx[2]
        return dict(d1=d1, d2=d2, d3=d3, u=phi, v=np.zeros_like(phi), ok=ok, amb=amb, k=k, ok0=ok0)


class MP:
    def __init__(self, nbins, min_sep, max_sep, max_n):
        self.nb, self.maxn = nbins, max_n
        self.shape = (nbins, nbins, 2 * max_n + 1)
        self.re = np.exp(np.linspace(np.log(min_sep), np.log(max_sep), nbins + 1))

    def triples(self, slot, metric, period, tol):
        d1, d2, d3 = sides(*slot, metric, period)
        crit = []
        inner = np.zeros(d1.shape, bool)
        idx = []
        for x, e, t in ((d2, self.re, tol * d2), (d3, self.re, tol * d3)):
            crit.append(((x >= e[0]) & (x < e[-1]), near(x, e[0], t) | near(x, e[-1], t)))
            for f in e[1:-1]:
                inner |= near(x, f, t)
            idx.append(np.clip(np.searchsorted(e, x, side="right") - 1, 0, len(e) - 2))
        ok, amb = combine(crit, inner)
        k = idx[0] * self.nb + idx[1]
        ok0 = ok
        z = np.zeros(d1.shape)
        return dict(d1=d1, d2=d2, d3=d3, u=z, v=z, ok=ok, amb=amb, k=k, ok0=ok0)


def live(slot):
    A, B, C = slot
    m = ((ref2.wts(A) != 0)[:, None, None] & (ref2.wts(B) != 0)[None, :, None] & (ref2.wts(C) != 0)[None, None, :])
    if A is B:
        m = m & ~np.eye(A["n"], dtype=bool)[:, :, None]
    if A is C:
        m = m & ~np.eye(A["n"], dtype=bool)[:, None, :]
    if B is C:
        m = m & ~np.eye(B["n"], dtype=bool)[None, :, :]
    return m


def corr3(typ, ds, binner, ordered=True, metric="Euclidean", period=None, tol=1e-9, keyfn=None, nkeys=1):
    """Sums per bin (flattened), for typ in NNN, KKK, GGG; plus the number of ambiguous triples.
    keyfn(slot, i, j, l): a number < nkeys for each triple; the sums are then made for each of these separately, with
    the results of key 0 first."""
    nk = int(np.prod(binner.shape))
    mp = isinstance(binner, MP)
    if mp:
        nk = binner.nb ** 2
        nn = np.arange(-binner.maxn, binner.maxn + 1)
    nk *= nkeys
    out = {}
    amb = 0
    zero = 0

    def add(name, val):
        out[name] = out[name] + val if name in out else val
    for slot in slots(ds, ordered):
        A, B, C = slot
        T = binner.triples(slot, metric, period, tol)
        m = live(slot)
        degenerate = m & ((T["d1"] <= 0) | (T["d2"] <= 0) | (T["d3"] <= 0))
        # coincident objects form no triangle
        zero += int(degenerate.sum())
        # the same direction at other distances: undecided up to rounding
        smallest = np.minimum(np.minimum(T["d1"], T["d2"]), T["d3"])
        largest = np.maximum(np.maximum(T["d1"], T["d2"]), T["d3"])
        tiny = m & (smallest < 1e-8 * largest) & (largest > 0)
        if not (metric == "Arc" and A["coords"] != "sphere"):
            tiny &= ~degenerate
        amb += int(tiny.sum())
        m = m & ~degenerate
        if not mp:
            amb += int((m & unclosed(A, B, C, metric, period) & T["ok0"]).sum())
        amb += int((T["amb"] & m).sum())
        s = T["ok"] & m
        k = T["k"][s]
        W = (ref2.wts(A)[:, None, None] * ref2.wts(B)[None, :, None] * ref2.wts(C)[None, None, :])[s]
        i, j, l = np.nonzero(s)
        if keyfn is not None:
            k = k + keyfn(slot, i, j, l) * (nk // nkeys)

        def acc(x):
            if np.iscomplexobj(x):
                return acc(x.real) + 1j * acc(x.imag)
            return np.bincount(k, weights=x, minlength=nk)
        add("ntri", np.bincount(k, minlength=nk).astype(float))
        add("absw", acc(W))
        for q in ("d1", "d2", "d3"):
            add("w" + q, acc(W * T[q][s]))
            add("wlog" + q, acc(W * np.log(T[q][s])))
        for q in ("u", "v"):
            add("w" + q, acc(W * T[q][s]))
        vals = {}
        if typ == "KKK":
            vals["zeta"] = W * A["k"][i] * B["k"][j] * C["k"][l]
        if mp:
            a12 = pair_angle(A, B, metric, period)[i, j]
            a13 = pair_angle(A, C, metric, period)[i, l]
        if typ == "GGG":
            if mp:
                b1 = np.angle(np.exp(1j * a12) + np.exp(1j * a13))
                # direction at the other vertices of the same line
                b2 = pair_angle(B, A)[j, i]
                b3 = pair_angle(C, A)[l, i]
            else:
                al = centroid_angles(A, B, C)
                b1, b2, b3 = (x[s] for x in al)
            g = [X["g"][n_] * np.exp(-2j * b_) for X, n_, b_ in ((A, i, b1), (B, j, b2), (C, l, b3))]
            vals["gam0"] = W * g[0] * g[1] * g[2]
            vals["gam1"] = W * np.conj(g[0]) * g[1] * g[2]
            vals["gam2"] = W * g[0] * np.conj(g[1]) * g[2]
            vals["gam3"] = W * g[0] * g[1] * np.conj(g[2])
        for name, x in vals.items():
            add("abs", acc(np.abs(x))) if name in ("zeta", "gam0") else None
        if not mp:
            add("weight", acc(W))
            for name, x in vals.items():
                add(name, acc(x))
        else:
            ph = a12 - a13
            add("weight", np.stack([acc(W * np.exp(-1j * n * ph)) for n in nn], axis=1))
            for name, x in vals.items():
                add(name, np.stack([acc(x * np.exp(-1j * n * ph)) for n in nn], axis=1))
    out["amb"] = amb
    out["zero"] = zero
    return out
