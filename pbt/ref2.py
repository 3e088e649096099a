"""Reference (brute force) two-point correlations, written from the documented definitions."""
import numpy as np

SPIN = dict(N=0, K=0, Z=0, V=1, G=2, T=3, Q=4)


def cart(d):
    """Cartesian positions used by the metric."""
    c = d["coords"]
    if c == "flat":
        return np.column_stack([d["x"], d["y"]])
    if c == "3d":
        return np.column_stack([d["x"], d["y"], d["zpos"]])
    ra, dec = d["ra"], d["dec"]
    u = np.column_stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    if c == "rdr":
        return u * d["r"][:, None]
    return u


def wts(d):
    return np.ones(d["n"]) if d["w"] is None else d["w"]


def metric_sep(p1, p2, metric="Euclidean", period=None):
    """Separation of all pairs, shape (n1,n2)."""
    D = p2[None, :, :] - p1[:, None, :]
    if metric == "Periodic":
        per = np.asarray(period, float)[: D.shape[2]]
        A = np.abs(D)
        # smallest over all periodic images
        A = np.abs(D - per * np.round(D / per))
        return np.sqrt((A ** 2).sum(axis=2))
    d3 = np.sqrt((D ** 2).sum(axis=2))
    if metric == "Euclidean":
        return d3
    if metric == "Arc":
        if max(np.abs((q ** 2).sum(axis=1) - 1).max() for q in (p1, p2)) > 1e-12:
            p1, p2 = (q / np.sqrt((q ** 2).sum(axis=1))[:, None] for q in (p1, p2))
            d3 = np.sqrt(((p1[:, None, :] - p2[None, :, :]) ** 2).sum(axis=2))
        return 2 * np.arcsin(np.minimum(d3 / 2, 1.))
    if metric in ("Rperp", "FisherRperp"):
        L = 0.5 * (p1[:, None, :] + p2[None, :, :])
        Ln = np.sqrt((L ** 2).sum(axis=2))
        c = np.cross(np.broadcast_to(p1[:, None, :], D.shape), np.broadcast_to(p2[None, :, :], D.shape))
        return np.sqrt((c ** 2).sum(axis=2)) / Ln
    if metric == "OldRperp":
        r1 = np.sqrt((p1 ** 2).sum(axis=1))[:, None]
        r2 = np.sqrt((p2 ** 2).sum(axis=1))[None, :]
        # d^2 - (r2-r1)^2 = 2 r1 r2 - 2 p1.p2 = r1 r2 |u1-u2|^2
        u1 = p1 / r1
        u2 = p2 / r2.T
        c2 = ((u2[None] - u1[:, None]) ** 2).sum(axis=2)
        return np.sqrt(r1 * r2 * c2)
    if metric == "Rlens":
        r2 = np.sqrt((p2 ** 2).sum(axis=1))[None, :]
        c = np.cross(np.broadcast_to(p1[:, None, :], D.shape), np.broadcast_to(p2[None, :, :], D.shape))
        return np.sqrt((c ** 2).sum(axis=2)) / r2
    raise ValueError(metric)


def rpar(p1, p2, metric):
    if metric == "OldRperp":
        return np.sqrt((p2 ** 2).sum(axis=1))[None, :] - np.sqrt((p1 ** 2).sum(axis=1))[:, None]
    L = 0.5 * (p1[:, None, :] + p2[None, :, :])
    D = p2[None, :, :] - p1[:, None, :]
    return (D * L).sum(axis=2) / np.sqrt((L ** 2).sum(axis=2))


def frame(u):
    """West and north unit vectors at sky positions u."""
    z = np.array([0., 0., 1.])
    e = np.cross(z, u)
    e = e / np.sqrt((e ** 2).sum(axis=-1))[..., None]
    n = np.cross(u, e)
    return -e, n


def directions(d1, d2):
    """(a1, a2): angle of the line from object 1 to object 2, in the frame of object 1 and of object 2."""
    p1, p2 = cart(d1), cart(d2)
    if d1["coords"] == "flat":
        D = p2[None] - p1[:, None]
        a = np.arctan2(D[..., 1], D[..., 0])
        return a, a
    u1 = p1 / np.sqrt((p1 ** 2).sum(axis=1))[:, None]
    u2 = p2 / np.sqrt((p2 ** 2).sum(axis=1))[:, None]
    w1, n1 = frame(u1)
    w2, n2 = frame(u2)
    # difference vector has same tangential component as the other point and no cancellation
    D = u2[None] - u1[:, None]
    a1 = np.arctan2((D * n1[:, None]).sum(axis=2), (D * w1[:, None]).sum(axis=2))
    a2 = np.arctan2((D * n2[None]).sum(axis=2), (D * w2[None]).sum(axis=2))
    return a1, a2


class Binner:
    """Bins of a specification: exact arithmetic of the documented definitions."""

    def __init__(self, bin_type, nbins, min_sep=0., max_sep=None):
        self.t, self.nb = bin_type, nbins
        self.mn, self.mx = float(min_sep or 0.), float(max_sep)
        if bin_type == "Log":
            self.edges = np.exp(np.linspace(np.log(self.mn), np.log(self.mx), nbins + 1))
            self.nk = nbins
        elif bin_type == "Linear":
            self.edges = np.linspace(self.mn, self.mx, nbins + 1)
            self.nk = nbins
        else:
            self.edges = np.linspace(-self.mx, self.mx, nbins + 1)
            self.nk = nbins * nbins

    def index(self, r, dx=None, dy=None, tol=1e-9, atol=0.):
        """Returns (k or -1, ambiguous mask)."""
        if self.t in ("Log", "Linear"):
            k = np.searchsorted(self.edges, r, side="right") - 1
            ok = (r >= self.edges[0]) & (r < self.edges[-1])
            k = np.where(ok, k, -1)
            amb = np.zeros(r.shape, bool)
            for e in self.edges:
                amb |= np.abs(r - e) <= tol * max(abs(e), 1e-300) + (1e-300) + atol
            if self.t == "Linear" and self.edges[0] == 0.:
                amb &= ~(r == 0.)
            return k, amb
        i = np.searchsorted(self.edges, dx, side="right") - 1
        j = np.searchsorted(self.edges, dy, side="right") - 1
        m = np.maximum(np.abs(dx), np.abs(dy))
        ok = (m < self.mx) & (r >= self.mn) & (r != 0.)
        k = np.where(ok, j * self.nb + i, -1)
        amb = np.zeros(r.shape, bool)
        for e in self.edges:
            s = tol * self.mx
            amb |= np.abs(dx - e) <= s
            amb |= np.abs(dy - e) <= s
        if self.mn > 0:
            amb |= np.abs(r - self.mn) <= tol * self.mn
        amb &= ~(r == 0.)
        return k, amb


def corr2(typ, d1, d2, binner, metric="Euclidean", period=None, minrpar=None, maxrpar=None, tol=1e-9, atol=0., ratol=0.):
    """All sums for type typ.  d2=None means auto.  Returns dict of arrays of length nk (un-flattened TwoD),
    with amb = number of ambiguous pairs."""
    auto = d2 is None
    e1 = d1
    e2 = d1 if auto else d2
    p1, p2 = cart(e1), cart(e2)
    if metric == "Rlens" and e2["coords"] == "sphere":
        pass
    r = metric_sep(p1, p2, metric, period)
    w1, w2 = wts(e1), wts(e2)
    W = w1[:, None] * w2[None, :]
    live = (w1 != 0)[:, None] & (w2 != 0)[None, :]
    if binner.t == "TwoD":
        D = p2[None] - p1[:, None]
        if metric == "Periodic":
            per = np.asarray(period, float)[:2]
            D = D - per * np.round(D / per)
        k, amb = binner.index(r, D[..., 0], D[..., 1], tol)
    else:
        k, amb = binner.index(r, tol=tol, atol=atol)
    if minrpar is not None or maxrpar is not None:
        rp = rpar(p1, p2, metric)
        sc = np.sqrt((p1 ** 2).sum(axis=1)).max() + np.sqrt((p2 ** 2).sum(axis=1)).max()
        if minrpar is not None:
            k = np.where(rp >= minrpar, k, -1)
            amb |= np.abs(rp - minrpar) <= tol * sc + ratol
        if maxrpar is not None:
            k = np.where(rp <= maxrpar, k, -1)
            amb |= np.abs(rp - maxrpar) <= tol * sc + ratol
    if auto:
        n = e1["n"]
        if binner.t == "TwoD":
            live &= ~np.eye(n, dtype=bool)
        else:
            live &= np.triu(np.ones((n, n), bool), 1)
    namb = int((amb & live).sum())
    k = np.where(live, k, -1)
    sel = k >= 0
    kk = k[sel]
    ww = W[sel]
    rr = r[sel]

    def acc(v):
        return np.bincount(kk, weights=v, minlength=binner.nk)
    out = dict(amb=namb, npairs=np.bincount(kk, minlength=binner.nk).astype(float), weight=acc(ww), wr=acc(ww * rr),
               wlogr=acc(ww * np.log(np.maximum(rr, 1e-300))), aw=acc(np.abs(ww)), r=rr, k=kk, w=ww, sel=sel)
    a, b = typ[0], typ[1]
    s1, s2 = SPIN[a], SPIN[b]
    if typ != "NN":
        if s1 or s2:
            al1, al2 = directions(e1, e2)
            if metric == "Periodic" and e1["coords"] == "flat":
                # the direction to the nearest image
                D = p2[None] - p1[:, None]
                per = np.asarray(period, float)[:2]
                out["wraps"] = int((np.any(np.abs(D) > per / 2, axis=2) & sel).sum())
                D = D - per * np.round(D / per)
                al1 = al2 = np.arctan2(D[..., 1], D[..., 0])
            if e1["coords"] != "flat":
                # The direction between coincident or antipodal sky positions is undefined.
                u1 = p1 / np.sqrt((p1 ** 2).sum(axis=1))[:, None]
                u2 = p2 / np.sqrt((p2 ** 2).sum(axis=1))[:, None]
                cr = np.cross(np.broadcast_to(u1[:, None], r.shape + (3,)), np.broadcast_to(u2[None], r.shape + (3,)))
                out["amb"] += int((((cr ** 2).sum(axis=2) < 1e-18) & sel).sum())
        else:
            al1 = al2 = np.zeros(r.shape)
        f1 = np.ones((e1["n"], 1)) if a == "N" else e1[a.lower()][:, None]
        f2 = np.ones((1, e2["n"])) if b == "N" else e2[b.lower()][None, :]
        q1 = f1 * np.exp(-1j * s1 * al1)
        q2 = f2 * np.exp(-1j * s2 * al2)
        sg = -1. if (b == "G" and a in "NK") else 1.
        P = sg * (q1 * q2)
        M = q1 * np.conj(q2)
        P, M = (P * np.ones(r.shape))[sel], (M * np.ones(r.shape))[sel]
        if a in "NK":
            out["xi"] = acc(ww * P.real)
            out["xi_im"] = acc(ww * P.imag)
        else:
            out["xim"] = acc(ww * P.real)
            out["xim_im"] = acc(ww * P.imag)
            out["xip"] = acc(ww * M.real)
            out["xip_im"] = acc(ww * M.imag)
        out["absf"] = acc(np.abs(ww) * np.abs(P))
    if auto:
        nz = w1
        out["tot"] = 0.5 * nz.sum() ** 2
    else:
        out["tot"] = w1.sum() * w2.sum()
    return out
