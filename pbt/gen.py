"""Generators of catalogs and binning specifications.  Everything drawn is a small JSON value; the arrays are derived
deterministically (and prefix-stably, so that shrinking n removes objects without changing the others)."""
import numpy as np
from hypothesis import strategies as st

SPIN = dict(z=0, v=1, g=2, t=3, q=4)
FIELDS = "kzvgtq"
FLAT_LAYOUTS = ["uniform", "cluster", "grid", "line", "dups", "two", "tight", "point"]
COORDS = ["flat", "3d", "sphere", "rdr"]
SKY = ["eq", "pole", "wrap", "south", "full", "anti"]
WMODES = ["none", "unit", "uniform", "zeros", "wide", "neg"]

seeds = st.integers(0, 10**6)


def cat_spec(nmax=40, nmin=1, coords=None, layouts=None, wmodes=("none", "uniform", "zeros", "wide"), sky=None,
             fmodes=("rand", "const", "sparse")):
    return st.fixed_dictionaries(dict(
        n=st.integers(nmin, nmax), seed=seeds,
        layout=st.sampled_from(layouts or ["uniform", "cluster", "grid", "line", "dups", "two", "tight"]),
        w=st.sampled_from(list(wmodes)),
        f=st.sampled_from(list(fmodes)),
        off=st.sampled_from([0, 0, 0.3, 1.0, -0.7]),
    ))


def geom(coords=None, sky=None):
    return st.fixed_dictionaries(dict(
        coords=st.sampled_from(coords or COORDS),
        sky=st.sampled_from(sky or SKY),
        theta=st.sampled_from([0.01, 0.1, 0.5, 1.5]),
        scale=st.sampled_from([1.0, 1.0, 100.0, 1e-3]),
        r0=st.sampled_from([0.3, 1.0, 5.0, 30.0]),
        cx=st.sampled_from([0.0, 0.0, 0.5, 10.0]),
    ))


def unit_points(spec, d):
    """Points in [0,1)^d with the requested layout, plus the table of extra uniform columns."""
    n = spec["n"]
    U = np.random.RandomState(spec["seed"]).random_sample((n, 32))
    lay = spec["layout"]
    P = U[:, :d].copy()
    J = U[:, 3:3 + d] - 0.5
    if lay == "cluster":
        C = np.random.RandomState(spec["seed"] + 77).random_sample((5, d))
        c = (U[:, 6] * 5).astype(int)
        P = C[c] + 0.06 * J
    elif lay == "grid":
        P = np.floor(P * 6) / 6.
    elif lay == "line":
        dirn = np.array([1., 0.62, 0.37])[:d]
        P = U[:, :1] * dirn * 0.9 + 1e-3 * J
    elif lay == "dups":
        idx = (np.arange(n) // 3) * 3
        P = P[idx]
    elif lay == "two":
        c = (U[:, 6] < 0.5).astype(float)
        P = 0.1 + 0.7 * c[:, None] + 0.1 * J
    elif lay == "tight":
        # a hierarchy of scales: log-distributed distance from the centre
        P = 0.5 + J * 10 ** (-3. * U[:, 7:8])
    elif lay == "point":
        P = np.full((n, d), 0.5)
    P = P + spec.get("off", 0) * np.array([1., -0.5, 0.25])[:d]
    return P, U


def unit(v):
    return v / np.sqrt((v ** 2).sum(axis=-1))[..., None]


def make(spec, geo):
    """Returns dict(coords, pos (n,d), and what Catalog needs: x,y,z / ra,dec,r, w, and the fields k,z,v,g,t,q)."""
    coords = geo["coords"]
    n = spec["n"]
    out = dict(coords=coords, n=n)
    if coords in ("flat", "3d"):
        d = 2 if coords == "flat" else 3
        P, U = unit_points(spec, d)
        P = (P + geo["cx"] + (0.05 if coords == "3d" else 0)) * geo["scale"]
        out["x"] = P[:, 0].copy()
        out["y"] = P[:, 1].copy()
        if d == 3:
            out["zpos"] = P[:, 2].copy()
    else:
        P, U = unit_points(spec, 2)
        sky = geo["sky"]
        th = geo["theta"]
        if sky == "full":
            ra = (P[:, 0] % 1.) * 2 * np.pi
            dec = np.arcsin(np.clip(2 * (P[:, 1] % 1.) - 1., -1 + 1e-9, 1 - 1e-9))
        else:
            ra0, dec0 = dict(eq=(0.7, 0.1), pole=(0.3, np.pi / 2 - 0.1 * th), wrap=(0., -0.4), south=(3.0, -np.pi / 2 + 0.3 * th),
                             anti=(np.pi, 0.8))[sky]
            dx = (P[:, 0] - 0.5) * th
            dy = (P[:, 1] - 0.5) * th
            if sky == "anti":
                # second half placed opposite
                pass
            c = np.array([np.cos(dec0) * np.cos(ra0), np.cos(dec0) * np.sin(ra0), np.sin(dec0)])
            e = np.array([-np.sin(ra0), np.cos(ra0), 0.])
            nn = np.cross(c, e)
            v = unit(c + dx[:, None] * e + dy[:, None] * nn)
            if sky == "anti":
                s = np.where(U[:, 8] < 0.5, 1., -1.)
                v = v * s[:, None]
            ra = np.arctan2(v[:, 1].copy(), v[:, 0].copy())
            dec = np.arcsin(v[:, 2].copy())
            if sky == "wrap":
                pass
            else:
                ra = ra % (2 * np.pi)
        out["ra"] = ra
        out["dec"] = dec
        if coords == "rdr":
            out["r"] = geo["scale"] * geo["r0"] * (0.5 + U[:, 9])
    wm = spec["w"]
    u = U[:, 10]
    if wm == "none":
        w = None
    elif wm == "unit":
        w = np.ones(n)
    elif wm == "uniform":
        w = 0.2 + u
    elif wm == "zeros":
        w = np.where(u < 0.3, 0., 0.5 + u)
    elif wm == "wide":
        w = 10. ** (4 * u - 2)
    elif wm == "neg":
        w = np.where(u < 0.2, -1., 1.) * (0.3 + U[:, 11])
        w = np.round(w * 2**20) / 2**20
    if w is not None:
        # Tree cells store single-precision sums: use weights (and fields, below) whose sums are exact there.
        if wm == "wide":
            w = 2. ** np.round(12 * u - 6)
        elif wm != "neg":       # negative weights: no subset sums to exactly zero
            w = np.round(w * 64) / 64.
    out["w"] = w
    fm = spec.get("f", "rand")
    F = 2 * U[:, 12:24] - 1
    if fm == "const":
        F = np.tile(np.array([0.7, 0.3, -0.4, 0.5, 0.25, 0.11, 0.9, -0.2, 0.13, 0.6, -0.35, 0.8]), (n, 1))
    elif fm == "sparse":
        F = np.where(U[:, 24:25] < 0.5, 0., F)
    elif fm == "big":
        F = F * 1e3 + 500.
    F = np.round(F * 128) / 128.
    out["k"] = F[:, 0].copy()
    for i, f in enumerate("zvgtq"):
        out[f] = F[:, 1 + 2 * i] + 1j * F[:, 2 + 2 * i]
    out["U"] = U
    return out


def catkw(d, fields="", extra=None):
    """Catalog keyword arguments (radians) for the data d with the given fields."""
    kw = {}
    if d["coords"] in ("flat", "3d"):
        kw["x"] = d["x"]; kw["y"] = d["y"]
        if d["coords"] == "3d":
            kw["z"] = d["zpos"]
    else:
        kw.update(ra=d["ra"], dec=d["dec"], ra_units="rad", dec_units="rad")
        if d["coords"] == "rdr":
            kw["r"] = d["r"]
    if d["w"] is not None:
        kw["w"] = d["w"]
    for f in fields:
        if f == "k":
            kw["k"] = d["k"]
        elif f in "zvgtq":
            kw[f + "1"] = d[f].real.copy()
            kw[f + "2"] = d[f].imag.copy()
    if extra:
        kw.update(extra)
    return kw


def catalog(d, fields="", **extra):
    import treecorr
    return treecorr.Catalog(**catkw(d, fields, extra))


def fields_of(typ):
    """Fields needed by (cat1, cat2[, cat3]) of a type like 'NG'."""
    return [("" if c == "N" else c.lower()) for c in typ]


def corr_class(typ):
    import treecorr
    return getattr(treecorr, typ + "Correlation")


def sky_extent(geo):
    """A typical size of the region, in metric units."""
    if geo["coords"] in ("flat", "3d"):
        return geo["scale"]
    t = 2.0 if geo["sky"] in ("full", "anti") else geo["theta"]
    if geo["coords"] == "sphere":
        return t
    return geo["scale"] * geo["r0"] * max(t, 0.3)


def bins_spec(bin_types=("Log", "Linear", "TwoD"), nbmax=12):
    return st.fixed_dictionaries(dict(
        bin_type=st.sampled_from(list(bin_types)),
        nbins=st.integers(1, nbmax),
        fmax=st.sampled_from([0.05, 0.3, 0.9171, 1.2345, 2.7]),
        fmin=st.sampled_from([0.001, 0.0317, 0.2113, 0.77]),
    ))


def bins_kw(b, geo, ext=None, maxcap=None):
    ext = sky_extent(geo) if ext is None else ext
    mx = b["fmax"] * ext
    if geo["coords"] == "sphere":
        mx = min(mx, 1.91)
    if maxcap is not None:
        mx = min(mx, maxcap)
    mn = mx * b["fmin"]
    kw = dict(bin_type=b["bin_type"], nbins=b["nbins"], max_sep=mx)
    if b["bin_type"] == "TwoD":
        kw["nbins"] = max(1, b["nbins"])
        if b["fmin"] > 0.2:
            kw["min_sep"] = mn * 0.3
    else:
        kw["min_sep"] = mn
    return kw
