"""C27: aperture mass and related statistics are the documented filter integrals over the measured correlations."""
import itertools
import os
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp, tri
from core import Sub, Skip, fail
from props.c18 import parse

RULE = ("gg: a shear correlation of 1 or 2 catalogs of 2..15 objects (four coordinate systems, separation units), logarithmic bins, radii given or not, either "
        "filter given as an argument or in the constructor; mass and shear variances, E and B modes, their variances and the written file are recomputed from "
        "the documented filters summed over the bins.  ng: the lens-aperture cross statistic with and without randoms, the filtered count variance with every "
        "combination of randoms, and the combined file.  ggg: third-order aperture masses with drawn k2, k3 of a shear three-point correlation in (r,u,v) or "
        "(d2,d3,phi) bins against the integral of the product of the three filters over the aperture centre, done by Gauss-Hermite quadrature (exact for these "
        "filters), summed over bins and permutations of the apertures.  Non-trivial: an occupied bin and a result that is not zero.")
ASSUMPTIONS = ["each bin is represented by its mean separation (or the means of d2, d3, u, v, phi)",
               "three-point variances combine the four natural components as uncorrelated (as documented)"]

RF = st.lists(st.sampled_from([0.02, 0.1, 0.25, 0.31, 0.5, 0.77, 1., 2.3, 10.]), min_size=1, max_size=4)
UNITS = [None, None, "deg", "arcmin", "radians"]
SU = {None: 1., "deg": np.pi / 180, "arcmin": np.pi / 10800, "radians": 1.}
common = dict(geo=gen.geom(), nbins=st.integers(1, 6), fmax=st.sampled_from([0.3, 0.9, 1.7]), fmin=st.sampled_from([0.01, 0.1, 0.5]), units=st.sampled_from(UNITS),
              R=st.one_of(st.none(), RF), form=st.sampled_from(["default", "arg", "config"]), uform=st.sampled_from(["Crittenden", "Schneider"]),
              fmt=st.sampled_from(["ASCII", "ASCII", "FITS", "HDF"]), prec=st.sampled_from([None, None, 8, 2]), bt=st.sampled_from(["Log"] * 9 + ["Linear"]))
gg_strat = st.fixed_dictionaries(dict(common, pv=st.sampled_from([0, 0, 2, 3]), auto=st.booleans(), c1=gen.cat_spec(15, 2), c2=gen.cat_spec(12, 1)))
ng_strat = st.fixed_dictionaries(dict(common, c1=gen.cat_spec(15, 2), c2=gen.cat_spec(12, 1), r1=gen.cat_spec(20, 2), rg=st.booleans(), rd=st.sampled_from(["", "dr", "rd", "dr,rd"])))


# documented filters as functions of s = r/R
def Tp(s, u):
    if u == "Crittenden":
        return (s ** 4 - 16 * s ** 2 + 32) / 128 * np.exp(-s ** 2 / 4)
    if s >= 2:
        return 0.
    return 12 / (5 * np.pi) * (2 - 15 * s ** 2) * np.arccos(s / 2) + s * np.sqrt(4 - s ** 2) / (100 * np.pi) * (
        120 + 2320 * s ** 2 - 754 * s ** 4 + 132 * s ** 6 - 9 * s ** 8)


def Tm(s, u):
    if u == "Crittenden":
        return s ** 4 / 128 * np.exp(-s ** 2 / 4)
    return 0. if s >= 2 else 3 / (70 * np.pi) * s ** 3 * (4 - s ** 2) ** 3.5


def Tx(s, u):
    if u == "Crittenden":
        return s ** 2 / 128 * (12 - s ** 2) * np.exp(-s ** 2 / 4)
    if s >= 2:
        return 0.
    return 18 / np.pi * s ** 2 * np.arccos(s / 2) - 3 / (40 * np.pi) * s ** 3 * np.sqrt(4 - s ** 2) * (196 - 74 * s ** 2 + 14 * s ** 4 - s ** 6)


def Sp(s):
    return 0. if s >= 2 else (4 * np.arccos(s / 2) - s * np.sqrt(4 - s ** 2)) / np.pi


def Sm(s):
    if s >= 2:
        return 4 * (s ** 2 - 3) / s ** 4
    return (s * np.sqrt(4 - s ** 2) * (6 - s ** 2) - 8 * (3 - s ** 2) * np.arcsin(s / 2)) / (np.pi * s ** 4)


def kern(c, R, f):
    """r dr / R^2 f(r/R) for every radius and bin"""
    K = np.zeros((len(R), len(c.meanr)))
    for i, r in enumerate(R):
        for j, m in enumerate(c.meanr):
            K[i, j] = m * m * c.bin_size / r ** 2 * f(m / r)
    return K


def gross(c, R, u):
    """Size of the terms that cancel in the Schneider filters near s=2 (as a share that rounding of 1e-16 may leave)"""
    s = np.outer(1 / np.asarray(R), c.meanr)
    return np.where(s < 2, 1e-3 * s ** 2 * c.bin_size, 0.) if u == "Schneider" else np.zeros_like(s)


def near(c, R):
    """Bins within rounding of the cut of the filters at s=2 (the Schneider filters vanish there)."""
    s = np.outer(1 / np.asarray(R), c.meanr)
    return np.abs(s - 2).min() < 1e-9


def setup(case, *specs, fields):
    import treecorr
    geo = case["geo"]
    ds = [gen.make(case[s], geo) for s in specs]
    if not all((ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    pv = case.get("pv", 0)
    if any(not (ref2.wts(d)[k::pv] != 0).any() for d in ds for k in range(pv)): pv = 0
    cats = [gen.catalog(d, f, verbose=0, **(dict(patch=np.arange(d["n"]) % pv) if pv else {})) for d, f in zip(ds, fields)]
    ext = gen.sky_extent(geo)
    mx = min(case["fmax"] * ext, 1.91 if geo["coords"] == "sphere" else np.inf)
    su = SU[case["units"]] if geo["coords"] == "sphere" else 1.
    kw = dict(min_sep=mx * case["fmin"] / su, max_sep=mx / su, nbins=case["nbins"], bin_slop=0, verbose=0, bin_type=case["bt"])
    if case["units"] and geo["coords"] == "sphere":
        kw["sep_units"] = case["units"]
    if case["form"] == "config":
        kw["m2_uform"] = case["uform"]
    if pv: kw["var_method"] = "jackknife"        # (the variances of xi+ and xi- are not the same then)
    u = "Crittenden" if case["form"] == "default" else case["uform"]
    a = dict(m2_uform=u) if case["form"] == "arg" else {}
    R = None if case["R"] is None else np.array(case["R"]) * mx / su
    if case["R"] is not None:
        a["R"] = R
    return cats, kw, u, a, R


def refuse(case, f):
    if case["bt"] != "Log":
        try:
            f()
        except ValueError:
            return True
        fail("statistic computed although the bins are not logarithmic")
    return False


def columns(case, ctx, write, cols, prec0=None):
    """The written file has these columns."""
    fn = os.path.join(ctx.tmp(), "m" + dict(ASCII=".txt", FITS=".fits", HDF=".hdf")[case["fmt"]])
    kw = {} if case["prec"] is None else dict(precision=case["prec"])
    write(fn, **kw)
    p = case["prec"] or prec0 or 4
    for n, v in cols.items():
        got = parse(fn, case["fmt"], n)
        if case["fmt"] == "ASCII":
            cmp.close("file column " + n, got, v, 0.51 * 10. ** -p, 0.)
        else:
            cmp.eq("file column " + n, got, np.asarray(v, float))
    os.remove(fn)


def gg(case, ctx):
    import treecorr
    cats, kw, u, a, R = setup(case, "c1", *([] if case["auto"] else ["c2"]), fields="gg")
    c = treecorr.GGCorrelation(**kw)
    c.process(*cats)
    Ra = {k: v for k, v in a.items() if k == "R"}
    if refuse(case, lambda: c.calculateMapSq(**a)):
        refuse(case, lambda: c.calculateGamSq(**Ra)); return
    if R is None:
        R = c.rnom
    if near(c, R):
        raise Skip("bin at the cut of the filters")
    out = c.calculateMapSq(**a)
    Kp, Km = kern(c, R, lambda s: Tp(s, u)), kern(c, R, lambda s: Tm(s, u))
    Q = gross(c, R, u)
    sp, sm = (np.abs(Kp) + Q) @ (np.abs(c.xip) + np.abs(c.xip_im)), (np.abs(Km) + Q) @ (np.abs(c.xim) + np.abs(c.xim_im))
    want = [(Kp @ c.xip + Km @ c.xim) / 2, (Kp @ c.xip_im + Km @ c.xim_im) / 2, (Kp @ c.xip - Km @ c.xim) / 2, (Kp @ c.xip_im - Km @ c.xim_im) / 2,
            (Kp ** 2 @ c.varxip + Km ** 2 @ c.varxim) / 4]
    if len(out) != 5:
        fail("calculateMapSq returned %d values" % len(out))
    for n, g, w in zip(["mapsq", "mapsq_im", "mxsq", "mxsq_im"], out, want):
        cmp.close(n, g, w, 1e-9, sp + sm + 1e-30)
    dv = ((np.abs(Kp) + 1e-9 * Q) ** 2 - Kp ** 2) @ c.varxip + ((np.abs(Km) + 1e-9 * Q) ** 2 - Km ** 2) @ c.varxim
    cmp.close("varmapsq", out[4], want[4], 1e-8, 1e-30 + 1e8 * dv)
    g2 = c.calculateGamSq(**Ra)
    g5 = c.calculateGamSq(eb=True, **Ra)
    # (the small-s form of S- loses s^-4 of its precision)
    Lp, Lm = kern(c, R, Sp), kern(c, R, Sm)
    s = np.outer(1 / R, c.meanr)
    rnd = (1e-13 * c.bin_size / s ** 2) @ np.abs(c.xim)
    tp, tm = Lp @ np.abs(c.xip), np.abs(Lm) @ np.abs(c.xim)
    for out2, k in ((g2, 2), (g5, 5)):
        if len(out2) != k:
            fail("calculateGamSq returned %d values" % len(out2))
        cmp.close("gamsq", out2[0], Lp @ c.xip, 1e-9, tp + 1e-30)
        cmp.close("vargamsq", out2[1], Lp ** 2 @ c.varxip, 1e-8, 1e-30)
    for n, g, w in (("gamsq_e", g5[2], (Lp @ c.xip + Lm @ c.xim) / 2), ("gamsq_b", g5[3], (Lp @ c.xip - Lm @ c.xim) / 2)):
        cmp.close(n, g, w, 1e-9, tp + tm + 1e9 * rnd + 1e-30)
    dv = ((np.abs(Lm) + 1e-13 * c.bin_size / s ** 2) ** 2 - Lm ** 2) @ c.varxim
    cmp.close("vargamsq_e", g5[4], (Lp ** 2 @ c.varxip + Lm ** 2 @ c.varxim) / 4, 1e-8, 1e-30 + 1e8 * dv)
    columns(case, ctx, lambda fn, **k: c.writeMapSq(fn, **a, **k), dict(
        R=R, Mapsq=out[0], Mxsq=out[2], MMxa=out[1], MMxb=-out[3], sig_map=np.sqrt(out[4]), Gamsq=g2[0], sig_gam=np.sqrt(g2[1])))
    ctx.tag(case["geo"]["coords"], u, case["form"], case["fmt"], "auto" if case["auto"] else "cross", "R" if case["R"] else "default R",
            "units" if "sep_units" in kw else "no-units", "beyond 2R" if (s > 2).any() else "within 2R")
    if not (np.abs(out[0]) > 0).any():
        ctx.trivial("zero")
    try:
        c.calculateMapSq(m2_uform="Other")
        fail("an unknown filter was accepted")
    except ValueError:
        pass


def ng(case, ctx):
    import treecorr
    cats, kw, u, a, R = setup(case, "c1", "c2", "r1", fields=["g", "g", ""])
    lens, src, rand = cats
    c = treecorr.NGCorrelation(**kw)
    c.process(lens, src)
    rg = None
    if case["rg"]:
        rg = treecorr.NGCorrelation(**kw)
        rg.process(rand, src)
    dd, rr, gg = treecorr.NNCorrelation(**kw), treecorr.NNCorrelation(**kw), treecorr.GGCorrelation(**kw)
    dd.process(lens); rr.process(rand); gg.process(src)
    x = {}
    for n in case["rd"].split(","):
        if n:
            x[n] = treecorr.NNCorrelation(**kw)
            x[n].process(*((lens, rand) if n == "dr" else (rand, lens)))
    if rr.tot == 0 or any(v.tot == 0 for v in x.values()) or dd.npairs.sum() == 0 or rr.npairs.sum() == 0:
        raise Skip("no pairs")
    if refuse(case, lambda: c.calculateNMap(rg=rg, **a)):
        refuse(case, lambda: dd.calculateNapSq(rr=rr, **x, **a)); return
    if R is None:
        R = c.rnom
    if near(c, R) or near(dd, R) or near(gg, R):
        raise Skip("bin at the cut of the filters")
    nm = c.calculateNMap(rg=rg, **a)
    xi, xi_im, var = c.copy().calculateXi(rg=rg)
    K = kern(c, R, lambda s: Tx(s, u))
    Q = gross(c, R, u)
    cmp.close("nmap", nm[0], K @ xi, 1e-9, (np.abs(K) + Q) @ np.abs(xi) + 1e-30)
    cmp.close("nmx", nm[1], K @ xi_im, 1e-9, (np.abs(K) + Q) @ np.abs(xi_im) + 1e-30)
    cmp.close("varnmap", nm[2], K ** 2 @ var, 1e-8, 1e-30 + 1e8 * (((np.abs(K) + 1e-9 * Q) ** 2 - K ** 2) @ var))
    columns(case, ctx, lambda fn, **k: c.writeNMap(fn, rg=rg, **a, **k), dict(R=R, NMap=nm[0], NMx=nm[1], sig_nmap=np.sqrt(nm[2])))
    ns = dd.calculateNapSq(rr=rr, **x, **a)
    dx, dvar = dd.copy().calculateXi(rr=rr, **x)
    K = kern(dd, R, lambda s: Tp(s, u))
    Q = gross(dd, R, u)
    cmp.close("napsq", ns[0], K @ dx, 1e-9, (np.abs(K) + Q) @ np.abs(dx) + 1e-30)
    cmp.close("varnapsq", ns[1], K ** 2 @ dvar, 1e-8, 1e-30 + 1e8 * (((np.abs(K) + 1e-9 * Q) ** 2 - K ** 2) @ dvar))
    ctx.tag(case["geo"]["coords"], u, case["form"], case["fmt"], "rg" if rg else "no-rg", case["rd"] or "rr", "R" if case["R"] else "default R")
    if not (np.abs(nm[0]) > 0).any():
        ctx.trivial("zero")
    y = {k: v for k, v in x.items() if k == "dr"}
    ns = dd.calculateNapSq(rr=rr, **y, **dict(a, R=R))
    ms = gg.calculateMapSq(**dict(a, R=R))
    with np.errstate(all="ignore"):
        if not (np.abs(ns[0]) > 1e-8 * (np.abs(K) @ np.abs(dx))).all() or not (np.abs(ms[0]) > 1e-50).all() or not (np.abs(nm[0]) > 1e-50).all() or not (np.abs(ns[0]) > 1e-50).all():
            return
        r1, r2 = nm[0] ** 2 / (ns[0] * ms[0]), ns[0] / ms[0]
        v1 = r1 ** 2 * (4 * nm[2] / nm[0] ** 2 + ns[1] / ns[0] ** 2 + ms[4] / ms[0] ** 2)
        v2 = r2 ** 2 * (ns[1] / ns[0] ** 2 + ms[4] / ms[0] ** 2)
    ctx.tag("norm")
    case = dict(case, prec=8)           # (ratios)
    columns(case, ctx, lambda fn, **k: c.writeNorm(fn, gg=gg, dd=dd, rr=rr, rg=rg, **y, **dict(a, R=R), **k), dict(
        R=R, NMap=nm[0], NMx=nm[1], sig_nmap=np.sqrt(nm[2]), Napsq=ns[0], sig_napsq=np.sqrt(ns[1]), Mapsq=ms[0], sig_mapsq=np.sqrt(ms[4]),
        NMap_norm=r1, sig_norm=np.sqrt(v1), Nsq_Mapsq=r2, sig_nn_mm=np.sqrt(v2)) if case["fmt"] == "ASCII" else dict(R=R, NMap=nm[0]))


# ------------------------------------------------------------------ third order
ggg_spec = st.fixed_dictionaries(dict(bt=st.sampled_from(["LogRUV", "LogSAS"]), nu=st.integers(1, 4), nv=st.integers(1, 3), R=st.one_of(st.none(), RF),
                                      k2=st.sampled_from([1, 1, 0.5, 2, 1.37]), k3=st.sampled_from([1, 1, 0.5, 2.3]), phi=st.sampled_from([None, "deg"]),
                                      fmt=st.sampled_from(["ASCII", "ASCII", "FITS", "HDF"]), prec=st.sampled_from([None, 8])))
ggg_strat = tri.strat(9, 3, ggg_spec, types=["GGG"], metrics=("Euclidean",))
GH = np.polynomial.hermite.hermgauss(6)


def aperture(x, R, sgn):
    """int d^2c prod_i W_i(x_i - c), W(z) = -conj(z)^2/(4 pi R^4) exp(-z^2/2R^2) (or its conjugate where sgn=-1).
    x: (3, ...) complex positions.  Returns the value and the scale of its terms."""
    A = sum(1 / r ** 2 for r in R)
    mu = sum(x[i] / R[i] ** 2 for i in range(3)) / A
    e = np.exp(-0.5 * sum(np.abs(x[i] - mu) ** 2 / R[i] ** 2 for i in range(3)))
    out, mag = 0., 0.
    for a, wa in zip(*GH):
        for b, wb in zip(*GH):
            c = mu + (a + 1j * b) * np.sqrt(2 / A)
            p = wa * wb * (2 / A)
            for i in range(3):
                z = x[i] - c
                p = p * (np.conj(z) ** 2 if sgn[i] > 0 else z ** 2) * (-1 / (4 * np.pi * R[i] ** 4))
            out = out + p
            mag = mag + np.abs(p)
    return out * e, mag * e


def ggg(case, ctx):
    import treecorr
    s = case["spec"]
    bt = s["bt"]
    case = dict(case, mode="slop0angle" if case["mode"] != "brute" else "brute")
    sk = dict(nubins=s["nu"], nvbins=s["nv"]) if bt == "LogRUV" else dict(nphi_bins=s["nu"])
    pu = 1.
    if bt == "LogSAS" and s["phi"]:
        sk["phi_units"] = s["phi"]; pu = np.pi / 180
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, sk, bt)
    tri.process(c, cats, case["ordered"], algo="triangle")
    a = {}
    R = c.rnom1d
    if s["R"] is not None:
        R = a["R"] = np.array(s["R"]) * mx / su
    k = (1., s["k2"], s["k3"])
    f = lambda z: np.asarray(z).ravel()
    d1, d2, d3 = f(c.meand1), f(c.meand2), f(c.meand3)
    ok = np.ones(len(d2), bool)
    if bt == "LogRUV":
        u, v = f(c.meanu), f(c.meanv)
        cosa = 0.5 * u * (1 - v ** 2) - np.abs(v)
        ok = np.abs(cosa) < 1
        if (np.abs(np.abs(cosa) - 1) < 1e-12).any():
            raise Skip("flat triangle within rounding")
        sina = np.sqrt(np.maximum(1 - cosa ** 2, 0)) * np.where(v > 0, -1, 1)
        t = d3 * (cosa + 1j * sina)
        dt = np.where(ok, d3 ** 2 * d1 / np.where(ok, np.abs(d3 * sina), 1.), 0.) * c.ubin_size * c.vbin_size
        if (np.abs(sina[ok]) < 1e-4).any():
            raise Skip("nearly flat triangle")      # (the Jacobian diverges)
        perms = list(itertools.permutations(range(3)))
    else:
        t = d3 * np.exp(1j * f(c.meanphi) * pu)
        dt = d3 ** 2 * c.bin_size * c.phi_bin_size
        perms = [(0, 1, 2), (0, 2, 1)]
    vol = 2 * np.pi * d2 ** 2 * c.bin_size * dt
    x = np.array([np.zeros(len(d2)), t, d2])            # vertices 1, 2 (at d3), 3 (at d2)
    q = x - x.mean(axis=0)
    if (np.abs(q) < 1e-6 * d2).any():
        raise Skip("vertex at the centroid")
    ph = (q / np.abs(q)) ** 2
    G = [f(z) for z in (c.gam0, c.gam1, c.gam2, c.gam3)]
    V = [f(z) for z in (c.vargam0, c.vargam1, c.vargam2, c.vargam3)]
    used = np.concatenate(G) != 0
    names = ["map3", "mapmapmx", "mapmxmap", "mxmapmap", "mxmxmap", "mxmapmx", "mapmxmx", "mx3"]
    want = {n: [] for n in names + ["var"]}
    scale = []
    for r in R:
        rad = [r * z for z in k]
        # coefficients of gam_m in <M...> with the conjugate on aperture j (j=0: none)
        coef = {j: [np.zeros(len(d2), complex) for m in range(4)] for j in range(4)}
        mag = [np.zeros(len(d2)) for m in range(4)]
        for p in perms:                 # aperture p[i] is used at vertex i
            for m in range(4):
                sgn = [-1 if i + 1 == m else 1 for i in range(3)]
                F, M = aperture(x, [rad[p[i]] for i in range(3)], sgn)
                for i in range(3):
                    F = F * (ph[i] if sgn[i] > 0 else np.conj(ph[i]))
                j = 0 if m == 0 else p[m - 1] + 1
                coef[j][m] += F * vol
                mag[m] += M * vol
        E = {j: sum(cc @ g for cc, g in zip(coef[j], G)) for j in coef}
        S = sum(np.abs(M) @ np.abs(g) for M, g in zip(mag, G))
        # expand the product of the real (a) and imaginary (x) parts
        full = {(1, 1, 1): E[0], (-1, 1, 1): E[1], (1, -1, 1): E[2], (1, 1, -1): E[3]}
        for key in list(full):
            full[tuple(-z for z in key)] = np.conj(full[key])
        def part(kind):
            tot = 0.
            for key, val in full.items():
                w = val
                for z, kk in zip(key, kind):
                    w = w * (0.5 if kk == "a" else z / 2j)
                tot = tot + w
            return tot
        for n, kind in zip(names, ["aaa", "aax", "axa", "xaa", "xxa", "xax", "axx", "xxx"]):
            z = part(kind)
            want[n].append(z.real)
        want["var"].append(sum(np.abs(sum(coef[j][m] for j in coef)) ** 2 @ V[m] for m in range(4)) / 16)
        scale.append(S)
    out = c.calculateMap3(k2=s["k2"], k3=s["k3"], **a)
    if len(out) != 9:
        fail("calculateMap3 returned %d values" % len(out))
    scale = np.array(scale)
    for n, g in zip(names, out):
        cmp.close(n, g, want[n], 1e-8, scale + 1e-30)
    cmp.close("varmap3", out[8], want["var"], 1e-6, 1e-30)
    ctx.tag(bt, geo["coords"], "k=1" if k == (1., 1, 1) else "k!=1", "units" if su != 1 else "no-units", "phi_units" if pu != 1 else "", s["fmt"], "cats%d" % case["ncat"])
    if not (np.abs(out[0]) > 1e-6 * scale).any():
        ctx.trivial("zero")
    o = c.calculateMap3(**a)
    columns(s, ctx, lambda fn, **kw: c.writeMap3(fn, **a, **kw), dict(R=R, Map3=o[0], Map2Mx=o[1], MapMx2=o[4], Mx3=o[7], sig_map=np.sqrt(o[8])))


SUBS = [
    Sub("gg", gg_strat, gg, quick=1500),
    Sub("ng", ng_strat, ng, quick=1200),
    Sub("ggg", ggg_strat, ggg, quick=1200),
]
