"""C10: patch-based covariance matrices follow their definitions."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp, patchcov, randoms
from core import Sub, Skip, fail

RULE = ("1..3 two-point statistics of catalogs of 2..30 objects in 1..6 patches (one catalog may be unpatched, patches may be empty) are computed; "
        "every row of the design matrix of each method is recomputed by direct summation over the selected pairs of patches, and the covariance "
        "from the documented formula.  Non-trivial: at least 2 patches and a non-zero covariance.")
ASSUMPTIONS = ["auto-correlation pairs between patches i<j belong to the first patch i (sample and marked_bootstrap)",
               "bootstrap selections are those of rng.choice(arange(n), size=n), as for any user passing the same rng"]
TYPES = ["NK", "KK", "NG", "GG", "KG", "ZZ", "NV", "KZ", "VV", "NQ", "TT", "KK", "GG", "NG"]
FUNCS = [None, None, None, "npairs", "weight", "meanr", "im", "complex", "square"]

strat = st.fixed_dictionaries(dict(
    corrs=st.lists(st.fixed_dictionaries(dict(typ=st.sampled_from(TYPES), auto=st.booleans(), pat=st.sampled_from(["both", "both", "both", "first", "second"]),
                                              bins=gen.bins_spec(nbmax=4))), min_size=1, max_size=3),
    c1=gen.cat_spec(30, 2), c2=gen.cat_spec(24, 2), geo=gen.geom(coords=["flat", "flat", "sphere", "3d"]),
    npatch=st.integers(1, 6), pseed=st.integers(0, 999), gap=st.sampled_from([False, False, True]), spatial=st.booleans(),
    method=st.sampled_from(patchcov.METHODS), func=st.sampled_from(FUNCS), nboot=st.integers(2, 8), nbx=st.sampled_from([0, 0, 3, -1]), rseed=st.integers(0, 99), local=st.sampled_from([False, False, False, True]),
    via=st.sampled_from(["estimate", "estimate", "var_method", "again"]),
))


def patches(d, case, k):
    n, npt = d["n"], case["npatch"]
    rs = np.random.RandomState(case["pseed"] + 31 * k)
    if case["spatial"]:
        p = np.argsort(np.argsort(ref2.cart(d)[:, 0], kind="stable"), kind="stable") * npt // n
    else:
        p = rs.randint(0, npt, 64)[:n]
    if case["gap"] and npt > 2:
        p[p == npt // 2] = 0
    return p


def stat(c):
    if hasattr(c, "xip"): return np.concatenate([c.xip.ravel(), c.xim.ravel()])
    return c.xi.ravel()


def make_func(name):
    def im(c, both=True):
        return (np.concatenate([c.xip_im.ravel(), c.xim_im.ravel()]) if both else c.xip_im.ravel()) if hasattr(c, "xip_im") else (c.xi_im.ravel() if hasattr(c, "xi_im") else c.xi.ravel())
    if name is None: return None
    if name == "im": return lambda cs: np.concatenate([im(c) for c in cs])
    if name == "complex": return lambda cs: np.concatenate([c.weight.ravel() + 1j * c.npairs.ravel() for c in cs]) + np.concatenate([im(c, False) for c in cs])
    if name == "square": return lambda cs: np.outer(stat(cs[0]), stat(cs[-1])).ravel() + 3.
    return lambda cs: np.concatenate([getattr(c, name).ravel() for c in cs[::-1]])


class V:
    """Stands for a correlation object in the user functions."""
    def __init__(self, vals):
        self.__dict__.update(vals)


def check(case, ctx):
    import treecorr
    geo = case["geo"]
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    if not (ref2.wts(d1) != 0).any() or not (ref2.wts(d2) != 0).any():
        raise Skip("no live objects")
    n = case["npatch"]
    p1, p2 = patches(d1, case, 0), patches(d2, case, 1)
    m = case["method"]
    corrs, tabs = [], []
    func = case["func"]
    if geo["coords"] == "sphere" and func == "meanr":
        func = "weight"
    for cc in case["corrs"]:
        typ = cc["typ"]
        auto = cc["auto"] and typ[0] == typ[1]
        b = cc["bins"]
        if b["bin_type"] == "TwoD" and geo["coords"] != "flat":
            b = dict(b, bin_type="Log")
        bk = gen.bins_kw(b, geo)
        pat = "both" if auto else cc["pat"]
        if case["local"] and pat == "second": pat = "first"     # the local method goes by the patches of the first catalog
        q1 = p1 if pat in ("both", "first") else None
        q2 = p2 if pat in ("both", "second") else None
        f1, f2 = gen.fields_of(typ)
        def cat(d, f, q):
            kw = gen.catkw(d, f)
            if q is not None and n > 1: kw.update(patch=q, npatch=n)
            return treecorr.Catalog(verbose=0, **kw)
        x = gen.corr_class(typ)(verbose=0, brute=True, rng=np.random.RandomState(case["rseed"]), num_bootstrap=max(2, case["nboot"] + case["nbx"] * len(corrs)), var_method=m, **bk)
        pk = dict(patch_method="local") if case["local"] else {}
        if auto:
            x.process(cat(d1, f1, q1), **pk)
        else:
            x.process(cat(d1, f1, q1), cat(d2, f2, q2), **pk)
        binner = ref2.Binner(b["bin_type"], bk["nbins"], bk.get("min_sep", 0.), bk["max_sep"])
        T = patchcov.Table(typ, d1, q1 if n > 1 else None, None if auto else d2, q2 if n > 1 else None, binner, n, local=case["local"])
        corrs.append(x); tabs.append(T)
        if auto and func == "im" and typ[0] == typ[1] and typ[0] not in "NK":
            func = "weight"     # xip_im of an auto-correlation depends on the order of the objects
    if func == "complex" and any(T.auto and T.typ[0] not in "NK" for T in tabs):
        func = None
    if n == 1:
        # No patches: only the shot noise covariance exists.
        ctx.trivial("one patch")
        for x in corrs:
            try:
                x.estimate_cov(m)
            except ValueError:
                continue
            fail("%s covariance without patches did not raise" % m)
        return
    if any(len(x.results) == 0 for x in corrs):
        for T in tabs:
            if np.any(T.S["npairs"]) and all(len(x.results) == 0 for x in corrs):
                fail("results is empty, but there are pairs")
        raise Skip("no pairs at all")
    F = make_func(func)
    def reference():
        nboot = max(max(2, case["nboot"] + case["nbx"] * i) for i in range(len(corrs)))     # the largest one given
        idx = patchcov.selections(n, nboot, np.random.RandomState(case["rseed"])) if "boot" in m else None
        allrows = [patchcov.rows(m, T.n1, T.n2, index=idx) for T in tabs]
        vs, ws = [], []
        for r in range(len(allrows[0])):
            vals = []
            w = 0.
            for T, rw, x in zip(tabs, allrows, corrs):
                vv = T.values(rw[r], x.rnom, x.logr)
                vals.append(V(vv))
                if func == "meanr" and not vv["weight"].any(): raise Skip("meanr without any pairs")
                w += vv["weight"].sum() * (2 if T.typ[0] not in "NK" else 1)
            vs.append(np.concatenate([stat(c) for c in vals]) if F is None else F(vals))
            ws.append(w)
        return np.array(vs), np.array(ws)
    vref, wref = reference()
    ctx.tag("method=" + m, "func=%s" % func, "ncorr=%d" % len(corrs), "npatch=%d" % n, "local" if case["local"] else "global", *["pat=" + c["pat"] for c in case["corrs"]])
    before = [patchcov.digest(x) for x in corrs]
    via = case["via"]
    reset = lambda: [x.rng.seed(case["rseed"]) for x in corrs]
    sc = max(1., np.abs(vref).max())
    reset()
    if len(corrs) == 1:
        v, w = corrs[0].build_cov_design_matrix(m, func=None if F is None else (lambda c: F([c])))
    else:
        v, w = treecorr.build_multi_cov_design_matrix(corrs, m, func=F)
    cmp.close("design matrix", v, vref, 1e-9, sc)
    cmp.close("design weights", w, wref, 1e-9, 0.)
    reset()
    empty = bool(np.any(wref == 0))
    def est():
        if via == "var_method" and len(corrs) == 1 and F is None:
            x = corrs[0]
            c = x.cov
            if not np.array_equal(x.cov_diag, np.diagonal(c)): fail("cov_diag is not the diagonal of cov")
            return c
        if len(corrs) == 1:
            return corrs[0].estimate_cov(m, func=None if F is None else (lambda c: F([c])))
        return treecorr.estimate_multi_cov(corrs, m, func=F)
    if m == "sample" and empty:
        try:
            est()
        except RuntimeError:
            ctx.tag("sample with an empty patch refused")
            return
        fail("sample covariance with an empty patch did not raise RuntimeError")
    C = est()
    cref = patchcov.covariance(m, vref, wref)
    if C.shape != cref.shape: fail("covariance has shape %s, data vector %d" % (C.shape, vref.shape[1]))
    cmp.close("covariance", C, cref, 1e-7, sc ** 2 * 1e-3)
    if not np.allclose(C, C.conj().T, rtol=1e-12, atol=1e-14 * sc ** 2): fail("covariance is not symmetric")
    ev = np.linalg.eigvalsh((C + C.conj().T) / 2)
    if ev.min() < -1e-10 * max(ev.max(), sc ** 2 * 1e-3): fail("covariance has a negative eigenvalue %s" % ev)
    if via == "again":
        reset()
        C2 = est()
        if not np.array_equal(C, C2): fail("a second estimate differs")
    after = [patchcov.digest(x) for x in corrs]
    for a, b in zip(before, after):
        patchcov.same(a, b)
    if not np.abs(cref).max(initial=0.) > 1e-12 * sc ** 2:
        ctx.trivial("zero covariance")
    # variances reported by default
    if len(corrs) == 1 and F is None and corrs[0]._var_num != 0:
        reset()
        corrs[0]._cov = None
        nk = corrs[0].weight.size
        for a, s in (("varxi", slice(0, nk)), ("varxip", slice(0, nk)), ("varxim", slice(nk, 2 * nk))):
            if hasattr(corrs[0], a):
                reset()
                cmp.close(a, getattr(corrs[0], a).ravel(), np.diagonal(cref)[s].real, 1e-7, sc ** 2 * 1e-3)
                corrs[0]._cov = None


SUBS = [Sub("fields", strat, check, quick=2500), Sub("randoms", randoms.strat_cov, randoms.check_cov, quick=1500)]
