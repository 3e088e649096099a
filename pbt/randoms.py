"""Correlations with random catalogs: reference values and reference covariances (used by C10 and C12)."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp, patchcov
from core import Skip, fail

NX = ["NK", "NZ", "NV", "NG", "NT", "NQ"]

strat = st.fixed_dictionaries(dict(
    typ=st.sampled_from(["NN", "NN", "NN", "NN"] + NX), auto=st.booleans(), combo=st.sampled_from(["rr", "rr,dr", "rr,rd", "rr,dr,rd"]),
    c1=gen.cat_spec(20, 2), c2=gen.cat_spec(16, 2), r1=gen.cat_spec(30, 2), r2=gen.cat_spec(24, 2), f=st.sampled_from([0.25, 1, 2, 7.5]),
    geo=gen.geom(coords=["flat", "flat", "sphere", "3d"]), bins=gen.bins_spec(nbmax=4), npatch=st.integers(1, 5), pseed=st.integers(0, 999),
    spatial=st.booleans(), gap=st.sampled_from([False, False, False, True]), pat=st.sampled_from(["both", "both", "both", "first", "second"]),
    rpat=st.sampled_from(["same", "same", "none"]), method=st.sampled_from(["shot"] + patchcov.METHODS), nboot=st.integers(2, 6), rseed=st.integers(0, 99),
    again=st.booleans(), func=st.sampled_from([None, None, None, "im", "npairs"]),
))

strat_cov = strat.map(lambda c: dict(c, method=c["method"] if c["method"] != "shot" else "jackknife", npatch=c["npatch"] + 1))


def setup(case):
    geo = case["geo"]
    ds = {k: gen.make(case[s], geo) for k, s in (("d1", "c1"), ("d2", "c2"), ("r1", "r1"), ("r2", "r2"))}
    for k in ("r1", "r2"):
        if case["f"] != 1:
            ds[k]["w"] = ref2.wts(ds[k]) * case["f"]
    if any(not (ref2.wts(d) != 0).any() for d in ds.values()):
        raise Skip("no live objects")
    return geo, ds


def patch_of(d, case, k):
    n, npt = d["n"], case["npatch"]
    rs = np.random.RandomState(case["pseed"] + 31 * k)
    if case["spatial"]:
        x = ref2.cart(d)[:, 0]
        p = np.argsort(np.argsort(x, kind="stable"), kind="stable") * npt // n
    else:
        p = rs.randint(0, npt, 64)[:n]
    if case["gap"] and npt > 2:
        p[p == npt // 2] = 0
    return p


class Run:
    """Builds everything through the public interface."""

    def __init__(self, case, patched=True, var_method=None):
        import treecorr
        self.case = case
        geo, ds = setup(case)
        self.geo, self.ds = geo, ds
        typ = self.typ = case["typ"]
        auto = self.auto = case["auto"] and typ == "NN"
        b = case["bins"]
        if b["bin_type"] == "TwoD" and geo["coords"] != "flat":
            b = dict(b, bin_type="Log")
        bk = gen.bins_kw(b, geo)
        self.binner = ref2.Binner(b["bin_type"], bk["nbins"], bk.get("min_sep", 0.), bk["max_sep"])
        n = self.n = case["npatch"] if patched else 1
        pat = "both" if auto else case["pat"]
        self.pats = {}
        for i, k in enumerate(("d1", "d2", "r1", "r2")):
            on = n > 1 and (pat == "both" or pat == ("first" if k[1] == "1" else "second")) and (k[0] == "d" or case["rpat"] == "same")
            self.pats[k] = patch_of(ds[k], case, i) if on else None
        f2 = gen.fields_of(typ)[1]
        def cat(k):
            kw = gen.catkw(ds[k], f2 if k == "d2" and typ != "NN" else "")
            if self.pats[k] is not None: kw.update(patch=self.pats[k], npatch=n)
            return treecorr.Catalog(verbose=0, **kw)
        self.cats = {k: cat(k) for k in ds}
        def corr(a, b=None):
            x = gen.corr_class(typ)(verbose=0, brute=True, rng=np.random.RandomState(case["rseed"]), num_bootstrap=case["nboot"],
                                    **(dict(var_method=var_method) if var_method else {}), **bk)
            x.process(*([self.cats[a]] + ([] if b is None else [self.cats[b]])))
            return x
        T = lambda a, b=None: patchcov.Table(typ, ds[a], self.pats[a], None if b is None else ds[b], None if b is None else self.pats[b], self.binner, n)
        self.x, self.t = {}, {}
        if typ == "NN":
            pairs = dict(dd=("d1",) if auto else ("d1", "d2"), rr=("r1",) if auto else ("r1", "r2"), dr=("d1", "r1" if auto else "r2"), rd=("r1", "d1" if auto else "d2"))
            use = ["dd"] + case["combo"].split(",")
        else:
            pairs = dict(dd=("d1", "d2"), rr=("r1", "d2"))
            use = ["dd", "rr"]
        for u in use:
            self.x[u] = corr(*pairs[u])
            self.t[u] = T(*pairs[u])
        self.use = use
        T = self.t["dd"]
        if "rd" in use and (T.n1, T.n2) != (1, 1) and (self.t["rd"].n1, self.t["rd"].n2) == (1, 1): raise Skip("rd without patches is refused")
        if "dr" in use and (T.n1, T.n2) != (1, 1) and (self.t["dr"].n1, self.t["dr"].n2) == (1, 1): raise Skip("dr without patches is refused")

    def calculate(self):
        x = self.x
        if self.typ == "NN":
            return x["dd"].calculateXi(**{u: x[u] for u in self.use[1:]})
        kw = {"NK": "rk", "NG": "rg", "NV": "rv", "NT": "rt", "NQ": "rq", "NZ": "rz"}[self.typ]
        return x["dd"].calculateXi(**{kw: x["rr"]})

    # ---- reference
    def stat(self, M=None):
        """The statistic for the multiplicities M of the pairs of patches of the data (None: everything)."""
        t = self.t
        T = t["dd"]
        if M is None: M = np.ones((T.n1, T.n2))
        x = self.x["dd"]
        V = T.values(M, x.rnom, x.logr)
        diag = (M[:, 0] if T.n2 == 1 else M[0] if T.n1 == 1 else np.diagonal(M))    # multiplicity of each patch
        def of(R):
            """Sums for R selected as the data."""
            if (R.n1, R.n2) == (T.n1, T.n2): return R, M
            if (R.n1, R.n2) == (1, 1): return R, np.ones((1, 1))
            if R.n2 == 1: return R, diag[:, None]
            return R, diag[None, :]
        if self.typ != "NN":
            R, MR = of(t["rr"])
            U = R.values(MR, x.rnom, x.logr)
            for nm in T.xn: V["raw_" + nm] = V[nm]; V[nm] = V[nm] - U[nm]
            V["stat"] = V["xi"]
            V["w"] = V["weight"].sum()
            return V
        W = dict(dd=V["weight"])
        rr, MR = of(t["rr"])
        dd_tot = V["tot"]
        if (rr.n1, rr.n2) == (1, 1) and max(T.n1, T.n2) > 1:
            # The randoms are scaled to the area covered by the selected data.
            if T.n1 == T.n2:
                q = np.sqrt(np.diagonal(T.tot))
                if q.sum() == 0: raise Skip("no patch in common")
                frac = (diag * q).sum() / q.sum()
            else:
                q = T.tot.ravel()
                frac = (diag * q).sum() / q.sum()
            dd_tot = T.tot.sum() * frac
        s = {}
        for u in self.use[1:]:
            R, MM = of(t[u])
            A = R.total(MM)
            if A["tot"] == 0: raise Skip("a selection without random pairs")
            s[u] = A["weight"] * dd_tot / A["tot"]
        rr = s["rr"]
        if "dr" in s and "rd" in s: num = W["dd"] - s["dr"] - s["rd"] + rr
        elif "dr" in s: num = W["dd"] - 2 * s["dr"] + rr
        elif "rd" in s: num = W["dd"] - 2 * s["rd"] + rr
        else: num = W["dd"] - rr
        V["xi"] = num / np.where(rr == 0, 1., rr)
        # The result is only defined where there are random pairs.
        V["undef"] = rr == 0
        V["scale"] = (W["dd"] + rr + sum(s.values())) / np.where(rr == 0, 1., rr)
        V["stat"] = V["xi"]
        V["w"] = np.where(rr == 0, 1., rr).sum()    # an empty bin of RR counts as 1
        V["rr"] = rr
        return V


FUNCS = {None: None, "im": lambda c: c.xi_im.ravel(), "npairs": lambda c: c.npairs.ravel()}


def check_cov(case, ctx):
    m = case["method"]
    if m == "shot" or case["npatch"] == 1:
        raise Skip("no patches")
    R = Run(case, var_method=m)
    x = R.x["dd"]
    if R.pats["d1"] is None and R.pats["d2"] is None: raise Skip("no patches")
    T = R.t["dd"]
    if any(not t.S["npairs"].any() and R.typ != "NN" for t in R.t.values()):
        raise Skip("no pairs")
    if case["gap"] and case["rpat"] == "none": raise Skip("unpatched randoms and an empty patch")
    live = [set(np.unique(R.pats[k][ref2.wts(R.ds[k]) != 0])) for k in R.pats if R.pats[k] is not None]
    uneven = any(l != set(range(R.n)) for l in live)
    if case["rpat"] == "none" and T.n1 == T.n2 and not np.diagonal(T.has).all():
        raise Skip("unpatched randoms with patches missing in the data")
    func = case["func"]
    if func == "im" and R.typ in ("NN", "NK"): func = None
    F = FUNCS[func]
    n = R.n
    idx = patchcov.selections(n, case["nboot"], np.random.RandomState(case["rseed"])) if "boot" in m else None
    rows = patchcov.rows(m, T.n1, T.n2, index=idx)
    if R.typ != "NN" and case["rpat"] == "none" and not all((M * T.has).any() for M in rows): raise Skip("unpatched randoms and a row without data")
    V = [R.stat(M) for M in rows]
    wref = np.array([v["w"] for v in V])
    nm = {None: "xi", "im": "xi_im", "npairs": "npairs"}[func]
    vref = np.array([v[nm] for v in V])
    sc = max(1., np.abs(vref).max())
    if R.typ == "NN" and func is None:
        sc = max(sc, max(v["scale"].max() for v in V))
        if uneven and any(v["undef"].any() for v in V): pass
    raw = None
    if m == "sample" and np.any(wref == 0):
        try:
            R.calculate()
            if R.typ == "NN" or x.xi is not None: x.estimate_cov(m)
        except RuntimeError:
            ctx.tag("sample refused")
            return
        fail("sample covariance with an empty patch did not raise RuntimeError")
    dig = {u: patchcov.digest(c) for u, c in R.x.items() if u != "dd"}
    if R.typ != "NN" and case["again"]:
        raw = np.array(x.raw_varxi)
    R.calculate()
    for u in dig:
        patchcov.same(dig[u], patchcov.digest(R.x[u]), u + ": ")
    ctx.tag("typ=" + R.typ, "method=" + m, "npatch=%d" % n, "rpat=" + case["rpat"], "pat=" + case["pat"], "func=%s" % func, case["combo"] if R.typ == "NN" else "")
    x.rng.seed(case["rseed"])
    v, w = x.build_cov_design_matrix(m, func=F)
    ok = np.ones(vref.shape, bool)
    if R.typ == "NN" and func is None:
        ok = ~np.array([q["undef"] for q in V])     # only where there are random pairs
    cmp.close("design matrix", np.where(ok, v, 0), np.where(ok, vref, 0), 1e-9, sc)
    cmp.close("design weights", w, wref, 1e-9, 0.)
    x.rng.seed(case["rseed"])
    C = x.estimate_cov(m, func=F)
    cref = patchcov.covariance(m, vref, wref)
    good = ok.all(axis=0)
    cmp.close("covariance", C[np.ix_(good, good)], cref[np.ix_(good, good)], 1e-7, 1e-3 * sc ** 2)
    if np.abs(cref[np.ix_(good, good)]).max(initial=0.) < 1e-12 * sc ** 2: ctx.trivial("zero covariance")
    # the reported variance: made by calculateXi with the same generator
    R2 = Run(case, var_method=m)
    R2.calculate()
    y = R2.x["dd"]
    if func is None:
        cmp.close("varxi", y.varxi.ravel()[good], np.diagonal(cref)[good], 1e-7, 1e-3 * sc ** 2)
        cmp.close("cov", y.cov[np.ix_(good, good)], cref[np.ix_(good, good)], 1e-7, 1e-3 * sc ** 2)
