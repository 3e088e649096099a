"""C12: estimators with random catalogs combine the raw sums as documented."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp, patchcov, randoms
from core import Sub, Skip, fail

RULE = ("Data and random catalogs of different sizes and weights, an estimator (simple, compensated with dr or rd, Landy-Szalay; compensated lens-field), "
        "auto or cross, with or without patches in data and randoms; values, variances and resampled covariances are compared with the formulas applied "
        "to direct sums.  Non-trivial: data and random pairs in a common bin / a non-zero covariance.")
ASSUMPTIONS = ["bins without random pairs are outside the domain of the estimators", "with unpatched randoms the random counts of a resampling are scaled to its share of the "
               "data's patches, as the comments in the code specify"]


def values(case, ctx):
    R = randoms.Run(case)
    x = R.x["dd"]
    if R.typ != "NN" and case["method"] != "shot": pass
    if any(len(c.results) == 0 for c in R.x.values()) and R.n > 1 and R.typ != "NN":
        raise Skip("no pairs")
    dig = {u: patchcov.digest(c) for u, c in R.x.items()}
    before_raw = None
    if R.typ != "NN" and case["again"]:
        before_raw = np.array(x.raw_varxi)
    out = R.calculate()
    for u in dig:
        if u != "dd": patchcov.same(dig[u], patchcov.digest(R.x[u]), u + ": ")
    V = R.stat()
    ctx.tag("typ=" + R.typ, "auto" if R.auto else "cross", case["combo"] if R.typ == "NN" else "", "npatch=%d" % R.n, "rpat=" + case["rpat"], "pat=" + case["pat"])
    # The sums of the data are left alone.
    for a in ("npairs", "weight", "meanr", "meanlogr"):
        if not np.array_equal(dig["dd"][a], getattr(x, a)): fail("%s of the data was modified" % a)
    if R.typ == "NN":
        good = ~V["undef"]
        xi, varxi = out
        cmp.close("xi", xi.ravel()[good], V["xi"][good], 1e-9, V["scale"][good])
        if not np.array_equal(xi, x.xi) or not np.array_equal(varxi, x.varxi): fail("returned values differ from the attributes")
        # Variance: mean weight per pair, scaled by the contributions of each random correlation.
        T = {u: t.total(np.ones((t.n1, t.n2))) for u, t in R.t.items()}
        mw = {}
        for u, t in T.items():
            mw[u] = 1. if t["npairs"].sum() == 0 else t["weight"].mean() / t["npairs"].mean()
        f = lambda u: T["dd"]["tot"] / T[u]["tot"] * mw[u] / mw["dd"]
        fac = 1 + f("rr")
        if "dr" in R.use and "rd" in R.use: fac += f("dr") + f("rd")
        elif "dr" in R.use: fac += 2 * f("dr")
        elif "rd" in R.use: fac += 2 * f("rd")
        want = mw["dd"] * fac ** 2 / np.where(V["undef"], 1., V["rr"])
        cmp.close("varxi", varxi.ravel()[good], want[good], 1e-9)
        if not (varxi.ravel()[~good] == 0).all(): fail("varxi without random pairs is %s" % varxi.ravel()[~good])
        if not np.allclose(x.getWeight(), V["rr"], rtol=1e-9): fail("getWeight is not the scaled rr")
        if not (good & (V["npairs"] > 0)).any(): ctx.trivial("no common bin")
    else:
        # where one of the two has no pairs, its own value is zero
        names = R.t["dd"].xn
        for nm, got in zip(names, out):
            cmp.close(nm, got.ravel(), V[nm], 1e-9, 2.)
            cmp.close("raw_" + nm, getattr(x, "raw_" + nm).ravel(), V["raw_" + nm], 1e-9, 2.)
            if not np.array_equal(got, getattr(x, nm)): fail("returned %s differs from the attribute" % nm)
        varf = (R.cats["d2"].vark if R.typ == "NK" else getattr(R.cats["d2"], "var" + R.typ[1].lower()))
        W = V["weight"]
        rw = R.t["rr"].total(np.ones((R.t["rr"].n1, R.t["rr"].n2)))["weight"]
        raw = np.where(W > 0, varf / np.where(W > 0, W, 1), 0.)
        want = raw + np.where(rw > 0, varf / np.where(rw > 0, rw, 1), 0.)
        cmp.close("varxi", out[-1].ravel(), want, 1e-6, None)
        cmp.close("attribute varxi", x.varxi.ravel(), want, 1e-6, None)
        cmp.close("raw_varxi", x.raw_varxi.ravel(), raw, 1e-6, None)
        if not ((W > 0) & (rw > 0)).any(): ctx.trivial("no common bin")
        # calling it again without randoms gives the raw values back
        out = x.calculateXi()
        for nm, got in zip(names, out):
            cmp.close("uncompensated " + nm, got.ravel(), V["raw_" + nm], 1e-9, 2.)
        cmp.close("uncompensated varxi", out[-1].ravel(), raw, 1e-6, None)
        cmp.close("uncompensated cov", x.cov_diag, raw, 1e-6, None)
        out = R.calculate()
        for nm, got in zip(names, out):
            cmp.close("compensated again " + nm, got.ravel(), V[nm], 1e-9, 2.)
        cmp.close("varxi again", out[-1].ravel(), want, 1e-6, None)
    if case["again"] and R.typ == "NN":
        o2 = R.calculate()
        if not np.array_equal(o2[0], out[0]) or not np.array_equal(o2[1], out[1]): fail("a second call gives different values")


SUBS = [Sub("values", randoms.strat, values, quick=2500), Sub("cov", randoms.strat_cov, randoms.check_cov, quick=2000)]
