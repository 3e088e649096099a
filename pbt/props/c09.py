"""C09: distributing the patches over communicating processes gives the single-process result."""
import os
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp, mockmpi
from core import Sub, Skip, fail

RULE = ("A 2- or 3-point correlation with 1..9 patches in one or several of the catalogs is run on 1..6 ranks (threads exchanging pickled "
        "messages, each with its own catalogs) and compared with one process: sums, per-patch results, variance and patch covariances.  "
        "Non-trivial: at least two ranks, two patches and a counted pair or triangle.")
ASSUMPTIONS = ["ranks are threads with their own catalogs and pickled messages, not MPI processes"]
T2 = ["NN", "NN", "NK", "KK", "NG", "GG", "KG", "ZZ", "VV"]

base = dict(
    nproc=st.integers(1, 6), npatch=st.integers(1, 9), gap=st.booleans(), pseed=st.integers(0, 999), geo=gen.geom(coords=["flat", "flat", "sphere", "3d"]),
    bins=gen.bins_spec(bin_types=["Log", "Linear", "TwoD"], nbmax=3), low=st.sampled_from([False, False, True, "disk"]), local=st.sampled_from([False, False, True]),
    pat=st.sampled_from(["all", "all", "first", "second", "third"]), lists=st.sampled_from([False, False, True]), spatial=st.booleans(),
    cov=st.sampled_from([None, "jackknife", "sample", "bootstrap", "marked_bootstrap"]),
)
strat2 = st.fixed_dictionaries(dict(base, typ=st.sampled_from(T2), ncat=st.integers(1, 2), c1=gen.cat_spec(30, 2), c2=gen.cat_spec(30, 2)))
strat3 = st.fixed_dictionaries(dict(base, typ=st.sampled_from(["NNN", "KKK", "GGG"]), ncat=st.integers(1, 3), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole", "LogSAS"]),
                                    ordered=st.booleans(), algo=st.sampled_from(["triangle", "triangle", "multipole"]), npatch=st.integers(1, 6),
                                    c1=gen.cat_spec(14, 3), c2=gen.cat_spec(10, 3), c3=gen.cat_spec(8, 3)))


def make_cats(case, ds, fields, tmp, rank):
    """Fresh catalogs for one rank."""
    import treecorr
    out = []
    for i, (d, f) in enumerate(zip(ds, fields)):
        kw = gen.catkw(d, f)
        kw["verbose"] = 0
        n = d["n"]
        np_ = case["npatch"]
        pat = case["pat"]
        patched = np_ > 1 and (pat == "all" or pat == ["first", "second", "third"][i])
        if patched:
            rs = np.random.RandomState(case["pseed"] + i)
            if case["spatial"]:
                p = np.argsort(np.argsort(ref2.cart(d)[:, 0], kind="stable"), kind="stable") * np_ // n
            else:
                p = rs.randint(0, np_, n)
            if case["gap"] and np_ > 2:
                p[p == np_ // 2] = 0
            if case["lists"]:
                cl = []
                for j in range(np_):
                    s = p == j
                    if s.any() and (ref2.wts(d)[s] != 0).any():
                        cl.append(treecorr.Catalog(**{k: (v[s] if isinstance(v, np.ndarray) else v) for k, v in kw.items()}))
                out.append(cl)
                continue
            if case["low"] == "disk":
                kw["save_patch_dir"] = os.path.join(tmp, "c%d_r%s" % (i, rank))
                os.makedirs(kw["save_patch_dir"], exist_ok=True)
            out.append(treecorr.Catalog(patch=p, npatch=np_, **kw))
        else:
            out.append(treecorr.Catalog(**kw))
    return out


def nof(c):
    return len(c) if isinstance(c, list) else c.npatch


def arrays(x):
    skip = ("_cov", "_zero_array", "_ok")
    if getattr(x, "bin_type", "") in ("LogSAS", "LogMultipole"):
        skip += ("meanv",)      # only meaningful for LogRUV
    return {k: v for k, v in x.__dict__.items() if isinstance(v, np.ndarray) and k not in skip}


def compare(name, a, b, exact=False):
    A, B = arrays(a), arrays(b)
    for k in B:
        if k == "_cov": continue
        if k not in A:
            fail("%s: %s missing" % (name, k))
        if exact:
            if not np.array_equal(A[k], B[k], equal_nan=True):
                fail("%s: %s differs: %s vs %s" % (name, k, A[k].ravel()[:6], B[k].ravel()[:6]))
        else:
            # sums of fields (at most ~1.5) times weights may cancel
            sc = np.nanmax(np.abs(B[k])) if B[k].size and np.isfinite(B[k]).any() else 1.
            sc = max(sc, np.abs(b.weight).max(initial=0.), 1.)
            if not np.allclose(A[k], B[k], rtol=1e-9, atol=1e-11 * sc, equal_nan=True):
                bad = ~np.isclose(A[k], B[k], rtol=1e-9, atol=1e-11 * sc, equal_nan=True)
                fail("%s: %s differs: %s vs %s" % (name, k, A[k][bad][:6], B[k][bad][:6]))
    for k in ("tot",):
        if hasattr(b, k) and not np.isclose(getattr(a, k), getattr(b, k), rtol=1e-12):
            fail("%s: %s is %s, expected %s" % (name, k, getattr(a, k), getattr(b, k)))


def execute(case, ctx, cls, kw, ds, fields, pkw, three):
    tmp = ctx.tmp()
    low = bool(case["low"])

    def one(rank, comm):
        cats = make_cats(case, ds, fields, tmp, rank)
        x = cls(**kw, rng=np.random.RandomState(77), num_bootstrap=7)
        x.process(*cats, comm=comm, low_mem=low, **pkw)
        return x

    cats = make_cats(case, ds, fields, tmp, "s")
    ns = [nof(c) for c in cats]
    if any(n == 0 for n in ns):
        raise Skip("no live objects")
    mult = [n for n in ns if n > 1]
    if len(set(mult)) > 1:
        raise Skip("different numbers of patches are refused")
    if not mult:
        ctx.trivial("unpatched")
    ref = one("s", None)
    if not ref.nonzero:
        ctx.trivial("nothing counted")
    size = case["nproc"]
    if size == 1:
        ctx.trivial("one rank")
    outs, w = mockmpi.run(size, one)
    x = outs[0]
    ctx.tag(case["typ"], "ranks=%d" % size, "ncat=%d" % len(cats), "low=%s" % case["low"], "local" if case["local"] else "global", "pat=" + case["pat"])
    if three or True:
        # bins with only rounding noise in the weight have undefined means
        W = np.abs(ref.weight)
        if (W[W > 0] < 1e-9 * W.max(initial=0.)).any():
            raise Skip("cancelling weights")
    compare("root", x, ref)
    if set(x.results) != set(ref.results):
        fail("root has the patch results %s, a single process has %s" % (sorted(set(x.results) - set(ref.results)), sorted(set(ref.results) - set(x.results))))
    for k in ref.results:
        compare("result %s" % (k,), x.results[k], ref.results[k])
    for a in ("npatch1", "npatch2", "npatch3", "coords", "metric"):
        if getattr(x, a, None) != getattr(ref, a, None):
            fail("%s is %s, expected %s" % (a, getattr(x, a, None), getattr(ref, a, None)))
    for a in ("varxi", "varxip", "varzeta", "vargam0"):
        if hasattr(ref, a) and case["typ"] not in ("NN", "NNN"):
            cmp.close(a, getattr(x, a), getattr(ref, a), 1e-9)
    m = case["cov"]
    if m and mult and case["typ"] not in ("NN", "NNN"):
        def est(c, comm=None):
            try:
                return c.estimate_cov(m, comm=comm)
            except (RuntimeError, ValueError) as e:     # sample with an empty patch; no results at all
                return type(e).__name__
        want = est(ref)
        ctx.tag("cov=" + m)
        # All processes have the same inputs for the covariance.
        import pickle
        same = [pickle.loads(pickle.dumps(x)) for _ in range(size)]
        for c in same:
            c.__dict__["_ro"].__dict__["rng"] = np.random.RandomState(77) if hasattr(c, "_ro") else None
        got, w = mockmpi.run(size, lambda r, comm: est(same[r], comm))
        for r in range(size):
            if isinstance(want, str) or isinstance(got[r], str):
                if not (isinstance(want, str) and isinstance(got[r], str) and want == got[r]):
                    fail("covariance %s on rank %d: %s vs %s" % (m, r, got[r], want))
                continue
            sc = np.abs(want).max(initial=0.)
            if not np.allclose(got[r], want, rtol=1e-7, atol=1e-9 * sc + 1e-18, equal_nan=True):
                fail("covariance %s on rank %d of %d differs: %s vs %s" % (m, r, size, got[r].ravel()[:5], want.ravel()[:5]))


def run2(case, ctx):
    typ = case["typ"]
    ncat = case["ncat"] if typ[0] == typ[1] else 2
    geo = case["geo"]
    ds = [gen.make(case["c%d" % (i + 1)], geo) for i in range(ncat)]
    if any(not (ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    b = case["bins"]
    if b["bin_type"] == "TwoD" and geo["coords"] != "flat":
        b = dict(b, bin_type="Log")
    kw = gen.bins_kw(b, geo)
    kw.update(brute=True, verbose=0)
    pkw = dict(patch_method="local" if case["local"] else "global")
    execute(case, ctx, gen.corr_class(typ), kw, ds, gen.fields_of(typ), pkw, False)


def run3(case, ctx):
    import treecorr
    typ = case["typ"]
    geo = case["geo"]
    ncat = case["ncat"]
    ds = [gen.make(case["c%d" % (i + 1)], geo) for i in range(ncat)]
    if any(not (ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    ext = gen.sky_extent(geo)
    mx = min(ext * case["bins"]["fmax"], 1.9 if geo["coords"] == "sphere" else np.inf)
    kw = dict(bin_type=case["bt"], min_sep=0.05 * mx, max_sep=mx, nbins=case["bins"]["nbins"], verbose=0, bin_slop=0)
    if case["bt"] == "LogRUV": kw.update(nubins=2, nvbins=2)
    if case["bt"] == "LogSAS": kw.update(nphi_bins=4)
    if case["bt"] == "LogMultipole": kw.update(max_n=3)
    algo = case["algo"] if case["bt"] != "LogRUV" else "triangle"
    pkw = dict(algo=algo, patch_method="local" if case["local"] or algo == "multipole" or case["bt"] == "LogMultipole" else "global")
    if algo == "multipole" and case["bt"] == "LogSAS":
        pkw["max_n"] = 5
    if ncat > 1:
        pkw["ordered"] = case["ordered"]
    execute(case, ctx, getattr(treecorr, typ + "Correlation"), kw, ds, gen.fields_of(typ), pkw, True)


SUBS = [Sub("two", strat2, run2, quick=2500), Sub("three", strat3, run3, quick=1200)]
