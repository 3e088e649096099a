"""C26: patches, covariances and random estimators of three-point results."""
import os
import numpy as np
from hypothesis import strategies as st
import gen, ref2, ref3, cmp, tri, patchcov
from core import Sub, Skip, fail

RULE = ("patches, patches30: one, two or three catalogs of 1..12 or 30 objects, an arbitrary patch assignment for each (random, spatial, gaps, "
        "one object per patch, centers, lists of catalogs), global or local method, low memory with patches in files; the result is compared with "
        "that of the same objects without patches and with the sum of the saved results.  Non-trivial: at least one triangle and two patches.  "
        "cov: the rows and weights of the design matrix of every patch method, its covariance, build_/estimate_cov, estimate_multi_cov, functions "
        "of the correlations, against a table of the sums of every triple of patches counted directly; non-trivial: a non-zero covariance.  "
        "zeta: calculateZeta from data and randoms (RRR, or RRR, DRR and RDD) against the formula with directly counted triangles, totals and shot "
        "variance; non-trivial: a bin with data and random triangles.  zetacov: the patch covariances of zeta with randoms in the same patches or "
        "in none; non-trivial: a non-zero covariance.")
ASSUMPTIONS = ["two catalogs are only split into the same number of patches, or one of them is not split (others are refused)",
               "every selection of patches has random triangles (zeta is undefined otherwise)",
               "the local method with several catalogs is only used with patches in the first one"]

PM = ["none", "rand", "rand", "spatial", "spatial", "gap", "one", "centers", "list"]
BT = ["LogRUV", "LogRUV", "LogSAS", "LogSAS", "LogMultipole"]


def spec(bt):
    return dict(LogRUV=dict(nubins=2, nvbins=2), LogSAS=dict(nphi_bins=3), LogMultipole=dict(max_n=2))[bt]


def binner(bt, nb, mn, mx):
    return dict(LogRUV=lambda: ref3.RUV(nb, mn, mx, nubins=2, nvbins=2), LogSAS=lambda: ref3.SAS(nb, mn, mx, nphi=3),
                LogMultipole=lambda: ref3.MP(nb, mn, mx, 2))[bt]()


def ids(d, mode, npatch, seed):
    n = d["n"]
    rs = np.random.RandomState(seed)
    if mode == "spatial":
        x = ref2.cart(d)[:, 0]
        return np.argsort(np.argsort(x, kind="stable"), kind="stable") * npatch // n
    if mode == "one":
        return np.arange(n) % npatch
    p = rs.randint(0, npatch, 256)[:n]
    if mode == "gap" and npatch > 2:
        p[p == npatch // 2] = 0
    return p


def build(d, f, mode, npatch, seed, extra):
    """(thing to process, number of patches)"""
    import treecorr
    kw = gen.catkw(d, f, dict(verbose=0))
    if mode == "none" or npatch < 2:
        return treecorr.Catalog(**kw), 1
    kw.update(extra)
    if mode == "centers":
        rs = np.random.RandomState(seed)
        xyz = ref2.cart(d)
        cen = xyz[rs.randint(0, 4096, npatch) % d["n"]]
        if d["coords"] == "rdr":
            cen = gen.unit(cen)
        cen = cen + 0.01 * np.abs(xyz).max() * (rs.random_sample(cen.shape) - 0.5)
        if d["coords"] in ("sphere", "rdr"):
            cen = gen.unit(cen)
        return treecorr.Catalog(patch_centers=cen, **kw), npatch
    p = ids(d, "rand" if mode == "list" else mode, npatch, seed)
    if mode == "list":
        kw.pop("save_patch_dir", None)
        out = []
        for i in range(npatch):
            s = p == i
            if s.any() and (ref2.wts(d)[s] != 0).any():
                out.append(treecorr.Catalog(**{k: (v[s] if isinstance(v, np.ndarray) else v) for k, v in kw.items()}))
        return out, len(out)
    return treecorr.Catalog(patch=p, npatch=npatch, **kw), npatch


def multipole_scale(ds, typ):
    out = 1.
    for d in (ds + [ds[-1]] * 2)[:3]:
        out *= ref2.wts(d).sum() * {"NNN": lambda d: 1., "KKK": lambda d: np.abs(d["k"]).max(), "GGG": lambda d: np.abs(d["g"]).max()}[typ](d)
    return out


def compare(x, y, typ, ds, what, tol=1e-9):
    """Finalized x (with patches) and y (without)"""
    mp = y.bin_type == "LogMultipole"
    tot = np.prod([ref2.wts(d).sum() for d in (ds + [ds[-1]] * 2)[:3]])
    if mp:
        cmp.close("ntri", x.ntri, y.ntri, 1e-12, np.abs(y.ntri).max(initial=0.), what)
        cmp.close("weight", x.weight, y.weight, 1e-8, 1e-2 * tot, what)
    else:
        cmp.eq("ntri", x.ntri, y.ntri, what)
        cmp.close("weight", x.weight, y.weight, 1e-11, np.abs(y.weight).max(initial=0.), what)
    g = (y.ntri > 0)
    if mp:
        # a bin whose weight is all rounding noise has no meaningful mean
        w0 = np.abs(y.weight).max(axis=2)[:, :, None] + np.zeros(y.weight.shape)
        g = g & (w0 > 1e-6 * tot)
    for a in ["meand2", "meand3", "meanlogd2", "meanlogd3"] + ([] if mp else ["meand1", "meanlogd1"]) + {"LogRUV": ["meanu", "meanv"], "LogSAS": ["meanphi"]}.get(y.bin_type, []):
        cmp.close(a, getattr(x, a)[g], getattr(y, a)[g], 1e-6, 1. if "log" in a or a in ("meanv", "meanphi") else None, what)
        if not mp:
            cmp.close(a + " of empty bins", getattr(x, a)[~g], getattr(y, a)[~g], 1e-9, 1. if "log" in a else None, what)
    for a in tri.names(typ):
        if mp:
            cmp.close(a, getattr(x, a), getattr(y, a), 1e-8, 1e-2 * multipole_scale(ds, typ), what)
        else:
            cmp.close(a, getattr(x, a), getattr(y, a), tol, 1., what)
    if typ == "NNN":
        cmp.close("tot", x.tot, y.tot, 1e-11, None, what)
    elif not mp:
        for a in dict(KKK=["varzeta"], GGG=["vargam0", "vargam1", "vargam2", "vargam3"])[typ]:
            cmp.close(a, getattr(x, a), getattr(y, a), 1e-6, None, what)


def strat(nmax):
    return tri.strat(nmax, 1, st.fixed_dictionaries(dict(
        bt=st.sampled_from(BT), pm=st.tuples(*[st.sampled_from(PM)] * 3).map(list), npatch=st.integers(2, 5), pseed=st.integers(0, 500),
        local=st.booleans(), lowmem=st.sampled_from([False, False, True]), save=st.sampled_from([False, False, True]), again=st.booleans())),
        layouts=["uniform", "cluster", "two", "tight"])


def setup(case):
    s = case["spec"]
    bt = s["bt"]
    case = dict(case, mode="brute" if case["mode"] == "brute" else "slop0angle")
    c, cats, ds, geo, metric, period, mn, mx, su = tri.build(case, spec(bt), bt)
    R = ref3.corr3("NNN", ds, binner(bt, case["nbins"], mn, mx), case["ordered"], metric, period, tol=1e-9)
    if R["amb"]:
        raise Skip("ambiguous")
    if R["zero"]:
        raise Skip("coincident objects")
    return case, c, cats, ds, geo, metric, R


def patches(case, ctx):
    s = case["spec"]
    case, y, cats, ds, geo, metric, R = setup(case)
    bt, typ = s["bt"], case["typ"]
    algo = {} if bt == "LogMultipole" else dict(algo="triangle")
    local = s["local"] or bt == "LogMultipole"
    x = y.copy()
    tri.process(y, cats, case["ordered"], **algo)
    extra = dict(save_patch_dir=ctx.tmp()) if s["save"] else {}
    f = dict(NNN="", KKK="k", GGG="g")[typ]
    pc, nn = [], []
    for i, d in enumerate(ds):
        e = dict(extra)
        if e:
            e["save_patch_dir"] = os.path.join(e["save_patch_dir"], "c%d" % i)
            os.makedirs(e["save_patch_dir"])
        c, n = build(d, f, s["pm"][i], s["npatch"], s["pseed"] + i, e)
        pc.append(c); nn.append(n)
    big = [n for n in nn if n > 1]
    if len(set(big)) > 1:
        raise Skip("different numbers of patches are refused")
    if not big:
        ctx.trivial("no patches")
    if R["ntri"].sum() == 0:
        ctx.trivial("no triangles")
    ctx.tag(typ, bt, geo["coords"], metric, "cats%d" % len(ds), "ordered" if case["ordered"] else "unordered", "local" if local else "global",
            "low_mem" if s["lowmem"] else "in memory", *["p%d=%s" % (i, s["pm"][i]) for i in range(len(ds))])
    for rep in range(1 + s["again"]):
        tri.process(x, pc, case["ordered"], patch_method="local" if local else "global", low_mem=s["lowmem"], **algo)
        compare(x, y, typ, ds, "(%s, run %d)" % ("local" if local else "global", rep + 1), tol=1e-7)
    if big and R["ntri"].sum() > 0 and not x.results:
        fail("no results of the patches were saved")
    if x.results:
        z = x.copy()
        z.clear()
        for r in x.results.values():
            z += r
        mp = bt == "LogMultipole"
        sc = np.prod([ref2.wts(d).sum() for d in (ds + [ds[-1]] * 2)[:3]])
        if mp:          # until finalized, the counts are only held by the zeroth order
            z.ntri[:, :, :] = z.ntri[:, :, 2:3].copy()
        cmp.close("sum of the saved ntri", z.ntri, x.ntri, 1e-12, np.abs(x.ntri).max(initial=0.))
        cmp.close("sum of the saved weights", z.weight, x.weight, 1e-11, (sc if mp else np.abs(x.weight).max(initial=0.)))
        if typ == "NNN":
            cmp.close("sum of the saved tot", z.tot, x.tot, 1e-11)
        w = np.where(x.weight == 0, 1., x.weight)
        for a in tri.names(typ):
            if mp:
                cmp.close("sum of the saved " + a, getattr(z, a), getattr(x, a), 1e-10, multipole_scale(ds, typ))
            else:
                cmp.close("sum of the saved " + a, getattr(z, a) / w, np.where(x.weight == 0, 0., getattr(x, a)), 1e-9, 1.)
        for q in ("meand2", "meanlogd3"):
            if mp:
                continue
            cmp.close("sum of the saved " + q, (getattr(z, q) / w)[x.weight != 0] if geo["coords"] != "sphere" and case["units"] is None else 0.,
                      getattr(x, q)[x.weight != 0] if geo["coords"] != "sphere" and case["units"] is None else 0., 1e-9, 1.)




class Table:
    """Direct sums per combination of patches (i,j,k) as the saved results hold them."""

    def __init__(self, typ, ds, ps, n, bt, nb, mn, mx, ordered, local, metric, period):
        m = [p is not None and n > 1 for p in ps]
        self.ps = [p if on else np.zeros(d["n"], int) for p, on, d in zip(ps, m, ds)]
        pat = {1: [0, 0, 0], 2: [0, 1, 1], 3: [0, 1, 2]}[len(ds)]
        self.dims = tuple(n if m[q] else 1 for q in pat)
        self.typ, self.bt, self.ds = typ, bt, ds
        self.B = binner(bt, nb, mn, mx)
        self.local = local
        self.nkeys = int(np.prod(self.dims))
        R = ref3.corr3(typ, ds, self.B, ordered, metric, period, keyfn=self.key, nkeys=self.nkeys)
        if R["amb"]:
            raise Skip("ambiguous")
        if R["zero"]:
            raise Skip("coincident objects")
        # total weight of all possible triangles of each key
        W = [np.bincount(p, weights=ref2.wts(d), minlength=n) for p, d in zip(self.ps, ds)]
        self.tot = np.zeros(self.nkeys)
        I = np.meshgrid(*[np.arange(n)] * 3, indexing="ij")
        for slot in ref3.slots(ds, ordered):
            w = [W[[q is d for d in ds].index(True)] for q in slot]
            t = w[0][:, None, None] * w[1][None, :, None] * w[2][None, None, :]
            ii = [np.arange(n)[x].ravel() for x in I]
            self.tot += np.bincount(self.key(slot, *ii, raw=True), weights=t.ravel(), minlength=self.nkeys)
        self.tot = self.tot.reshape(self.dims) / (6. if len(ds) == 1 or not ordered else {2: 2., 3: 1.}[len(ds)])
        mp = bt == "LogMultipole"
        self.names = ["ntri", "weight"] + tri.names(typ)
        sh = self.dims + ((nb * nb,) if mp else (int(np.prod(self.B.shape)),))
        self.S = {}
        for a in self.names:
            x = R[a]
            if mp and x.ndim == 1:
                x = np.repeat(x[:, None], 2 * self.B.maxn + 1, axis=1)
            self.S[a] = x.reshape(self.dims + (-1,))
        self.absw = R["absw"].reshape(sh)
        self.total_abs = R["absw"].sum()

    def key(self, slot, i, j, l, raw=False):
        which = [[q is d for d in self.ds].index(True) for q in slot]
        pp = [x if raw else self.ps[w][x] for w, x in zip(which, (i, j, l))]
        if self.local:
            k = [pp[0]] * 3
        else:
            # in the order of the catalogs; those from the same catalog in increasing order of their patches
            a = np.stack(pp)
            if len(self.ds) == 1:
                k = list(np.sort(a, axis=0))
            else:
                order = sorted(range(3), key=lambda q: which[q])
                k = [a[o] for o in order]
                if len(self.ds) == 2:
                    k[1], k[2] = np.minimum(k[1], k[2]), np.maximum(k[1], k[2])
        k = [x if n > 1 else 0 * x for x, n in zip(k, self.dims)]
        return (k[0] * self.dims[1] + k[1]) * self.dims[2] + k[2]

    def values(self, M):
        out = {a: np.tensordot(M, self.S[a], 3) for a in self.names}
        if self.bt != "LogMultipole":
            w = out["weight"]
            for a in self.names[2:]:
                out[a] = np.where(w != 0, out[a] / np.where(w != 0, w, 1.), 0.)
        out["stat"] = np.concatenate([out[a] for a in self.names[2:]]) if self.typ != "NNN" else out["weight"]
        out["w"] = np.abs(out["weight"]).sum() * max(1, len(self.names) - 2)
        return out


def multiplicities(method, dims, n, index=None):
    on = [q > 1 for q in dims]
    I = np.meshgrid(*[np.arange(q) for q in dims], indexing="ij")
    act = [I[q] for q in range(3) if on[q]]
    out = []
    if method == "jackknife":
        for r in range(n):
            M = np.ones(dims)
            for a in act:
                M = M * (a != r)
            out.append(M)
    elif method == "sample":
        for r in range(n):
            out.append((act[0] == r).astype(float))
    else:
        for ind in index:
            c = np.bincount(ind, minlength=n).astype(float)
            if method == "marked_bootstrap":
                out.append(c[act[0]])
                continue
            # each patch counts as often as it was selected, once for each different patch of the combination
            M = c[act[0]]
            for q in range(1, len(act)):
                new = np.ones(dims, bool)
                for p in range(q):
                    new &= act[q] != act[p]
                M = M * np.where(new, c[act[q]], 1.)
            out.append(M)
    return out


CFUNC = [None, None, None, "weight", "ntri", "square", "complex"]


def make_func(name):
    if name is None:
        return None
    f = dict(weight=lambda c: np.abs(c.weight).ravel(), ntri=lambda c: c.ntri.ravel(), square=lambda c: np.abs(c.weight).ravel() ** 2 + 1.,
             complex=lambda c: c.weight.ravel() + 1j * c.ntri.ravel())[name]
    return lambda cs: np.concatenate([f(c) for c in cs[::-1]])


class V:
    def __init__(self, d):
        self.__dict__.update(d)


cov_strat = tri.strat(11, 2, st.fixed_dictionaries(dict(
    corrs=st.lists(st.fixed_dictionaries(dict(typ=st.sampled_from(["KKK", "KKK", "GGG"]), bt=st.sampled_from(BT), ncat=st.sampled_from([1, 1, 2, 3]), ordered=st.booleans(),
                                              pat=st.sampled_from([[1, 1, 1]] * 3 + [[1, 0, 0], [0, 1, 1], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 0]]), local=st.booleans())), min_size=1, max_size=2),
    npatch=st.integers(1, 5), pseed=st.integers(0, 500), mode=st.sampled_from(["rand", "spatial", "spatial", "gap"]), method=st.sampled_from(patchcov.METHODS),
    func=st.sampled_from(CFUNC), nboot=st.integers(2, 6), rseed=st.integers(0, 99), via=st.sampled_from(["estimate", "var_method", "again"]))),
    layouts=["uniform", "cluster", "two", "tight"])


def cov(case, ctx):
    import treecorr
    s = case["spec"]
    n, m = s["npatch"], s["method"]
    case = dict(case, ncat=3, typ="GGG", mode="slop0angle" if case["mode"] != "brute" else "brute")
    if case["geo"]["coords"] in ("flat", "3d"):
        case["metric"] = "Euclidean"
    ds, geo, metric, period = tri.data(case)
    if not all((ref2.wts(d) != 0).any() for d in ds):
        raise Skip("no live objects")
    ps = [ids(d, s["mode"], n, s["pseed"] + i) for i, d in enumerate(ds)]
    F = make_func(s["func"])
    corrs, tabs = [], []
    for q in s["corrs"]:
        typ, bt, nc = q["typ"], q["bt"], q["ncat"]
        local = q["local"] or bt == "LogMultipole"
        on = [q["pat"][0]] * 3 if nc == 1 else q["pat"]
        if nc == 1:
            on = [1, 1, 1]
        pp = [p if o else None for p, o in zip(ps, on)][:nc]
        if all(p is None for p in pp):
            pp[0] = ps[0]
        if local and n > 1 and any(p is None for p in pp):
            # the local method goes by the patches of the catalog of the first vertex
            if not q["ordered"] or pp[0] is None:
                raise Skip("local method without patches in the first catalog")
        c2 = dict(case, ncat=nc, typ=typ)
        x, _, _, _, _, _, mn, mx, su = tri.build(c2, spec(bt), bt, var_method=m, num_bootstrap=s["nboot"], rng=np.random.RandomState(s["rseed"]))
        f = dict(KKK="k", GGG="g")[typ]
        cats = [gen.catalog(d, f, verbose=0, **(dict(patch=p, npatch=n) if p is not None and n > 1 else {})) for d, p in zip(ds, pp)]
        tri.process(x, cats, q["ordered"], **({} if bt == "LogMultipole" else dict(algo="triangle", patch_method="local" if local else "global")))
        T = Table(typ, ds[:nc], pp, n, bt, case["nbins"], mn, mx, q["ordered"], local, metric, period)
        corrs.append(x); tabs.append(T)
        ctx.tag(typ, bt, "cats%d" % nc, "local" if local else "global", "dims=%s" % "".join("n" if z > 1 else "1" for z in T.dims))
    ctx.tag("method=" + m, "func=%s" % s["func"], "ncorr=%d" % len(corrs), "npatch=%d" % n, geo["coords"])
    if n == 1:
        ctx.trivial("one patch")
        for x in corrs:
            try:
                x.estimate_cov(m)
            except ValueError:
                continue
            fail("%s covariance without patches did not raise" % m)
        return
    if any(len(x.results) == 0 for x in corrs):
        if any(T.S["ntri"].any() and not x.results for x, T in zip(corrs, tabs)):
            fail("no results of the patches were saved")
        raise Skip("no triangles at all")
    idx = patchcov.selections(n, s["nboot"], np.random.RandomState(s["rseed"])) if "boot" in m else None
    allrows = [multiplicities(m, T.dims, n, idx) for T in tabs]
    vref, wref = [], []
    for r in range(len(allrows[0])):
        vals = [T.values(rw[r]) for T, rw in zip(tabs, allrows)]
        vref.append(np.concatenate([v["stat"] for v in vals]) if F is None else F([V(v) for v in vals]))
        wref.append(sum(v["w"] for v in vals))
    vref, wref = np.array(vref), np.array(wref)
    reset = lambda: [x.rng.seed(s["rseed"]) for x in corrs]
    big = max(1., np.abs(vref).max())
    mp = any(T.bt == "LogMultipole" for T in tabs)
    if mp:
        fm = 1.
        for d in ds:
            fm = max(fm, np.abs(d["k"]).max(), np.abs(d["g"]).max(), ref2.wts(d).sum())
        big = max(big, fm ** 6)         # rounding of the removal of repeated points
    before = [patchcov.digest(x) for x in corrs]
    reset()
    if len(corrs) == 1:
        v, w = corrs[0].build_cov_design_matrix(m, func=None if F is None else (lambda c: F([c])))
    else:
        v, w = treecorr.build_multi_cov_design_matrix(corrs, m, func=F)
    cmp.close("design matrix", v, vref, 1e-9, big)
    noise = 1e-10 * fm ** 6 * v.shape[1] if mp else 0.
    cmp.close("design weights", w, wref, 1e-9, 0., atol=noise)

    def est():
        reset()
        if s["via"] == "var_method" and len(corrs) == 1 and F is None:
            c = corrs[0].cov
            if not np.array_equal(corrs[0].cov_diag, np.diagonal(c)):
                fail("cov_diag is not the diagonal of cov")
            return c
        if len(corrs) == 1:
            return corrs[0].estimate_cov(m, func=None if F is None else (lambda c: F([c])))
        return treecorr.estimate_multi_cov(corrs, m, func=F)
    if m == "sample" and np.any(wref <= noise):
        if mp:
            raise Skip("weights of rounding noise")
        try:
            est()
        except RuntimeError:
            ctx.tag("sample with an empty patch refused")
            return
        fail("sample covariance with an empty patch did not raise RuntimeError")
    C = est()
    cref = patchcov.covariance(m, vref, wref)
    if C.shape != cref.shape:
        fail("covariance has shape %s, data vector %d" % (C.shape, vref.shape[1]))
    cmp.close("covariance", C, cref, 1e-7, big ** 2 * 1e-3)
    if not np.allclose(C, C.conj().T, rtol=1e-12, atol=1e-14 * big ** 2):
        fail("covariance is not Hermitian")
    if s["via"] == "again":
        if not np.array_equal(C, est()):
            fail("a second estimate differs")
    for a, x in zip(before, corrs):
        patchcov.same(a, patchcov.digest(x))
    if not np.abs(cref).max(initial=0.) > 1e-12 * big ** 2:
        ctx.trivial("zero covariance")
    if len(corrs) == 1 and F is None and corrs[0]._var_num != 0:
        x = corrs[0]
        nk = x.weight.size
        for q, a in enumerate(dict(KKK=["varzeta"], GGG=["vargam0", "vargam1", "vargam2", "vargam3"])[tabs[0].typ]):
            x._cov = None
            reset()
            cmp.close(a, np.asarray(getattr(x, a)).ravel(), np.diagonal(cref)[q * nk:(q + 1) * nk].real, 1e-7, big ** 2 * 1e-3)
            x.__dict__.pop("_varzeta", None)


ZS = st.fixed_dictionaries(dict(
    bt=st.sampled_from(["LogRUV", "LogRUV", "LogSAS"]), combo=st.sampled_from(["rrr", "all", "all"]), npatch=st.integers(1, 4), pseed=st.integers(0, 500),
    mode=st.sampled_from(["rand", "spatial", "spatial", "gap"]), rpat=st.sampled_from(["same", "same", "none"]), local=st.booleans(),
    pat=st.sampled_from([[1, 1, 1]] * 3 + [[1, 0, 0], [0, 1, 1], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 0]]), f=st.sampled_from([0.25, 1, 2]),
    method=st.sampled_from(["shot"] + patchcov.METHODS), nboot=st.integers(2, 5), rseed=st.integers(0, 99), func=st.sampled_from([None, None, "ntri"])))
RC = gen.cat_spec(14, 3, layouts=["uniform", "uniform", "cluster", "two", "tight"], wmodes=["none", "uniform", "zeros", "wide"])
zeta_strat = tri.strat(10, 3, ZS, types=["NNN"], layouts=["uniform", "cluster", "two", "tight"], metrics=("Euclidean", "Euclidean", "Euclidean", "alt"),
                       extra=dict(r1=RC, r2=RC, r3=RC))


class Zeta:
    def __init__(self, case, ctx):
        self.s = s = case["spec"]
        self.case = case = dict(case, typ="NNN", mode="slop0angle" if case["mode"] != "brute" else "brute")
        n = self.n = s["npatch"]
        if case["geo"]["coords"] in ("flat", "3d"):
            case["metric"] = "Euclidean"
        bt, nc = s["bt"], case["ncat"]
        ds, geo, metric, period = tri.data(case)
        self.geo = geo
        rs = [gen.make(case["r%d" % (i + 1)], geo) for i in range(nc)]
        for r in rs:
            if s["f"] != 1:
                r["w"] = ref2.wts(r) * s["f"]
        if not all((ref2.wts(d) != 0).any() for d in ds + rs):
            raise Skip("no live objects")
        on = [True] * 3 if nc == 1 else [bool(x) for x in s["pat"]]
        on = on[:nc]
        if not any(on):
            on[0] = True
        ordered = self.ordered = case["ordered"]
        local = self.local = s["local"]
        rpat = s["rpat"] == "same"
        if local and n > 1 and nc > 1 and not all(on) and not (ordered and on[0]):
            raise Skip("local method without patches in the first catalog")
        dp = [ids(d, s["mode"], n, s["pseed"] + i) if o and n > 1 else None for i, (d, o) in enumerate(zip(ds, on))]
        rp = [ids(d, s["mode"], n, s["pseed"] + 7 + i) if o and n > 1 and rpat else None for i, (d, o) in enumerate(zip(rs, on))]
        two = nc == 1 and s["combo"] == "all"
        if two and local and n > 1 and not rpat:
            raise Skip("local method with unpatched randoms mixed with patched data")
        mn, mx = tri.seps(case, geo, metric, period)
        def run(dd, pp, ordered):
            x, _, _, _, _, _, _, _, su = tri.build(dict(case), spec(bt), bt, rng=np.random.RandomState(s["rseed"]), num_bootstrap=s["nboot"], var_method=s["method"])
            cats = [gen.catalog(d, "", verbose=0, **(dict(patch=p, npatch=n) if p is not None else {})) for d, p in zip(dd, pp)]
            tri.process(x, cats, ordered, algo="triangle", patch_method="local" if local else "global")
            return x, Table("NNN", dd, pp, n, bt, case["nbins"], mn, mx, ordered, local, metric, period)
        self.x, self.t = {}, {}
        self.x["ddd"], self.t["ddd"] = run(ds, dp, ordered)
        self.x["rrr"], self.t["rrr"] = run(rs, rp, ordered)
        if two:
            self.x["drr"], self.t["drr"] = run([ds[0], rs[0]], [dp[0], rp[0]], False)
            self.x["rdd"], self.t["rdd"] = run([rs[0], ds[0]], [rp[0], dp[0]], False)
        self.dp, self.ds, self.rp, self.rs = dp, ds, rp, rs

    def calculate(self):
        return self.x["ddd"].calculateZeta(**{k: v for k, v in self.x.items() if k != "ddd"})

    def stat(self, M=None):
        T = self.t["ddd"]
        if M is None:
            M = np.ones(T.dims)
        V = T.values(M)
        dims = T.dims
        act = [q for q in range(3) if dims[q] > 1]
        eq = np.ones(dims, bool)            # all the patched indices agree
        I = np.indices(dims)
        for q in act[1:]:
            eq &= I[q] == I[act[0]]

        def sums(R):
            """weight and tot of the random triangles that go with the selection"""
            if R.dims == dims:
                MM = M
            elif R.dims == (1, 1, 1):
                MM = np.ones((1, 1, 1))
            elif R.dims[1] == 1:        # data in the first place, randoms not in patches
                MM = np.zeros(R.dims)
                for r in range(dims[0]):
                    MM[r, 0, 0] = M[r, r, r]
            else:                       # data in the second and third place
                MM = np.zeros(R.dims)
                for j in range(dims[1]):
                    for k in range(j, dims[1]):
                        MM[0, j, k] = M[j, j, k]
            return np.tensordot(MM, R.S["weight"], 3), float((MM * R.tot).sum())
        R = self.t["rrr"]
        tot = float((M * T.tot).sum())
        if R.dims == (1, 1, 1) and dims != (1, 1, 1):
            # the share of the area of the data that is selected
            q = np.where(eq, T.tot, 0.) ** (1. / len(act))
            if q.sum() == 0:
                raise Skip("no patch in common")
            tot = T.tot.sum() * (M * q).sum() / q.sum()
        w = {}
        for u in ("rrr", "drr", "rdd"):
            if u in self.t:
                A, t = sums(self.t[u])
                if t == 0:
                    raise Skip("a selection without randoms")
                w[u] = A * tot / t
        rrr = w["rrr"]
        num = V["weight"] - rrr
        if "drr" in w:
            num = num + w["drr"] - w["rdd"]
        V["undef"] = (rrr == 0) & (tot > 0)     # (nothing selected at all counts as zeta = 0)
        den = np.where(rrr == 0, 1., rrr)
        V["zeta"] = num / den
        V["scale"] = (V["weight"] + sum(w.values())) / den
        V["rrr"] = den
        V["w"] = den.sum()
        V["stat"] = V["zeta"]
        return V


def zvalues(case, ctx):
    Z = Zeta(dict(case, spec=dict(case["spec"], method="shot")), ctx)
    x = Z.x["ddd"]
    dig = {u: patchcov.digest(c) for u, c in Z.x.items()}
    V = Z.stat()
    zeta, var = Z.calculate()
    for u in dig:
        if u != "ddd":
            patchcov.same(dig[u], patchcov.digest(Z.x[u]), u + ": ")
    ctx.tag(Z.s["bt"], "cats%d" % case["ncat"], "npatch=%d" % Z.n, "local" if Z.local else "global", *sorted(Z.t))
    for a in ("ntri", "weight", "meand1", "meand2", "meanlogd3"):
        if not np.array_equal(dig["ddd"][a] if a in dig["ddd"] else dig["ddd"]["weightr"], getattr(x, a)):
            fail("%s of the data was modified" % a)
    good = ~V["undef"]
    cmp.close("zeta", zeta.ravel()[good], V["zeta"][good], 1e-9, V["scale"][good])
    if not np.array_equal(zeta, x.zeta) or not np.array_equal(var, x.varzeta):
        fail("returned values differ from the attributes")
    mw, tots = {}, {}
    for u, t in Z.t.items():
        nt = t.S["ntri"].sum()
        mw[u] = 1. if nt == 0 else t.S["weight"].sum() / nt
        tots[u] = t.tot.sum()
    fac = 1 + sum(tots["ddd"] / tots[u] * mw[u] / mw["ddd"] for u in Z.t if u != "ddd")
    want = mw["ddd"] * fac ** 2 / V["rrr"]
    cmp.close("varzeta", var.ravel()[good], want[good], 1e-9)
    if var.shape != zeta.shape or zeta.shape != x.ntri.shape:
        fail("shapes %s %s" % (zeta.shape, var.shape))
    if not (good & (V["ntri"] > 0)).any():
        ctx.trivial("no common bin")
    z2, v2 = Z.calculate()
    if not np.array_equal(zeta, z2) or not np.array_equal(var, v2):
        fail("a second call gives different values")
    if "drr" in Z.x:
        for kw in (dict(rrr=Z.x["rrr"], drr=Z.x["drr"]), dict(rrr=Z.x["rrr"], rdd=Z.x["rdd"])):
            try:
                x.calculateZeta(**kw)
            except TypeError:
                continue
            fail("only one of drr and rdd was accepted")


def zcov(case, ctx):
    s = dict(case["spec"])
    if s["method"] == "shot":
        s["method"] = "jackknife"
    s["npatch"] += 1
    m = s["method"]
    Z = Zeta(dict(case, spec=s), ctx)
    x, T, n = Z.x["ddd"], Z.t["ddd"], Z.n
    idx = patchcov.selections(n, s["nboot"], np.random.RandomState(s["rseed"])) if "boot" in m else None
    V = [Z.stat(M) for M in multiplicities(m, T.dims, n, idx)]
    func = s["func"]
    F = None if func is None else (lambda c: c.ntri.ravel())
    wref = np.array([v["w"] for v in V])
    vref = np.array([v["stat" if F is None else "ntri"] for v in V])
    big = max(1., max(v["scale"].max() for v in V) if F is None else 0., np.abs(vref).max())
    dig = {u: patchcov.digest(c) for u, c in Z.x.items() if u != "ddd"}
    if not x.results:
        raise Skip("no results")
    zeta, var = Z.calculate()
    C0 = x.cov
    for u in dig:
        patchcov.same(dig[u], patchcov.digest(Z.x[u]), u + ": ")
    ctx.tag(Z.s["bt"], "cats%d" % case["ncat"], "npatch=%d" % n, "local" if Z.local else "global", "method=" + m, "rpat=" + s["rpat"], "func=%s" % func,
            "dims=%s" % "".join("n" if z > 1 else "1" for z in T.dims), *sorted(Z.t))
    x.rng.seed(s["rseed"])
    v, w = x.build_cov_design_matrix(m, func=F)
    ok = np.ones(vref.shape, bool)
    if F is None:
        ok = ~np.array([q["undef"] for q in V])
    cmp.close("design matrix", np.where(ok, v, 0), np.where(ok, vref, 0), 1e-9, big)
    cmp.close("design weights", w, wref, 1e-9, 0.)
    x.rng.seed(s["rseed"])
    C = x.estimate_cov(m, func=F)
    cref = patchcov.covariance(m, vref, wref)
    good = ok.all(axis=0)
    g2 = np.ix_(good, good)
    cmp.close("covariance", C[g2], cref[g2], 1e-7, 1e-3 * big ** 2)
    if np.abs(cref[g2]).max(initial=0.) < 1e-12 * big ** 2:
        ctx.trivial("zero covariance")
    if F is None:
        Y = Zeta(dict(case, spec=s), ctx)
        zz, vv = Y.calculate()
        cmp.close("varzeta", vv.ravel()[good], np.diagonal(cref)[good], 1e-7, 1e-3 * big ** 2)
        cmp.close("cov", Y.x["ddd"].cov[g2], cref[g2], 1e-7, 1e-3 * big ** 2)


SUBS = [
    Sub("patches", strat(12), patches, quick=3000),
    Sub("patches30", strat(30), patches, quick=1000),
    Sub("cov", cov_strat, cov, quick=2500),
    Sub("zeta", zeta_strat, zvalues, quick=1500),
    Sub("zetacov", zeta_strat, zcov, quick=2500),
]
