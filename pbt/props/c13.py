"""C13: correlation objects accumulate and combine like sums (model-based histories)."""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("A correlation class, a binning, pools of 3 catalogs per position (patched or not) and a history of up to 12 operations on up to 4 objects (process with initialisation/"
        "finalisation deferred or not, low-level process calls, additions, copies, pickles, clears, finalisation, covariance queries, refused additions) are drawn.  "
        "After every operation every object is compared with a model that only adds up the sums (and per-patch results) of independently computed pieces.  "
        "whole: the pieces of a split catalog are processed in every pairing and added, and compared with the unsplit catalog.  "
        "reuse: an object is used in a drawn way (processed with other patches or metrics, given randoms, written, read into, copied, added to) and then processes new data; all it says "
        "(sums, variances, covariances of every method, statistics, equality) must be identical to what a fresh object says.  "
        "Non-trivial: some object accumulated at least two pieces with pairs.")
ASSUMPTIONS = ["adding an already finalized object, and adding to one, is documented as meaningless and is not generated",
               "per-patch results after an addition are not compared (additions only concern the sums)",
               "LogSAS histories use the triangle algorithm: deferring with the multipole algorithm is a known finding"]

T2 = ["NN", "NN", "NN", "KK", "NK", "GG", "NG", "KG", "VV", "NZ", "ZZ", "KQ", "TT", "NV"]
T3 = ["NNN", "KKK", "GGG"]

op = st.fixed_dictionaries(dict(
    op=st.sampled_from(["proc", "proc", "proc", "proc", "low", "low", "add", "add", "copy", "pickle", "clear", "fin", "fin", "cov", "bad", "xi"]),
    o=st.integers(0, 3), p=st.integers(0, 3), kind=st.integers(0, 4), ia=st.integers(0, 2), ib=st.integers(0, 2), ic=st.integers(0, 2),
    init=st.sampled_from([False, False, True]), deep=st.booleans(), bad=st.integers(0, 6),
))
hist = st.fixed_dictionaries(dict(
    geo=gen.geom(), typ=st.sampled_from(T2), bins=gen.bins_spec(nbmax=5),
    c=st.lists(gen.cat_spec(14, 1, wmodes=("none", "uniform", "zeros")), min_size=9, max_size=9),
    npatch=st.sampled_from([0, 0, 2, 3]), local=st.booleans(), pseed=st.integers(0, 100), mode=st.integers(0, 2), uniform=st.booleans(),
    ops=st.lists(op, min_size=2, max_size=12),
))
hist3 = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["flat", "flat", "3d", "sphere"]), typ=st.sampled_from(T3), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), nb=st.integers(1, 3),
    fm=st.sampled_from([0.5, 1.2]), c=st.lists(gen.cat_spec(7, 2, wmodes=("none", "uniform"), layouts=["uniform", "cluster", "line"]), min_size=9, max_size=9),
    npatch=st.sampled_from([0, 0, 2]), local=st.booleans(), pseed=st.integers(0, 100), mode=st.just(0), uniform=st.booleans(),
    ops=st.lists(op, min_size=2, max_size=9),
))

VARNAME = dict(K="K", Z="Z", V="V", G="G", T="T", Q="Q")


class World:
    def __init__(self, case, three):
        import treecorr
        self.three = three
        self.case = case
        self.typ = typ = case["typ"]
        geo = case["geo"]
        self.local = case["local"]
        if three:
            self.bt = case["bt"]
            if typ == "GGG" and geo["coords"] == "3d":
                geo = dict(geo, coords="flat")
            ext = gen.sky_extent(geo)
            mx = ext * case["fm"]
            if geo["coords"] == "sphere":
                mx = min(mx, 1.5)
            kw = dict(bin_type=self.bt, min_sep=0.1 * mx, max_sep=mx, nbins=case["nb"])
            if self.bt == "LogRUV": kw.update(nubins=2, nvbins=2)
            if self.bt == "LogSAS": kw.update(nphi_bins=3)
            if self.bt == "LogMultipole": kw.update(max_n=2); self.local = True
            if geo["coords"] == "sphere": kw["metric"] = "Arc"
            self.raw_names = ["ntri", "weight", "meand1", "meanlogd1", "meand2", "meanlogd2", "meand3", "meanlogd3", "meanu"]
            if self.bt == "LogRUV": self.raw_names += ["meanv"]
            if self.bt == "LogSAS": self.raw_names[-1] = "meanphi"
            if self.bt == "LogMultipole": del self.raw_names[-1]; self.raw_names = [n for n in self.raw_names if "d1" not in n]
            self.xi_names = dict(NNN=[], KKK=["zeta"], GGG=["gam0", "gam1", "gam2", "gam3"])[typ]
            self.count = "ntri"
        else:
            b = case["bins"]
            if b["bin_type"] == "TwoD" and geo["coords"] != "flat":
                b = dict(b, bin_type="Log")
            self.bt = b["bin_type"]
            kw = gen.bins_kw(b, geo)
            self.raw_names = ["npairs", "weight", "meanr", "meanlogr"]
            self.xi_names = cmp.xi_names(typ)
            self.count = "npairs"
        if case["mode"] == 1:
            kw["bin_slop"] = 0
        elif case["mode"] == 2:
            kw["brute"] = True
        self.kw = kw
        self.cls = gen.corr_class(typ)
        fs = gen.fields_of(typ)
        self.pools = []
        self.patched = case["npatch"] > 1
        for s in range(3 if three else 2):
            pool = []
            for i in range(3):
                d = gen.make(case["c"][3 * s + i], geo)
                w = ref2.wts(d)
                if not (w != 0).any():
                    raise Skip("no live objects")
                ex = {}
                if self.patched:
                    p = np.random.RandomState(case["pseed"] + 10 * s + i).randint(0, case["npatch"], 64)[:d["n"]]
                    # every patch with live objects only: shares of a patch whose weights all vanish are another property
                    ex = dict(patch=p, npatch=case["npatch"])
                    for k in range(case["npatch"]):
                        if (p == k).any() and not (w[p == k] != 0).any():
                            raise Skip("patch without weight")
                pool.append(treecorr.Catalog(verbose=0, **gen.catkw(d, fs[s], ex)))
            self.pools.append(pool)
        if three:
            self.kinds = ["auto", "12", "12u", "123", "123u"]
        else:
            self.kinds = ["auto", "auto", "cross", "cross", "cross"] if typ[0] == typ[1] else ["cross"]
        self.memo = {}

    def new(self, **kw):
        return self.cls(verbose=0, **dict(self.kw, **kw))

    def raw(self, x):
        d = {n: np.array(getattr(x, n)) for n in self.raw_names + self.xi_names}
        if self.typ in ("NN", "NNN"):
            d["tot"] = np.array(x.tot)
        return d

    def cats(self, kind, o):
        a = [self.pools[0][o["ia"]]]
        if kind == "auto": return a
        a.append(self.pools[1][o["ib"]])
        if kind in ("123", "123u"): a.append(self.pools[2][o["ic"]])
        return a

    def process(self, x, kind, o, init, fin):
        kw = dict(initialize=init, finalize=fin, patch_method="local" if self.local else "global")
        if self.three:
            kw.update(ordered=not kind.endswith("u"))
            kw["algo"] = "multipole" if self.bt == "LogMultipole" or self.case.get("strict") else "triangle"
        x.process(*self.cats(kind, o), **kw)

    def low(self, x, kind, o):
        a = self.cats(kind, o)
        kw = {}
        if kind == "auto": x.process_auto(*a)
        elif kind.startswith("123"): x.process_cross(*a, ordered=kind == "123")
        elif kind.startswith("12"): x.process_cross12(*a, ordered=kind == "12")
        else: x.process_cross(*a)

    def unit(self, low, kind, o):
        key = (low, kind, o["ia"], o["ib"] if kind != "auto" else 0, o["ic"] if "123" in kind else 0)
        if key not in self.memo:
            x = self.new()
            if low:
                self.low(x, kind, o)
                res = {}
            else:
                self.process(x, kind, o, True, False)
                res = {k: self.raw(v) if v.nonzero or self.typ not in ("NN", "NNN") else dict(tot=np.array(v.tot)) for k, v in x.results.items()}
            self.memo[key] = (self.raw(x), res)
        return self.memo[key]

    def vars(self, lists):
        import treecorr
        out = []
        for L, l in zip(self.typ, lists):
            if L != "N":
                out.append(getattr(treecorr, "calculateVar" + L)(l))
        return out


class Model:
    def __init__(self):
        self.sum, self.scale, self.res, self.fin, self.n, self.npieces = {}, {}, {}, False, 0, 0
        self.kinds = []         # (kind, o) of the process() calls since initialisation
        self.pure = True        # only process() calls
        self.xi = False

    def clone(self):
        m = copy.copy(self)
        m.sum, m.scale, m.kinds = dict(self.sum), dict(self.scale), list(self.kinds)
        m.res = None if self.res is None else {k: dict(v) for k, v in self.res.items()}
        return m

    def addraw(self, r):
        for k, v in r.items():
            self.sum[k] = self.sum[k] + v if k in self.sum else v.copy()
            # sums of fields may cancel, so their rounding errors scale with the weights
            self.scale[k] = self.scale.get(k, 0.) + np.abs(v).max(initial=0.) + (np.abs(r["weight"]).max(initial=0.) if k not in ("npairs", "ntri", "tot") else 0.)

    def addres(self, res):
        if self.res is None:
            return
        for ij, r in res.items():
            t = self.res.setdefault(ij, {})
            for k, v in r.items():
                t[k] = t[k] + v if k in t else v.copy()


def check_raw(W, x, m, what):
    got = W.raw(x)
    for k, g in got.items():
        want = m.sum.get(k)
        if want is None:
            want = np.zeros_like(g)
        if k in ("npairs", "ntri"):
            cmp.close(k, g, want, 1e-12, None, what)
        else:
            cmp.close(k, g, want, 1e-9, m.scale.get(k, 0.), what, atol=1e-11 if W.three else 0.)


def check_fin(W, x, m, what):
    got = W.raw(x)
    w = m.sum["weight"]
    multi = W.bt == "LogMultipole"
    if multi:
        c = w.shape[2] // 2
        for k in ("weight", "zeta", "gam0", "gam1", "gam2", "gam3"):
            if k in got:
                cmp.close(k, got[k], m.sum[k], 1e-9, m.scale[k], what, atol=1e-11)
        w0 = np.real(w[:, :, c])
        cmp.close("ntri", got["ntri"][:, :, 0], m.sum["ntri"][:, :, c], 1e-12, None, what)
        for k in ("meand2", "meanlogd2", "meand3", "meanlogd3"):
            live = w0 > 0
            cmp.close(k, (got[k][:, :, 0] * w0)[live], m.sum[k][:, :, c][live], 1e-8, m.scale[k], what)
        return
    cmp.close(W.count, got[W.count], m.sum[W.count], 1e-12, None, what)
    cmp.close("weight", got["weight"], w, 1e-9, m.scale["weight"], what)
    if "tot" in got:
        cmp.close("tot", got["tot"], m.sum["tot"], 1e-12, None, what)
    aw = np.abs(w)
    live = aw > 1e-6 * m.scale["weight"] if m.scale["weight"] else np.zeros(w.shape, bool)
    chord = not W.three and x.coords == "spherical" and x.metric == "Euclidean"
    for k, g in got.items():
        if k in (W.count, "weight", "tot"):
            continue
        v = g[live]
        if chord and k == "meanr": v = 2 * np.sin(v / 2)
        if chord and k == "meanlogr": v = np.log(2 * np.sin(np.exp(v) / 2))
        cmp.close(k, v * w[live], m.sum[k][live], 1e-7 if chord else 1e-9, m.scale[k], what)
    empty = m.sum[W.count] == 0
    if not W.three:
        cmp.eq("meanr of empty bins", got["meanr"][empty], x.rnom[empty], what)
        for k in W.xi_names:
            if np.any(got[k][empty] != 0): fail("%s non-zero in an empty bin %s" % (k, what))


def check_empty(W, x, what):
    for k, v in W.raw(x).items():
        if np.any(v != 0):
            fail("%s is not zero after clear: %s %s" % (k, v.ravel()[:5], what))
    if x.results:
        fail("results of %s are left after clear %s" % (sorted(x.results), what))
    for k in ("npatch1", "npatch2") + (("npatch3",) if W.three else ()):
        if getattr(x, k) != 1: fail("%s=%s after clear %s" % (k, getattr(x, k), what))
    if x.nonzero: fail("nonzero after clear %s" % what)
    if W.typ in ("NN", "NNN"):
        try:
            x.getStat()
        except RuntimeError:
            pass
        else:
            fail("a cleared %s still provides a statistic of the previous data %s" % (W.typ, what))


def check_cov(W, x, what):
    """The covariance the object reports belongs to its current data (var_method is shot here)."""
    if W.typ in ("NN", "NNN") or x.var_method != "shot" or np.any(~(x.weight.real >= 0)):
        return
    want = x.estimate_cov("shot")
    cmp.eq("cov", x.cov, want if want.ndim == 2 else np.diag(want), what)
    cmp.eq("cov_diag", x.cov_diag, want if want.ndim == 1 else np.diag(want), what)
    names = dict(GGG=("vargam0", "vargam1", "vargam2", "vargam3"), KKK=("varzeta",)).get(W.typ)
    if names is None: names = ("varxip", "varxim") if hasattr(x, "varxip") else ("varxi",)
    cmp.eq("cov_diag", x.cov_diag, np.concatenate([getattr(x, q).ravel() for q in names]), what)


def check_obj(W, x, m, what):
    if not m.n:
        check_empty(W, x, what)
        return
    (check_fin if m.fin else check_raw)(W, x, m, what)
    if m.fin: check_cov(W, x, what)
    if m.res is not None:
        if set(x.results) != set(m.res):
            fail("per-patch results for %s, expected %s %s" % (sorted(x.results), sorted(m.res), what))
        for ij, r in m.res.items():
            v = x.results[ij]
            for k in r:
                if k == "tot":
                    cmp.close("tot of result %s" % (ij,), v.tot, r[k], 1e-12, None, what)
                elif k in ("weight", W.count) or k in W.xi_names:
                    cmp.close("%s of result %s" % (k, ij), getattr(v, k), r[k], 1e-9, m.scale.get(k, 0.), what, atol=1e-11 if W.three else 0.)


def badobj(W, which):
    import treecorr
    if which == 0: return W.new(nbins=W.kw["nbins"] + 1)
    if which == 1: return W.new(max_sep=W.kw["max_sep"] * 1.01)
    if which == 2 and "min_sep" in W.kw: return W.new(min_sep=W.kw["min_sep"] * 0.99)
    if which == 3: return None      # other units are only warned about (existing tests rely on it)
    if which == 4:
        if W.three:
            k = {q: v for q, v in W.kw.items() if q in ("min_sep", "max_sep", "nbins", "metric")}
            bt = dict(LogRUV="LogSAS", LogSAS="LogMultipole", LogMultipole="LogRUV")[W.bt]
            return W.cls(bin_type=bt, verbose=0, **(dict(k, max_n=3) if bt == 'LogMultipole' else k))
        if W.bt == "TwoD": return None
        return W.new(bin_type="Linear" if W.bt == "Log" else "Log")
    if which == 5:
        k = {q: v for q, v in W.kw.items() if q in ("min_sep", "max_sep", "nbins", "bin_type", "metric")}
        if W.three: return treecorr.NNCorrelation(verbose=0, min_sep=k["min_sep"], max_sep=k["max_sep"], nbins=k["nbins"])
        return treecorr.KKCorrelation(verbose=0, **k) if W.typ != "KK" else treecorr.NNCorrelation(verbose=0, **k)
    if which == 6 and W.three:
        if W.bt == "LogRUV": return W.new(nvbins=3)
        if W.bt == "LogSAS": return W.new(nphi_bins=4)
        return W.new(max_n=3)
    return None


def run(case, ctx, three=False):
    W = World(case, three)
    objs, mods = [W.new()], [Model()]
    kind0 = None
    most = 0
    for step, o in enumerate(case["ops"]):
        i = o["o"] % len(objs)
        x, m = objs[i], mods[i]
        kind = W.kinds[o["kind"] % len(W.kinds)]
        if case["uniform"]:
            kind0 = kind0 or kind
            kind = kind0
        name = o["op"]
        what = "(after %d: %s)" % (step, name)
        if name in ("proc", "low"):
            init = name == "proc" and (o["init"] or m.fin)
            if name == "low" and m.fin:
                continue
            if not init and W.patched and m.kinds and m.kinds[0][0].strip("u") != kind.strip("u") and name == "proc" and False:
                continue
            r, res = W.unit(name == "low", kind, o)
            if init:
                mods[i] = m = Model()
            if name == "low":
                W.low(x, kind, o)
                m.pure = False
            else:
                W.process(x, kind, o, init, False)
                m.kinds.append((kind, o))
            m.addraw(r); m.addres(res); m.n += 1
            if np.any(r[W.count]): m.npieces += 1
            ctx.tag(name, kind)
        elif name == "add":
            j = o["p"] % len(objs)
            if m.fin or mods[j].fin or i == j:
                continue
            y, my = objs[j], mods[j]
            x += y
            if x is not objs[i]: fail("+= returned another object")
            m.addraw(my.sum)
            if my.n:
                m.n += my.n; m.pure = False; m.npieces += my.npieces
                if my.res or m.res: m.res = None
            ctx.tag("add")
        elif name in ("copy", "pickle"):
            if name == "copy":
                y = copy.deepcopy(x) if o["deep"] else x.copy()
            else:
                y = pickle.loads(pickle.dumps(x))
            my = m.clone()
            if name == "pickle" and W.typ in ("NN", "NNN"): pass
            if len(objs) < 4:
                objs.append(y); mods.append(my)
            else:
                j = o["p"] % 4
                objs[j] = y; mods[j] = my
            if y.__class__ is not x.__class__: fail("the copy is a %s" % type(y))
            if m.n and not (x == y): fail("a %s does not compare equal to the original" % name)
            ctx.tag(name)
        elif name == "clear":
            x.clear()
            mods[i] = Model()
            check_empty(W, x, what)
        elif name == "fin":
            if m.fin or not m.n:
                continue
            same = m.pure and m.kinds and len({k for k, _ in m.kinds}) == 1
            if same and o["deep"]:
                kind = m.kinds[0][0]
                z = x.copy()
                lists = [[] for _ in W.typ]
                for k, q in m.kinds + [(kind, o)]:
                    c = W.cats(k, q)
                    c = c + [c[-1]] * (len(W.typ) - len(c))
                    for l, cc in zip(lists, c): l.append(cc)
                r, res = W.unit(False, kind, o)
                W.process(x, kind, o, False, True)
                W.process(z, kind, o, False, False)
                z.finalize(*W.vars(lists))
                m.addraw(r); m.addres(res); m.n += 1
                for v in ("varxi", "varxip", "varxim", "varzeta", "vargam0", "vargam3"):
                    if hasattr(z, v) and W.typ not in ("NN", "NNN"):
                        cmp.close(v, getattr(x, v), getattr(z, v), 1e-6, None, what)
                ctx.tag("deferred variance")
            else:
                c = W.cats("auto" if len(W.kinds) > 1 else "cross", dict(ia=0, ib=0, ic=0))
                c = c + [c[-1]] * (len(W.typ) - len(c))
                x.finalize(*W.vars([[q] for q in c]))
            m.fin = True
            ctx.tag("fin")
        elif name == "cov":
            if not m.fin or not x.results or W.typ in ("NN", "NNN"):
                continue
            try:
                x.estimate_cov("bootstrap")
            except (RuntimeError, ValueError, np.linalg.LinAlgError):
                pass
            ctx.tag("cov")
        elif name == "xi":
            if W.typ != "NN" or not m.fin or m.res is None or W.patched:
                continue
            rr = W.new()
            rr.process(W.pools[1][o["ib"]])
            try:
                x.calculateXi(rr=rr)
            except ValueError:
                if rr.tot != 0: raise
                continue
            ctx.tag("calculateXi")
        elif name == "bad":
            b = badobj(W, o["bad"])
            if b is None:
                continue
            if o["deep"]:
                if o["bad"] == 3 and W.pools[0][0].coords == "3d":
                    continue
                try:
                    if o["bad"] not in (4, 5): W.process(b, kind, o, True, False)
                except ValueError:
                    continue
            for u, v in ((x, b), (b, x)):
                try:
                    u += v
                except (ValueError, TypeError):
                    pass
                else:
                    fail("adding incompatible objects was accepted (variant %d) %s" % (o["bad"], what))
            ctx.tag("bad%d" % o["bad"])
        for j, (y, my) in enumerate(zip(objs, mods)):
            check_obj(W, y, my, "%s object %d of %d, touched %d" % (what, j, len(objs), i))
            most = max(most, my.npieces)
    ctx.tag(W.typ, W.bt, "patched" if W.patched else "unpatched")
    if most < 2:
        ctx.trivial("no object with two pieces")


def run3(case, ctx):
    run(case, ctx, True)


whole_st = st.fixed_dictionaries(dict(
    geo=gen.geom(), typ=st.sampled_from(T2), bins=gen.bins_spec(nbmax=5), c1=gen.cat_spec(40, 2), c2=gen.cat_spec(40, 2),
    k1=st.integers(1, 4), k2=st.integers(1, 4), auto=st.booleans(), seed=st.integers(0, 100), style=st.sampled_from(["acc", "sum", "deferred"]), order=st.integers(0, 1000),
))


def part(d, p, k):
    return {q: (v[p == k] if isinstance(v, np.ndarray) else v) for q, v in d.items()}


def run_whole(case, ctx):
    """Pieces in every pairing = the whole (brute force, no edges involved except the same arithmetic)."""
    import treecorr
    geo, typ = case["geo"], case["typ"]
    d1, d2 = gen.make(case["c1"], geo), gen.make(case["c2"], geo)
    b = case["bins"]
    if b["bin_type"] == "TwoD" and geo["coords"] != "flat":
        b = dict(b, bin_type="Log")
    kw = dict(gen.bins_kw(b, geo), brute=True, verbose=0)
    auto = case["auto"] and typ[0] == typ[1]
    f1, f2 = gen.fields_of(typ)
    R = ref2.corr2("NN", d1, None if auto else d2, ref2.Binner(**gen.bins_kw(b, geo)), tol=1e-9)
    if R["amb"]: raise Skip("ambiguous")
    cls = gen.corr_class(typ)
    y = cls(**kw)
    mk = lambda d, f: treecorr.Catalog(verbose=0, **gen.catkw(d, f))
    def pieces(d, k, seed):
        p = np.random.RandomState(seed).randint(0, k, 64)[:d["n"]]
        out = [part(d, p, i) for i in range(k) if (p == i).any()]
        return [dict(q, n=len(q["U"])) for q in out if (ref2.wts(dict(q, n=len(q["U"]))) != 0).any()]
    for d in (d1, d2):
        if not (ref2.wts(d) != 0).any(): raise Skip("no live objects")
    a1 = [mk(q, f1) for q in pieces(d1, case["k1"], case["seed"])]
    if auto:
        a = mk(d1, f1)
        y.process(a)
        jobs = [(i, j) for i in range(len(a1)) for j in range(i, len(a1))]
    else:
        a, bb = mk(d1, f1), mk(d2, f2)
        y.process(a, bb)
        a2 = [mk(q, f2) for q in pieces(d2, case["k2"], case["seed"] + 1)]
        jobs = [(i, j) for i in range(len(a1)) for j in range(len(a2))]
    np.random.RandomState(case["order"]).shuffle(jobs)
    x = cls(**kw)
    twod = b["bin_type"] == "TwoD"
    for n, (i, j) in enumerate(jobs):
        t = x if case["style"] in ("acc", "deferred") else cls(**kw)
        if auto and i == j:
            if case["style"] == "deferred": t.process(a1[i], initialize=False, finalize=False)
            else: t.process_auto(a1[i])
        else:
            p, q = a1[i], (a1 if auto else a2)[j]
            if case["style"] == "deferred": t.process(p, q, initialize=False, finalize=False)
            else: t.process_cross(p, q)
            if auto and twod:       # TwoD auto-correlations count every pair in both orders
                tot = getattr(t, "tot", 0)
                t.process_cross(q, p)
                if typ == "NN": t.tot = tot
        if t is not x: x += t
    v = []
    for L, l in zip(typ, (a, a) if auto else (a, bb)):
        if L != "N": v.append(getattr(treecorr, "calculateVar" + L)([l]))
    x.finalize(*v)
    ctx.tag(typ, b["bin_type"], case["style"], "auto" if auto else "cross")
    if len(jobs) < 2 or not y.npairs.any(): ctx.trivial("one piece or no pairs")
    from props.c08 import compare
    compare(x, y, typ, auto, "(%s)" % case["style"], tol=1e-7)


TR = ["NN", "NN", "NK", "NK", "NG", "NZ", "NV", "NT", "NQ", "KK", "KZ", "ZZ", "GG", "KG", "VV", "KQ", "NNN", "KKK", "GGG"]
reuse_st = st.fixed_dictionaries(dict(
    geo=gen.geom(coords=["flat", "flat", "sphere", "3d"]), typ=st.sampled_from(TR), bins=gen.bins_spec(nbmax=4), bt=st.sampled_from(["LogRUV", "LogSAS", "LogMultipole"]), nb=st.integers(1, 2), fm=st.sampled_from([0.5, 1.2]),
    c=st.lists(gen.cat_spec(9, 3, wmodes=("none", "uniform")), min_size=9, max_size=9), npatch=st.sampled_from([0, 2, 2, 3]), local=st.booleans(), pseed=st.integers(0, 100), mode=st.integers(0, 2),
    uniform=st.just(False), np1=st.sampled_from([0, 2, 3]), vm=st.sampled_from(["shot", "shot", "jackknife", "bootstrap", "sample"]), other=st.sampled_from([False, False, True]),
    dirty=st.lists(st.sampled_from(["proc", "proc", "stat", "stat", "cov", "diag", "est", "write", "read", "copy", "pickle", "sample", "procno", "add", "metric"]), min_size=1, max_size=5),
    m=st.integers(0, 3), kind=st.integers(0, 4), kind1=st.integers(0, 4), ia=st.integers(0, 2), ib=st.integers(0, 2), ic=st.integers(0, 2), clear=st.booleans(),
))


def everything(W, x, seed):
    """All that the object says about its data."""
    d = W.raw(x)
    for nm in ("npatch1", "npatch2", "npatch3", "coords", "metric", "nonzero"):
        if hasattr(x, nm): d[nm] = getattr(x, nm)
    d["results"] = sorted(x.results)
    for k in d["results"]:
        v = x.results[k]
        for nm in ["weight", W.count] + W.xi_names + (["tot"] if W.typ in ("NN", "NNN") else []):
            d["results %s %s" % (k, nm)] = np.array(getattr(v, nm))
    def ask(name, f):
        x._rng = np.random.RandomState(seed)
        try:
            d[name] = np.array(f())
        except (ValueError, RuntimeError, TypeError, AttributeError, np.linalg.LinAlgError) as e:
            d[name] = type(e).__name__ + str(e)[:80]
    for nm in ("varxi", "varxip", "varxim", "varzeta", "vargam0", "vargam1", "vargam2", "vargam3", "cov", "cov_diag", "xi", "zeta"):
        if nm in ("xi", "zeta") and getattr(x, nm, None) is None: continue
        if nm in ("varxi", "varzeta") and W.typ in ("NN", "NNN") and getattr(x, nm, None) is None: continue
        if hasattr(type(x), nm) or nm in x.__dict__: ask(nm, lambda: getattr(x, nm))
    ask("getStat", x.getStat)
    ask("getWeight", x.getWeight)
    for m in ("shot", "jackknife", "sample", "bootstrap", "marked_bootstrap"):
        ask("estimate_cov " + m, lambda: x.estimate_cov(m))
    return d


def run_reuse(case, ctx):
    """process() on an object that has been used before is the same as on a fresh one."""
    import os
    three = len(case["typ"]) == 3
    geo = case["geo"]
    W = World(dict(case, geo=geo), three)
    W1 = World(dict(case, npatch=case["np1"]), three) if case["np1"] != case["npatch"] else W     # what the object is used for before
    W.kw["num_threads"] = 1
    if case["npatch"] > 1 and case["vm"] != "shot": W.kw.update(var_method=case["vm"], num_bootstrap=4)
    typ = W.typ
    fresh = lambda: W.new(rng=np.random.RandomState(5))
    kind = W.kinds[case["kind"] % len(W.kinds)]
    kind1 = W.kinds[case["kind1"] % len(W.kinds)]
    o1 = dict(case, ia=(case["ia"] + 1) % 3) if case["other"] else case
    err = (ValueError, RuntimeError, TypeError, AttributeError, np.linalg.LinAlgError)
    x = fresh()
    first = True
    for i, q in enumerate(case["dirty"]):
        if first and q not in ("proc", "procno", "read", "metric"):
            W1.process(x, kind1, o1, True, True)
        first = False
        try:
            if q == "proc": W1.process(x, kind1, o1, True, True)
            elif q == "procno": W1.process(x, kind1, o1, True, False)
            elif q == "metric":
                if geo["coords"] == "sphere": x.process(*W1.cats(kind1, o1), metric="Euclidean" if three else "Arc", **(dict(patch_method="local") if W.bt == "LogMultipole" else dict(algo="triangle") if three else {}))
            elif q == "stat":
                r = fresh()
                if typ == "NN":
                    r.process(W1.pools[1][o1["ib"]])
                    a = dict(rr=r)
                    if i % 2:
                        dr = fresh(); dr.process(W1.pools[0][o1["ia"]], W1.pools[1][o1["ib"]])
                        a.update(dr=dr)
                    x.calculateXi(**a)
                elif typ == "NNN":
                    W1.process(r, "auto", dict(o1, ia=(o1["ia"] + 1) % 3), True, True)
                    x.calculateZeta(rrr=r)
                elif typ[0] == "N":
                    r.process(W1.pools[0][(o1["ia"] + 1) % 3], W1.pools[1][o1["ib"]])
                    x.calculateXi(**{"r" + typ[1].lower(): r})
            elif q == "cov": x.cov
            elif q == "diag": x.cov_diag
            elif q == "est": x.estimate_cov(["jackknife", "sample", "bootstrap", "marked_bootstrap"][case["m"]])
            elif q == "write": x.write(os.path.join(ctx.tmp(), "w"), write_patch_results=bool(case["m"] % 2), write_cov=bool(case["m"] // 2))
            elif q == "read":
                r = fresh(); W1.process(r, kind1, o1, True, True)
                fn = os.path.join(ctx.tmp(), "r" + ["", ".fits", ".hdf5", ".txt"][case["m"]])
                r.write(fn, write_patch_results=bool(i % 2))
                x.read(fn)
            elif q == "copy": x = x.copy()
            elif q == "pickle": x = pickle.loads(pickle.dumps(x))
            elif q == "sample" and not three:
                a = W1.cats(kind1, o1)
                x.sample_pairs(3, a[0], a[-1], min_sep=x.min_sep, max_sep=x.max_sep)
            elif q == "add":
                y = fresh(); W1.process(y, kind1, o1, True, False); x.clear(); x += y
        except err:
            pass
    ctx.tag(typ, W.bt, "patched" if W.patched else "unpatched", *["d-" + q for q in case["dirty"]])
    y = fresh()
    if case["clear"]: x.clear()
    for z in (x, y):
        z._rng = np.random.RandomState(7)
        W.process(z, kind, case, True, True)
    if not getattr(y, W.count).any(): ctx.trivial("no pairs")
    what = "(used object, after %s%s)" % (case["dirty"], " and clear" if case["clear"] else "")
    if not (x == y and y == x): fail("used and fresh objects are not equal after processing the same data %s" % what)
    a, b = everything(W, x, 3), everything(W, y, 3)
    if set(a) != set(b): fail("attributes %s differ from those of a fresh object %s" % (sorted(set(a) ^ set(b)), what))
    for k in b:
        if isinstance(b[k], np.ndarray) or isinstance(a[k], np.ndarray):
            if isinstance(a[k], str) or isinstance(b[k], str) or not np.array_equal(a[k], b[k], equal_nan=b[k].dtype.kind in "fc"):
                fail("%s is %s, for a fresh object %s %s" % (k, a[k], b[k], what))
        elif a[k] != b[k]: fail("%s is %s, for a fresh object %s %s" % (k, a[k], b[k], what))


SUBS = [Sub("two", hist, run, quick=4000), Sub("three", hist3, run3, quick=1800), Sub("whole", whole_st, run_whole, quick=2500),
        Sub("reuse", reuse_st, run_reuse, quick=1600)]
