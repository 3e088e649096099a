"""C19: patches partition a catalog; derived catalogs agree with their source; histories never change the data."""
import os, pickle
import numpy as np
from hypothesis import strategies as st
import catmodel as cm
import props.c17 as c17
import props.c18 as c18
from core import Sub, Skip, fail

RULE = ("Stateful: a program of operations (get_patches in memory or lazily, patch_centers, select with masks/indices/slices, combine with masks, copy, pickle, load, unload, statistics, pair counts, taking a patch as a "
        "catalog of its own, changing the arrays given as input) on a pool of catalogs made from arrays or files is run against a model holding the expected rows of every catalog; every catalog of the pool is compared "
        "after every step.  Non-trivial: at least three operations that had an effect.  Sub 'forms': single-patch/integer-patch/array forms give the same patches, counts and covariances.")
ASSUMPTIONS = ["a patch with zero total weight cannot be made a catalog (documented ValueError)", "lazily read patches without objects are not loaded (known finding of C08)"]

SPEC = cm.spec.filter(lambda s: s["n"] > 3)


class Slot:
    def __init__(self, cat, e, file=False, single=None, npatch=1, centers=None, tol=1e-15, keep=False, name=""):
        self.cat, self.e, self.file, self.single, self.npatch, self.centers, self.tol, self.keep, self.name = cat, e, file, single, npatch, centers, tol, keep, name
        self.trivial_patch = None

    def derived(self, cat, e, **kw):
        a = dict(file=self.file, single=self.single, npatch=self.npatch, centers=self.centers, tol=self.tol, keep=self.keep)
        a.update(kw)
        return Slot(cat, e, **a)


def cut(e, k):
    out = {c: e[c][k] for c in e if c in cm.ALLCOLS or c in ("patch", "rows")}
    out["nontrivial"] = e["nontrivial"]
    return summary(out)


def summary(e):
    e["sumw"] = float(np.sum(e["w"]))
    e["nobj"] = int(np.sum(e["w"] != 0))
    return e


def var(e, c):
    w = e["w"]
    m = np.sum(w * e[c]) / np.sum(w)
    return np.sum(w ** 2 * (e[c] - m) ** 2) / np.sum(w)


def weightless(e):
    return "patch" in e and any(e["w"][e["patch"] == i].sum() == 0 for i in set(e["patch"]))


def verify(s, what, stats=False):
    cat, e = s.cat, s.e
    if s.single is None: cm.compare(cat, e, what, max(s.tol, 1e-14), patch=True)
    else:
        cm.compare(cat, e, what, max(s.tol, 1e-14), patch=False)
        if cat.patch != s.single: fail("%s: patch is %s, expected %s" % (what, cat.patch, s.single))
    if cat.npatch != s.npatch: fail("%s: npatch %s, expected %s" % (what, cat.npatch, s.npatch))
    if stats:
        for f in cm.FIELDS:
            cs = ["k"] if f == "k" else [f + "1", f + "2"]
            if cs[0] in e:
                want = np.mean([var(e, c) for c in cs]) if s.var is None or f not in s.var else s.var[f]
                got = getattr(cat, "var" + f)
                if abs(got - want) > 1e-10 * (abs(want) + 1e-3): fail("%s: var%s is %r, expected %r" % (what, f, got, want))


Slot.var = None
Slot.coords = ""


def centers_of(s):
    e = s.e
    co = s.cat.coords
    P = np.column_stack([e[c] for c in ("xy" if co == "flat" else "xyz")])
    pp = e["patch"] if "patch" in e else np.zeros(len(P), int)
    n = s.npatch if "patch" in e else 1
    cen = []
    for p in range(n):
        w = e["w"][pp == p]
        if w.sum() == 0: return None
        cen.append((P[pp == p] * w[:, None]).sum(axis=0) / w.sum())
    cen = np.array(cen)
    if co == "spherical":
        nn = np.sqrt((cen ** 2).sum(axis=1))
        if (nn < 1e-3).any(): return None
        cen /= nn[:, None]
    return cen


def counts(s, what):
    """Pair counts of the catalog (all pairs) against numpy."""
    import treecorr
    e = s.e
    if len(e["w"]) < 2 or ("ra" in e and s.coords.startswith("both")): return False
    m = "Euclidean"
    P = np.column_stack([e[c] for c in ("xy" if s.cat.coords == "flat" else "xyz")])
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(axis=2))
    iu = np.triu_indices(len(P), 1)
    lo, hi = 1e-4, 1e3
    if (D[iu] < 1.1 * lo).any(): return False
    if "ra" in e and ("r" not in e): hi = 2.5
    nn = treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=3, verbose=0, brute=True) if "ra" not in e or "r" in e else treecorr.NNCorrelation(min_sep=lo, max_sep=hi, nbins=3, sep_units="rad", verbose=0, brute=True)
    try: nn.process(s.cat, low_mem=False)
    except ValueError as x: fail("%s: %s" % (what, x))
    sep = D[iu]
    ok = sep < hi
    if (np.abs(sep - hi) < 1e-3 * hi).any(): return False
    ww = (e["w"][:, None] * e["w"][None])[iu]
    got, want = nn.weight.sum(), ww[ok].sum()
    if "patch" in e and weightless(e): return False
    if abs(got - want) > 1e-6 * np.sum(np.abs(ww)) + 1e-12: fail("%s: pair weights %r, expected %r" % (what, got, want))
    g, w = nn.npairs.sum(), (ok & (ww != 0)).sum()
    if not ((e["w"] == 0).any()) and g != w: fail("%s: %s pairs, expected %s" % (what, g, w))
    return True


def start(case, ctx, i):
    """The i-th initial catalog."""
    import treecorr
    c = dict(case)
    c["s"] = dict(case["s"], seed=case["s"]["seed"] + 77 * i)
    if c["patch"] == "int": c["patch"] = "array"
    s = c["s"]
    arrays = None
    if s["coords"] in ("both", "bothr") and c["patch"] in ("centers", "kmeans"): c["patch"] = "array"
    sub = type("C", (), {"tmp": lambda self: os.path.join(ctx.tmp(), "f%d" % i)})()
    os.makedirs(sub.tmp(), exist_ok=True)
    cat, e, mod, opt, cen = c18.prepare(c, sub)
    file = cat.file_name is not None
    if file: cat.load()
    tol = 1e-15
    if c["patch"] == "kmeans" and "patch" in e:
        cen = np.array(cat._centers)
        P = np.column_stack([e[q] for q in ("xy" if cat.coords == "flat" else "xyz")])
    n = cat.npatch
    if "patch" in e and c["patch"] == "array":
        want = max([int(e["patch"].max()) + 1] if True else [])
        allp = cat.config.get("npatch")
        # the number of patches is that of all rows given, also those without weight
    return Slot(cat, e, file=file, npatch=n, centers=cen, tol=tol, keep=opt.get("keep_zero_weight", False)), mod


def index(kind, a, b, n):
    r = np.random.RandomState(a * 31 + b)
    if kind == 0: m = r.uniform(size=n) < 0.6; return m, np.where(m)[0]
    if kind == 1: i = np.sort(r.permutation(n)[:max(1, b % (n + 1))]); return i, i
    if kind == 2: i = r.permutation(n)[:max(1, n - b % 3)]; return i, i
    if kind == 3: sl = slice(a % 2, None, 1 + b % 2); return sl, np.arange(n)[sl]
    return slice(None), np.arange(n)


def check(case, ctx):
    import treecorr
    pool = []
    mods = []
    for i in range(case["nstart"]):
        s, mod = start(case, ctx, i)
        Slot.coords = case["s"]["coords"]
        pool.append(s); mods.append(mod)
    done = 0
    with c17.noPandas(treecorr, True):
        for step, (op, i, a, b) in enumerate(case["ops"]):
            s = pool[i % len(pool)]
            cat, e = s.cat, s.e
            what = "step %d: %s of %d" % (step, op, i % len(pool))
            n = len(e["w"])
            try_verify = True
            if op in ("patches", "lowpatches"):
                if weightless(e): continue
                empty = "patch" in e and len(set(e["patch"])) < s.npatch
                low = op == "lowpatches"
                if low and s.file and s.centers is not None and empty: continue
                ps = cat.get_patches(low_mem=low)
                if s.single is not None or "patch" not in e or s.npatch == 1:
                    if len(ps) != 1 or ps[0] is not cat: fail("%s: a catalog of one patch gives %d patches" % (what, len(ps)))
                else:
                    t = {c: max(s.tol, 1e-14) * (np.abs(e[c]) + np.abs(e[c]).max(initial=1)) for c in e if c in cm.ALLCOLS}
                    c18.compare_patches(ps, e, t, what)
                    if [p._single_patch for p in ps] != sorted(p._single_patch for p in ps): fail("%s: order of patches" % what)
                    for p in ps:
                        if p.npatch != s.npatch: fail("%s: npatch of a patch is %s" % (what, p.npatch))
                    if case["take"] and len(pool) < 5:
                        p = ps[a % len(ps)]
                        if p._single_patch in set(e["patch"]):
                            pe = cut(e, e["patch"] == p._single_patch); pe.pop("patch"); pe["nontrivial"] = p.nontrivial_w
                            q = s.derived(p, pe, single=p._single_patch, file=p.file_name is not None, centers=None)
                            q.shared = True
                            pool.append(q)
            elif op == "centers":
                if s.single is not None: cen = s.centers
                want = s.centers if s.centers is not None else (centers_of(s) if s.single is None else None)
                if want is None: continue
                got = cat.patch_centers
                if got.shape != want.shape or not (np.abs(got - want) <= 1e-11 * (1 + np.abs(want).max())).all(): fail("%s: %s, expected %s" % (what, got, want))
            elif op == "select":
                if getattr(s, "shared", False): continue     # (a patch is part of another catalog)
                key, k = index(a % 5, a, b, n)
                if len(k) == 0 or e["w"][k].sum() == 0: continue
                cat.select(key)
                s.e = cut(e, k)
                if a % 5 != 4: s.file = False
            elif op == "combine":
                others = [s] + [pool[(i + j) % len(pool)] for j in range(1, 1 + b % 3)]
                others = [o for o in others if all((c in o.e) == (c in e) for c in cm.ALLCOLS)]
                masks = None
                ks = [np.arange(len(o.e["w"])) for o in others]
                if a % 2:
                    masks, ks = zip(*[index(a % 3, a + j, b, len(o.e["w"])) for j, o in enumerate(others)])
                    masks = list(masks)
                parts = [cut(o.e, k) for o, k in zip(others, ks)]
                ne = {c: np.concatenate([p[c] for p in parts]) for c in parts[0] if c in cm.ALLCOLS}
                if len(ne["w"]) == 0 or ne["w"].sum() == 0 or len(pool) > 5: continue
                ne["nontrivial"] = True
                summary(ne)
                was = [o.cat.loaded for o in others]
                new = treecorr.Catalog.combine([o.cat for o in others], mask_list=masks, low_mem=a % 4 > 1)
                q = s.derived(new, ne, single=None, npatch=1, centers=None, file=False, keep=True)
                q.comb = True
                for o, l in zip(others, was):
                    if a % 4 > 1 and not l and o.cat.loaded: fail("%s: still loaded after combining with low_mem" % what)
                pool.append(q)
                verify(q, what + " (new)")
            elif op == "copy":
                if len(pool) > 5: continue
                new = cat.copy() if a % 2 else pickle.loads(pickle.dumps(cat))
                pool.append(s.derived(new, dict(e)))
                verify(pool[-1], what + " (new)")
            elif op == "unload":
                cat.unload()
                if s.file and cat.loaded: fail("%s: still loaded" % what)
            elif op == "load":
                cat.load()
                if not cat.loaded: fail("%s: not loaded" % what)
            elif op == "stats":
                verify(s, what, stats=True)
            elif op == "pairs":
                if weightless(e) or ("patch" in e and len(set(e["patch"])) < s.npatch and s.file and s.centers is not None): continue
                if not counts(s, what): continue
            elif op == "input":
                # the arrays given belong to the user
                m = mods[i % len(mods)]
                for c in m:
                    if c != "flag": m[c][:] = 99.
            done += 1
            ctx.tag(op)
            for j, o in enumerate(pool):
                o.unloaded_before = not o.cat.loaded
                if not o.unloaded_before or b % 2: verify(o, "%s; catalog %d" % (what, j), stats=b % 3 == 0)
                if o.unloaded_before and o.file: o.cat.unload(); o.unloaded_before = not o.cat.loaded
            for o in pool: o.unloaded_before = not o.cat.loaded
    for j, o in enumerate(pool): verify(o, "at the end; catalog %d" % j, stats=True)
    ctx.tag(case["s"]["coords"], "src=" + case["src"], "patch=" + case["patch"])
    if done < 3: ctx.trivial("few operations")


Slot.unloaded_before = False
OPS = ["patches", "lowpatches", "centers", "select", "select", "combine", "copy", "unload", "load", "stats", "pairs", "input"]
strat = st.fixed_dictionaries(dict(
    s=SPEC, lay=c18.LAY, src=st.sampled_from(["mem", "file", "loaded"]), patch=st.sampled_from(["none", "array", "array", "centers", "kmeans"]), np=st.integers(1, 4), pick=st.integers(0, 11), cfgprec=st.none(),
    nstart=st.integers(1, 2), take=st.booleans(), ops=st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 5), st.integers(0, 9), st.integers(0, 9)).map(list), min_size=2, max_size=9)))


def check_forms(case, ctx):
    """The same patches given in different forms."""
    import treecorr
    s = dict(case["s"])
    s["fields"] = ["k"]; s["wpos"] = "none"; s["flag"] = "none"; s["nan"] = []; s["first"] = s["last"] = s["nth"] = None
    if s["w"] == "zeros": s["w"] = "pos"
    n = s["n"]
    d = cm.raw(s)
    opt = cm.options(s, d)
    opt.pop("keep_zero_weight", None)
    r = np.random.RandomState(s["seed"] + 5)
    NP = case["np"]
    cen = None
    if case["cen"]:
        cen = c17.centers_for(case, s, d, r)
        full = cm.expect({c: d[c] for c in d}, opt)
        patch = c17.near(np.column_stack([full[c] for c in "xyz"[:cen.shape[1]]]), cen)
    else: patch = r.randint(0, NP, n)
    sub = lambda k: {c: d[c][k] for c in d}
    whole = treecorr.Catalog(verbose=0, **d, **opt, **(dict(patch_centers=cen) if cen is not None else dict(patch=patch, npatch=NP)))
    if NP > 1 and not np.array_equal(whole.patch, patch): fail("patch numbers %s, expected %s" % (whole.patch, patch))
    members = sorted(set(patch))
    forms = {"whole": [whole]}
    forms["ints"] = [treecorr.Catalog(verbose=0, **sub(patch == i), **opt, patch=int(i), npatch=NP) for i in members]
    forms["arrays"] = [treecorr.Catalog(verbose=0, **sub(patch == i), **opt, patch=patch[patch == i], npatch=NP) for i in members]
    forms["picked"] = [treecorr.Catalog(verbose=0, **d, **opt, patch=int(i), **(dict(patch_centers=cen))) for i in members] if cen is not None else None
    forms["patches"] = list(whole.patches) if NP > 1 else None
    forms["float"] = [treecorr.Catalog(verbose=0, **d, **opt, patch=patch.astype(float), npatch=NP)] if cen is None else None
    forms["list"] = [treecorr.Catalog(verbose=0, **d, **opt, patch=list(patch), npatch=NP)] if cen is None else None
    e = cm.expect(d, opt, patch)
    for name in ("ints", "picked", "patches"):
        if forms[name] is None: continue
        for q, i in zip(forms[name], members):
            pe = cut(e, patch == i); pe.pop("patch")
            pe["nontrivial"] = e["nontrivial"]
            cm.compare(q, pe, "%s, patch %d" % (name, i), 1e-14, patch=False)
            if q.patch != i: fail("%s: patch %s, expected %s" % (name, q.patch, i))
            if q.npatch != NP: fail("%s: npatch %s" % (name, q.npatch))
    for q, i in zip(forms["arrays"], members):
        if NP > 1 and not (np.ndim(q.patch) == 1 and (q.patch == i).all()): fail("arrays: patch is %s, expected all %d" % (q.patch, i))
    hi = 2. if "ra" in d and "r" not in d and "x" not in d else 100.
    kw = dict(min_sep=hi / 100, max_sep=hi, nbins=3, verbose=0, bin_slop=0, brute=True)
    if "ra" in d and "x" not in d and "r" not in d: kw["sep_units"] = "rad"
    if "ra" in d and "x" in d and "r" not in d: kw["sep_units"] = "rad"
    res = {}
    for name in forms:
        if forms[name] is None: continue
        nn = treecorr.NNCorrelation(kw); kk = treecorr.KKCorrelation(kw)
        arg = forms[name] if len(forms[name]) > 1 or case["aslist"] else forms[name][0]
        nn.process(arg); kk.process(arg)
        out = dict(npairs=nn.npairs, weight=nn.weight, meanr=nn.meanr, tot=np.array([nn.tot]), xi=kk.xi, kw=kk.weight, var=kk.varxi)
        if len(members) > 1:
            for method in ("jackknife", "sample"):
                try: out[method] = kk.estimate_cov(method)
                except (RuntimeError, ValueError): out[method] = None
        res[name] = out
    for name in res:
        for q in res[name]:
            a, b = res[name][q], res["whole"][q]
            if (a is None) != (b is None): fail("%s: %s is %s, with the whole catalog %s" % (name, q, a, b))
            if a is None: continue
            sc = np.max(np.abs(b[np.isfinite(b)]), initial=1e-300)
            if not np.allclose(a, b, rtol=1e-9, atol=1e-11 * sc, equal_nan=True): fail("%s: %s is %s, with the whole catalog %s" % (name, q, a, b))
    ctx.tag(s["coords"], "np=%d" % NP, "centers" if case["cen"] else "", "members=%d" % len(members))
    if NP == 1: ctx.trivial("one patch")


fstrat = st.fixed_dictionaries(dict(s=cm.spec.filter(lambda s: s["n"] > 2), np=st.integers(1, 4), cen=st.booleans(), aslist=st.booleans()))
SUBS = [Sub("history", strat, check, quick=3000), Sub("forms", fstrat, check_forms, quick=600)]
