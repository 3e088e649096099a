"""C02: spin-field two-point correlations = direct sum of projected fields."""
import numpy as np
from hypothesis import strategies as st
import cmp, gen, ref2
from core import Sub, Skip
from props import c01

RULE = ("As C01 but for all 18 field combinations with complex spin-0..4 fields; oracle: O(N^2) sum with own sphere frames. "
        "Non-trivial: at least one counted pair and no ambiguous pair.")
ASSUMPTIONS = ["xip_im of an auto-correlation is compared only for TwoD (otherwise its sign depends on the arbitrary order of the two objects of a pair)",
               "single-precision cell data: relative tolerance 3e-6 of the summed absolute field products"]
TYPES = ["NV", "KV", "VV", "NG", "KG", "GG", "NT", "KT", "TT", "NQ", "KQ", "QQ", "NZ", "KZ", "ZZ", "NK", "KK"]


def strat(nmax, nmin=1):
    return st.fixed_dictionaries(dict(
        typ=st.sampled_from(TYPES), auto=st.booleans(), geo=gen.geom(coords=["flat", "sphere", "sphere", "3d", "rdr"]),
        c1=gen.cat_spec(nmax, nmin, fmodes=["rand", "rand", "const", "sparse"]),
        c2=gen.cat_spec(nmax, nmin, fmodes=["rand", "rand", "const", "sparse"]),
        same=st.integers(0, 3), bins=gen.bins_spec(),
        mode=st.sampled_from(["brute", "slop0angle"]),
        mintop=st.sampled_from([None, 0, 3, 7]), maxtop=st.sampled_from([0, 0, 1, 3, None]),
    ))


def run(case, ctx):
    c01.run(case, ctx, tol_f=3e-6)


pstrat = st.fixed_dictionaries(dict(
    typ=st.sampled_from(TYPES), auto=st.booleans(), seed=st.integers(0, 9999), n1=st.integers(1, 30), n2=st.integers(1, 20), per=st.lists(st.sampled_from([8., 10., 13.5]), min_size=2, max_size=2),
    span=st.sampled_from([0.3, 0.5, 0.7, 1.]), bt=st.sampled_from(["Log", "Linear"]), fmax=st.sampled_from([0.15, 0.3, 0.49]), nbins=st.integers(1, 6), brute=st.booleans(), maxtop=st.sampled_from([0, 1, 3, None])))


def run_periodic(case, ctx):
    """Periodic boundaries: the direction of a pair is that to the nearest image"""
    r = np.random.RandomState(case["seed"])
    typ = case["typ"]
    auto = case["auto"] and typ[0] == typ[1]
    f1, f2 = gen.fields_of(typ)
    per = case["per"]

    def cat(n):
        d = dict(coords="flat", n=n, x=r.randint(0, 4096, n) / 4096. * per[0] * case["span"], y=r.randint(0, 4096, n) / 4096. * per[1] * case["span"], w=r.randint(1, 17, n) / 8.)
        for f in sorted({f1, f2} - {""}):
            d[f] = r.randint(-32, 33, n) / 16. + (0 if f == "k" else 1j * r.randint(-32, 33, n) / 16.)
        return d
    d1, d2 = cat(case["n1"]), cat(case["n2"])
    mx = case["fmax"] * min(per)
    bk = dict(bin_type=case["bt"], min_sep=mx / 10, max_sep=mx, nbins=case["nbins"])
    B = ref2.Binner(**bk)
    R = ref2.corr2(typ, d1, None if auto else d2, B, metric="Periodic", period=per, tol=3e-7)
    if R["amb"]: raise Skip("ambiguous")
    if R.get("wraps") and not case.get("strict"): raise Skip("pairs across the boundary (known finding)")
    kw = dict(bk, metric="Periodic", xperiod=per[0], yperiod=per[1])
    if case["brute"]: kw["brute"] = True
    else: kw.update(bin_slop=0, angle_slop=0.)
    if case["maxtop"] is not None: kw.update(max_top=case["maxtop"], min_top=0)
    c = gen.corr_class(typ)(**kw)
    c.process(gen.catalog(d1, f1), None if auto else gen.catalog(d2, f2))
    ctx.tag("periodic", typ, "auto" if auto else "cross")
    if R["npairs"].sum() == 0: ctx.trivial("no pairs")
    cmp.check2(c, R, typ, B, auto, exact_r=case["brute"], chord=False, tol_f=3e-6, rtol_w=1e-9)


SUBS = [Sub("small", strat(12), run, quick=14000),
        Sub("medium", strat(100, 13), run, quick=5000),
        Sub("periodic", pstrat, run_periodic, quick=2500)]
