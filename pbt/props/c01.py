"""C01: counts and scalar two-point correlations = direct pair sum."""
import numpy as np
from hypothesis import strategies as st
import gen, ref2, cmp
from core import Sub, Skip, fail

RULE = ("Catalogs of 1..150 objects (4 coordinate systems x sky regions x 7 layouts x weight modes) and a bin specification are "
        "drawn; the correlation at zero slop / forced brute force is compared with an independent O(N^2) numpy sum. "
        "Non-trivial: at least one counted pair, and no pair within rounding of a bin edge (those cases are skipped).")
ASSUMPTIONS = ["tree cells hold single precision sums; generated weights/fields are dyadic so that such sums are exact",
               "objects of exactly zero weight are not pairs"]

TYPES = ["NN", "NN", "NK", "KK", "NZ", "KZ", "ZZ"]


def strat(nmax, nmin=1, types=TYPES):
    return st.fixed_dictionaries(dict(
        typ=st.sampled_from(types), auto=st.booleans(), geo=gen.geom(),
        c1=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "zeros", "wide", "uniform", "zeros", "wide", "neg"]),
        c2=gen.cat_spec(nmax, nmin, wmodes=["none", "uniform", "zeros", "wide"]),
        same=st.integers(0, 3), bins=gen.bins_spec(),
        mode=st.sampled_from(["brute", "brute", "slop0", "slop0", "brute1", "brute2", "slop0angle"]),
        mintop=st.sampled_from([None, 0, 3, 7]), maxtop=st.sampled_from([0, 0, 0, 1, 3, None]),
    ))


def mode_kw(mode):
    return dict(brute=dict(brute=True), slop0=dict(bin_slop=0), brute1=dict(brute=1, bin_slop=0),
                brute2=dict(brute=2, bin_slop=0), slop0angle=dict(bin_slop=0, angle_slop=0.))[mode]


def run(case, ctx, tol_f=1e-9):
    typ = case["typ"]
    auto = case["auto"] and typ[0] == typ[1]
    geo = case["geo"]
    d1 = gen.make(case["c1"], geo)
    if case["same"] == 0:       # second catalog shares positions with the first (coincident cross pairs)
        s2 = dict(case["c2"], seed=case["c1"]["seed"], layout=case["c1"]["layout"], off=case["c1"]["off"])
    else:
        s2 = case["c2"]
    d2 = gen.make(s2, geo)
    b = case["bins"]
    if geo["coords"] != "flat" and b["bin_type"] == "TwoD":
        b = dict(b, bin_type="Log")
    bk = gen.bins_kw(b, geo)
    kw = dict(bk, **mode_kw(case["mode"]))
    if case["mintop"] is not None:
        kw["min_top"] = case["mintop"]
    # A shallow top level lets even a small catalog be traversed as a tree of cells.
    if case["maxtop"] is not None:
        kw["max_top"] = case["maxtop"]
        kw["min_top"] = min(kw.get("min_top", 0), case["maxtop"])
    f1, f2 = gen.fields_of(typ)
    if not (ref2.wts(d1) != 0).any() or not (ref2.wts(d2) != 0).any():
        raise Skip("no live objects")
    B = ref2.Binner(**bk)
    exact = case["mode"] == "brute"
    tol = (1e-9 if exact else 3e-7)
    if geo["coords"] == "sphere":
        tol = max(tol, 1e-8)
    R = ref2.corr2(typ, d1, None if auto else d2, B, tol=tol)
    if R["amb"]:
        raise Skip("ambiguous")
    neg = case["c1"]["w"] == "neg"
    if neg and (typ != "NN" or not exact):
        raise Skip("negative weights only for counts")
    c = gen.corr_class(typ)(**kw)
    c1 = gen.catalog(d1, f1)
    if auto:
        c.process(c1)
    else:
        c.process(c1, gen.catalog(d2, f2))
    ctx.tag(typ, geo["coords"], b["bin_type"], "auto" if auto else "cross", case["mode"], case["c1"]["layout"])
    if neg:
        # coincident objects of cancelling weight form an empty cell
        p = ref2.cart(d1)
        if len(np.unique(p, axis=0)) < len(p):
            raise Skip("cells of cancelling weight")
        ctx.tag("negative-weights")
    if R["npairs"].sum() == 0:
        ctx.trivial("no pairs")
    else:
        ctx.tag("pairs>100" if R["npairs"].sum() > 100 else "pairs<=100")
    chord = geo["coords"] == "sphere"
    if neg:
        tol_f = 3e-6
    cmp.check2(c, R, typ, B, auto, exact_r=exact, chord=chord, tol_f=tol_f, rtol_w=1e-6 if neg else 1e-9)
    if typ == "NN":
        cmp.close("tot", c.tot, R["tot"], 1e-12)


SUBS = [
    Sub("small", strat(14), run, quick=16000),
    Sub("medium", strat(150, 20), run, quick=8000),
]
