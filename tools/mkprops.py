"""Writes /verif/properties.jsonl (the listed properties)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PAIR2 = ["include/Corr2.h", "src/Corr2.cpp", "include/BinType.h", "include/Metric.h", "include/Process2.h"]

add("C01", "Two-point counts and scalar correlations equal the direct sum over pairs",
    "With zero bin slop or forced brute force, every count and scalar two-point correlation (NN, NK, KK, and scalar x scalar of either kind of spin-0 field), auto or cross, reports in every bin exactly what a direct loop over all pairs of objects with non-zero weight gives: number of pairs, summed weight product and weighted mean field product, and also weighted mean separation and mean log separation (exactly when brute force is forced, within the bin otherwise). An auto-correlation counts every unordered pair once, a cross-correlation every ordered pair once; no pair inside the separation range is lost, duplicated or put in another bin, whatever the coordinates (flat, 3-d, angles on the sphere, angles plus distance), non-negative weights, catalog sizes, duplicated positions or tree shape. The recorded total pair weight is the corresponding total over all pairs, independent of separation.",
    ["inputs", "configurations"],
    "every catalog (any size incl. 0-weight objects, coincident points, clustered or gridded layouts, any non-negative weights, any values), every coordinate system, every bin range/number, and bin_slop=0 or any brute setting",
    "Tests compare against brute force for a handful of fixed catalogs and bin choices, mostly uniform random fields with N large and loose rtol; degenerate layouts, duplicates, and the many tree-traversal shortcut branches are met only by accident.",
    PAIR2 + ["include/Cell.h", "src/Cell.cpp", "treecorr/corr2base.py", "treecorr/nncorrelation.py", "treecorr/nkcorrelation.py", "treecorr/kkcorrelation.py", "treecorr/nzcorrelation.py", "treecorr/kzcorrelation.py", "treecorr/zzcorrelation.py"],
    [("dual-tree recursion", "src/Corr2.cpp process2/process11"), ("single-bin shortcut", "include/BinType.h singleBin"), ("tree build", "src/Cell.cpp BuildCell"), ("normalisation", "treecorr/*correlation.py finalize")],
    ["npairs", "weight", "meanr", "meanlogr", "xi", "tot"])

add("C02", "Spin-field correlations equal the direct sum with projected fields",
    "For vector, shear, trefoil, quatrefoil and spin-0 complex fields, every two-point correlation (each kind against counts, against a scalar, and with itself) equals, at zero slop, the weighted mean over pairs of the field values rotated by their spin times the direction of the line joining the pair, with the documented sign, reality and plus/minus conventions. On the sphere and in 3-d coordinates the direction is that of the great circle joining the two sky positions, measured in each object's own west/north frame. Both the real and imaginary parts, and both the plus and minus combinations, are exact (for an auto-correlation the imaginary part of the plus combination has no defined sign).",
    ["inputs", "configurations"],
    "every catalog with any field values, weights and positions (including poles, ra wrap-around, near-antipodal pairs), every spin, every coordinate system",
    "Tests use small-angle fields or a few fixed catalogs, usually one spin and geometry at a time; spins 1, 3, 4 on the sphere, poles, and imaginary parts are barely sampled.",
    ["include/ProjectHelper.h", "src/Corr2.cpp", "include/Corr2.h", "include/Cell.h", "src/Cell.cpp", "treecorr/ggcorrelation.py", "treecorr/vvcorrelation.py", "treecorr/ttcorrelation.py", "treecorr/qqcorrelation.py", "treecorr/ngcorrelation.py", "treecorr/kgcorrelation.py"],
    [("spin projection", "include/ProjectHelper.h"), ("pair accumulation", "src/Corr2.cpp DirectHelper"), ("normalisation", "treecorr/*correlation.py finalize")],
    ["xi", "xi_im", "xip", "xip_im", "xim", "xim_im", "weight"])

add("C03", "Distance metrics and line-of-sight limits select exactly the documented pairs",
    "For each distance metric (Euclidean, great-circle arc, perpendicular projected in both conventions, lens-plane, periodic) a pair is placed at the separation its documented formula gives and is counted if and only if that separation is in range and its line-of-sight separation is within the requested limits, sign included (positive when the second object is farther). Angular separations are reported as great-circle distances in the requested units. Pruning of the search never changes which pairs are counted.",
    ["inputs", "configurations"],
    "every metric x valid coordinate system x auto/cross x rpar limits (either, both, neither, negative) x period choice, for every set of positions",
    "Tests check each metric on one or two fixed random catalogs; pruning bounds for the projected metrics are only wrong for particular geometries (nearby, wide-angle, deep cells) which fixed catalogs rarely contain.",
    ["include/Metric.h", "include/Position.h", "treecorr/util.py", "src/Corr2.cpp", "treecorr/corr2base.py"],
    [("metric helpers", "include/Metric.h"), ("rpar pruning", "include/Metric.h isRParOutsideRange/InsideRange, tooSmallDist/tooLargeDist"), ("metric/coords validation", "treecorr/util.py parse_metric")],
    ["npairs", "meanr", "meanlogr", "weight"])

add("C04", "Bins are exactly those the user asked for, and every pair falls in its own bin",
    "From any valid combination of bin count, bin size and separation limits, the reported bin edges, centres and sizes tile the requested range exactly (in the requested units; shrinking the bin size only as documented), with left edges inclusive and the outer limits respected. Each pair is counted in the bin whose edges contain its separation: for logarithmic, linear and two-dimensional binning, where the latter uses the signed offset from the first to the second object and auto-correlations count both directions. Bins that receive no pairs report nominal centres, and inconsistent or incomplete binning specifications are rejected.",
    ["inputs", "configurations"],
    "every valid and invalid combination of nbins/bin_size/min_sep/max_sep/sep_units/bin_type/metric, and every pair separation including exactly representable edges",
    "The configuration space is combinatorial; tests check a few hand-picked values, and edge-exact separations only incidentally.",
    ["treecorr/corr2base.py", "include/BinType.h", "treecorr/config.py"],
    [("bin set-up", "treecorr/corr2base.py Corr2.__init__"), ("bin index", "include/BinType.h calculateBinK"), ("empty bins", "treecorr/corr2base.py finalize")],
    ["rnom", "logr", "left_edges", "right_edges", "rnom1d", "nbins", "bin_size", "npairs", "meanr"])

add("C05", "Bin slop and angle slop only blur results by the documented amount",
    "With non-zero bin slop every pair inside the range is still counted exactly once, and no pair is ever placed in a bin whose edge it misses by more than the allowed fraction of a bin, so the cumulative counts and weights below every bin edge are bracketed by the exact ones evaluated one slop below and above it. Means of separation and of scalar fields over all bins are correspondingly preserved up to pairs near the outer limits. The angular error of projected fields is bounded by the angle slop in the same way. Likewise every triangle of a three-point correlation in (r,u,v) or (d2,d3,phi) bins is counted at most once, in bins that its own sides, u, v or phi miss by no more than the allowed fraction of a bin.",
    ["inputs", "configurations"],
    "every catalog, metric, two- and three-point bin type, and every bin_slop, angle_slop and brute=1/2 setting",
    "Tests compare a few default-slop runs to exact ones with tolerances that hide misplaced groups of pairs; the bound is per pair and must hold for each tree geometry.",
    ["include/BinType.h", "src/Corr2.cpp", "src/Corr3.cpp", "include/Split.h", "treecorr/corr2base.py", "treecorr/corr3base.py"],
    [("single-bin test with slop", "include/BinType.h singleBin"), ("split decision", "include/Split.h CalcSplit/CalcSplitSq")],
    ["npairs", "weight", "meanr", "xi"])

add("C06", "Results do not depend on how the computation is executed",
    "The result of a correlation depends only on the set of objects and the specification: not on the number of threads, the order of rows, the way the tree is built (splitting method, minimum and maximum top-level depth, cell size), forced brute force, or repeated execution. With the exact setting all such variations give the same counts exactly and the same sums to rounding; with slop, a fixed tree gives the same result for any thread count.",
    ["inputs", "configurations", "schedules"],
    "all thread counts, split methods, min_top/max_top, row permutations and output options, for all catalogs and two- and three-point types",
    "Tests run one or two settings per option on one data set (and the reference run pins one thread), so order- and thread-dependent loss of pairs is not seen.",
    ["src/Corr2.cpp", "src/Corr3.cpp", "src/Field.cpp", "src/Cell.cpp", "treecorr/util.py", "treecorr/field.py", "include/Split.h"],
    [("per-thread accumulation and merge", "src/Corr2.cpp process, src/Corr3.cpp process"), ("top-level cells", "src/Field.cpp setupTopLevelCells/BuildCells"), ("split", "src/Cell.cpp SplitData")],
    ["all result arrays"])

add("C07", "Correlations respect the symmetries of their definition",
    "Correlations are unchanged by rigid motions of the data (translation, rotation, reflection with the corresponding change of field values, rotations of the sphere), scale with the data when lengths are rescaled with the bins, are linear in each field and multiplicative in the weights, and are unchanged (or conjugated as defined) when the two catalogs are exchanged. Correlating a catalog with itself as a cross-correlation gives twice the auto-correlation; concatenating catalogs adds their pair sums. Constant fields give constant results.",
    ["inputs", "configurations"],
    "every catalog and transformation, every correlation type",
    "Example tests check individual values, not relations between runs; a metamorphic relation quantifies over all transformations and also holds at sizes where no brute-force reference is affordable.",
    ["src/Corr2.cpp", "include/ProjectHelper.h", "src/Cell.cpp", "include/Metric.h", "treecorr/corr2base.py"],
    [("pair kernels", "src/Corr2.cpp"), ("averaged cell data", "src/Cell.cpp CellData")],
    ["all result arrays"])

add("C08", "Splitting catalogs into patches never changes a two-point result",
    "For any assignment of objects to patches (including empty or one-object patches, one or both catalogs patched, differing patch sets, or lists of catalogs), the two-point result equals the result without patches: counts, weights, means, correlations, totals and per-object weights. This holds for both ways of organising the patch computation, for low-memory operation with patches read back from disk, and for the saved per-patch-pair results, whose sum is the total.",
    ["inputs", "configurations", "histories"],
    "all patch assignments, catalogs, list structures, low_mem and patch_method settings, cross and auto",
    "Tests use k-means patches of a uniform field; pathological assignments (empty, tiny, interleaved, unmatched numbers) and combinations with low_mem and lists are not enumerated.",
    ["treecorr/corr2base.py", "treecorr/catalog.py", "treecorr/nncorrelation.py"],
    [("patch loops", "treecorr/corr2base.py _process_all_auto/_process_all_cross"), ("empty pair bookkeeping", "treecorr/nncorrelation.py _add_tot, _zero_copy"), ("patch separation shortcut", "treecorr/corr2base.py _trivially_zero")],
    ["npairs", "weight", "xi", "tot", "results", "varxi"])

add("C09", "Distributing work over processes gives the single-process result",
    "When the patches of one or two catalogs are shared among any number of communicating processes, the process designated as root ends with the same result as a single process, for two- and three-point correlations, every way of pairing patches, with or without low-memory mode. Covariances derived from it agree as well, and no process hangs or drops a patch pair.",
    ["inputs", "configurations", "schedules"],
    "every number of ranks (fewer, equal or more than patches), patch assignment, auto/cross, local/global patch methods",
    "Tests use two ranks and a single data set, and the MPI tests are excluded from the stable test list.",
    ["treecorr/corr2base.py", "treecorr/corr3base.py"],
    [("job assignment", "treecorr/corr2base.py is_my_job, treecorr/corr3base.py is_my_job"), ("gather", "treecorr/corr2base.py / corr3base.py comm send/recv")],
    ["all result arrays on root", "cov"])

add("C10", "Patch-based covariance matrices follow their definitions",
    "For every patch-based method (jackknife, sample, bootstrap, marked bootstrap) the estimated covariance equals the one obtained by literally recomputing the statistic on each resampled set of patch pairs and applying the method's documented formula. It is symmetric and positive semi-definite, has the size of the (stacked) data vector, supports any user function of the results, lists of several statistics, and the design-matrix form, and does not modify the statistics it is computed from. Patches that are empty or missing are handled as documented.",
    ["inputs", "configurations"],
    "every patch assignment, statistic (with or without randoms), method, user function, stacked combination and random seed",
    "Tests compare to simulations within tens of percent or repeat the implementation's own formula for one catalog; the selection of patch pairs in each resampling is not settled by that.",
    ["treecorr/util.py", "treecorr/corr2base.py", "treecorr/nncorrelation.py", "treecorr/corr3base.py"],
    [("resampling pair lists", "treecorr/corr2base.py _jackknife_pairs/_sample_pairs/_marked_pairs/_bootstrap_pairs"), ("covariance formulas", "treecorr/corr2base.py _cov_*, _make_cov_design_matrix"), ("recombination", "_calculate_xi_from_pairs")],
    ["cov", "estimate_cov", "estimate_multi_cov", "build_cov_design_matrix"])

add("C11", "Shot-noise variances and catalog statistics follow their definitions",
    "A catalog reports object counts, summed weights and the weighted variances of its fields exactly as defined, for one catalog or a list of catalogs, and user-supplied variances override them. The default variance of every correlation is the product of the relevant field variances divided by the bin weight with the documented factor, and is zero-safe in empty bins.",
    ["inputs", "configurations"],
    "every catalog (weights, zero weights, masked values), every field type, lists and patches of catalogs, two- and three-point types",
    "Tests check a few catalogs against loose Monte-Carlo scatter; list and patch combination formulas and overrides are not covered exhaustively.",
    ["treecorr/catalog.py", "treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/gggcorrelation.py"],
    [("variance computation", "treecorr/catalog.py calculateVarK/_compute_var*"), ("variance of correlation", "treecorr/*correlation.py finalize")],
    ["vark, varg, ...", "sumw", "nobj", "ntot", "varxi, varxip, varzeta"])

add("C12", "Estimators with random catalogs combine the raw sums as documented",
    "Count-count correlations combine data, random and cross counts with the documented simple, compensated and Landy-Szalay formulas, each count normalised by its own total pair weight; lens-field correlations subtract the random-lens signal, and compensate where defined. The same holds when everything is split in patches, in which case the reported variance uses the matching resampling of all inputs. The result does not depend on whether the randoms share the patch layout, and the inputs are left unmodified.",
    ["inputs", "configurations"],
    "every set of data/random catalogs with differing sizes and weights, all available combinations of dr/rd/rr, every lens-field type",
    "Tests verify one or two data/random pairs with matching sizes; totals with weights, unequal catalogs, and only-dr/only-rd combinations are not systematically reached.",
    ["treecorr/nncorrelation.py", "treecorr/nnncorrelation.py", "treecorr/ngcorrelation.py", "treecorr/nkcorrelation.py", "treecorr/nvcorrelation.py", "treecorr/nzcorrelation.py", "treecorr/ntcorrelation.py", "treecorr/nqcorrelation.py"],
    [("estimators", "treecorr/nncorrelation.py calculateXi, treecorr/n?correlation.py calculateXi, treecorr/nnncorrelation.py calculateZeta")],
    ["xi", "varxi", "zeta", "cov"])

add("C13", "Correlation objects accumulate and combine like sums",
    "Any history of processing calls on a correlation object (with initialisation and finalisation deferred or not), additions of other objects, copies and clears leaves it describing exactly the union of the contributions since it was last initialised. Processing pieces separately and adding the parts equals processing the whole; adding never alters the right-hand object; copies are independent of the original; clearing restores the empty state; objects of another type or with other bins (number, kind or nominal range) are refused.",
    ["histories", "inputs"],
    "all sequences of process/process_auto/process_cross/finalize/add/copy/clear over any catalogs, for two- and three-point types",
    "Tests contain one fixed sequence per class; interactions among deferred finalisation, copies and addition are sequences no fixed test enumerates.",
    ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/ggcorrelation.py", "treecorr/nncorrelation.py", "treecorr/kkkcorrelation.py"],
    [("accumulate", "treecorr/*correlation.py __iadd__, _clear, process"), ("shared memory with C++ object", "treecorr/*correlation.py corr property, copy")],
    ["all result arrays"],
    [("raw sums", "un-normalised accumulators in the arrays before finalisation", "treecorr/*correlation.py")])

add("C14", "Saved correlation results read back to the same object",
    "Writing a correlation to a text, FITS or HDF file and reading it back, into a new object or via the class-level constructor, restores the results to the file's precision together with the binning specification, units, coordinates and metric, including the variance, the covariance matrix and per-patch results when these are written, so that later covariance and estimator calculations give the same answers. The written columns are the documented quantities in the documented units.",
    ["inputs", "configurations"],
    "every correlation type (two- and three-point), bin type, metric, units, precision, file format, and with/without patch results, covariances, randoms",
    "FITS and HDF tests are not in the stable list and each covers one configuration; the combination of type, bin type, format and options is large.",
    ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/writer.py", "treecorr/reader.py", "treecorr/nncorrelation.py", "treecorr/ggcorrelation.py"],
    [("column lists", "_write_col_names/_write_data/_read_from_data"), ("parameter header", "_write_params/_read_params"), ("file formats", "treecorr/writer.py, treecorr/reader.py")],
    ["files", "all result arrays"])

add("C15", "Copies, pickles and printed representations are faithful",
    "Copying (.copy or deepcopy) or pickling and unpickling any catalog or correlation object, in any state, yields an object that compares equal, has identical contents, and behaves identically in every later computation, without sharing mutable state with the original: whatever is done to one of them does not change the other. Evaluating the printed representation of a catalog (printed to full precision) recreates an equal catalog, and of a correlation object an equally specified one. Equality is reflexive and symmetric, and distinguishes any difference in the columns of catalogs and in the measured results, binning, coordinates or metric of correlations.",
    ["inputs", "configurations", "histories"],
    "every object in any state (fresh, processed, patched, finalised or not, with cached fields), followed by any operation",
    "Tests pickle a handful of prepared objects and compare; later behaviour (accumulating into the copy, covariance of the unpickled) is not examined.",
    ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/catalog.py", "treecorr/field.py"],
    [("state", "__getstate__/__setstate__/copy/__repr__/__eq__")],
    ["copy", "pickle", "repr", "=="])

add("C16", "Catalogs hold exactly the cleaned input the user specified",
    "A catalog built from arrays holds, row for row, the input positions (converted to radians from the given units), weights and field values, after the documented row selection, flag rejection, sign flips and removal of zero-weight rows; NaN entries make the row weightless and never leak into any result. Derived positions on the unit sphere or in 3-d match the angles and distances, expression-defined columns equal the evaluated expressions, and malformed or inconsistent inputs are rejected with the documented error. The input arrays are not modified.",
    ["inputs", "configurations"],
    "every combination of coordinate inputs, units, weights, flags, masks, row selections, flips, fields, NaNs and zero weights",
    "Tests fix one example per option; options interact (flags with row slices, NaN with weights, wpos with zero weight).",
    ["treecorr/catalog.py", "treecorr/util.py"],
    [("finish input", "treecorr/catalog.py _finish_input, checkForNaN, select"), ("parsing", "treecorr/catalog.py __init__, makeArray")],
    ["x, y, z, ra, dec, r, w, wpos, k, g1.. , patch, nobj, sumw"])

add("C17", "Reading a catalog file gives the same catalog as building it from arrays",
    "A catalog read from a text, Parquet, FITS or HDF file, with columns given by number or name, in any extension or group, with any row slicing, flags, expressions, units, comment markers and delimiters, equals the catalog built directly from the corresponding arrays with the same options. The same holds when patches are read lazily, when only one patch is read, and when a list of files is read. Unusable files, columns or options raise documented errors.",
    ["inputs", "configurations"],
    "all file formats x column specifications x row selections x options, and all table contents",
    "FITS/HDF catalog tests are excluded from the stable list and each option is tested once with a fixed file; slices with odd strides, empty selections, and option interactions are unsampled.",
    ["treecorr/catalog.py", "treecorr/reader.py", "treecorr/config.py"],
    [("readers", "treecorr/reader.py"), ("column handling", "treecorr/catalog.py _read_file/_check_file"), ("row selection", "treecorr/catalog.py every_nth/first_row/last_row")],
    ["catalog columns"])

add("C18", "Catalogs written to disk read back to the same catalog",
    "A catalog written to a text, FITS or HDF file and read back with the column names it reports is the same catalog to the chosen precision: positions, units, weights, position weights, fields and patch numbers. Writing each patch to its own file and reading them back reproduces the patches, and patch centres written and read reproduce the same centres and hence the same patch assignment.",
    ["inputs", "configurations"],
    "every catalog, file format, precision, patch layout and directory option",
    "Tests check one prepared catalog per format, with FITS/HDF cases not in the stable list.",
    ["treecorr/catalog.py", "treecorr/writer.py", "treecorr/reader.py"],
    [("write", "treecorr/catalog.py write/_write_patches/write_patch_centers"), ("read", "treecorr/catalog.py read_patches/read_patch_centers")],
    ["files", "catalog columns"])

add("C19", "Patches partition a catalog, and derived catalogs agree with their source",
    "The patches of a catalog contain every object exactly once with its own data; patch centres are the weighted means of their members; assigning by given centres puts every object in the patch of its nearest centre. Selecting a subset, combining catalogs, copying, loading, unloading and re-reading in any order give the objects one expects and never change the data seen later. Single-patch and integer-patch forms behave as the equivalent array forms.",
    ["inputs", "configurations", "histories"],
    "every patch specification, and every sequence of get_patches/select/combine/copy/load/unload operations, in memory or from file",
    "Tests check k-means patches on fixed data; mixed orders of lazy loading, selection and combination are histories that unit tests sample once each.",
    ["treecorr/catalog.py", "src/KMeans.cpp", "treecorr/field.py"],
    [("patches", "treecorr/catalog.py get_patches/get_patch_centers/_get_patch_index"), ("subset/combine", "treecorr/catalog.py select/combine/copy"), ("lazy load", "treecorr/catalog.py load/unload")],
    ["patches", "patch_centers", "catalog columns"])

add("C20", "K-means patches are valid clusterings",
    "Dividing a catalog into n patches by k-means gives every object one label in 0..n-1, with centres and labels consistent: each object is assigned to its nearest returned centre and, once converged, each centre is the weighted mean of its members, so no further iteration lowers the total inertia. Initial centres are distinct and drawn as the chosen method says, the run is deterministic for a given random generator, the result never has worse inertia than its starting centres, and impossible requests are refused.",
    ["inputs", "configurations"],
    "every catalog, number of patches, initialisation, iteration limit, seed, and coordinate system",
    "Tests check inertia statistics on large uniform samples; consistency of centres and labels on clustered, duplicated or tiny catalogs is not settled.",
    ["src/KMeans.cpp", "treecorr/field.py"],
    [("k-means iterations over the tree", "src/KMeans.cpp KMeansRun/KMeansAssign"), ("initialisation", "src/KMeans.cpp KMeansInit*"), ("API", "treecorr/field.py run_kmeans/kmeans_*")],
    ["patch labels", "centers"])

add("C21", "Neighbour queries and pair sampling return exactly qualifying objects",
    "Counting or listing the objects within a given distance of a point returns exactly those objects, in any coordinate system and for any separation units, regardless of the tree. Sampling pairs in a separation range returns pairs of valid indices (of two different objects, unless min_sep is 0) whose true separation lies in the range and is the one reported, never more than requested or than exist, all of them when as many as exist are requested, and no pair twice.",
    ["inputs", "configurations"],
    "every catalog, query point, radius, number of samples, tree depth, coordinate system, separation range and seed",
    "Tests query a few points in random catalogs; boundary radii, duplicates, tiny catalogs and request sizes near the number of available pairs are not explored.",
    ["src/Field.cpp", "treecorr/field.py", "src/Corr2.cpp", "treecorr/corr2base.py"],
    [("near queries", "src/Field.cpp countNear/getNear"), ("pair sampling", "src/Corr2.cpp samplePairs/sampleFrom"), ("API", "treecorr/corr2base.py sample_pairs")],
    ["count_near", "get_near", "sample_pairs"])

add("C22", "Cached state never changes what a computation returns",
    "A catalog may cache trees, patches and statistics and share them across computations in any order; a computation on a catalog with any history gives the same result as on a fresh catalog with the same data. Requesting a field with different parameters never returns one built with other parameters, changing or clearing caches and weights-related settings takes effect, and the bounded cache evicts least recently used entries and never exceeds its size.",
    ["histories", "inputs"],
    "all sequences of field requests, correlations, k-means runs, cache resizing/clearing, patch queries and loads on shared catalogs",
    "Stale-cache errors appear only for particular orders of operations with particular parameter changes; tests use fresh catalogs per comparison.",
    ["treecorr/catalog.py", "treecorr/util.py", "treecorr/field.py", "treecorr/corr2base.py"],
    [("field cache keys", "treecorr/catalog.py getNField.. "), ("LRU", "treecorr/util.py LRU_Cache"), ("cached stats", "treecorr/catalog.py vark, sumw, _patches, _centers")],
    ["all result arrays", "cache contents"],
    [("field cache", "trees by parameters", "treecorr/catalog.py")])

add("C23", "Three-point (side length, u, v) correlations equal the direct triangle sum",
    "With zero slop, every three-point correlation binned by middle side, ratio u and signed flattening v equals a direct loop over all triangles: each unordered triangle of an auto-correlation is counted once in the bin given by its sorted sides and orientation, with the documented weights, mean sides, and projected field products. Cross-correlations of two or three catalogs count each triangle in the slots its members may take, with ordered and unordered modes differing exactly as documented. Side, u and v limits are respected exactly.",
    ["inputs", "configurations"],
    "every catalog triple, binning specification, coordinate system, metric, ordering mode and field type",
    "Brute-force tests use a few dozen points with default-like bins; many of the recursion's shortcut conditions trigger only for particular bin limits and shapes, and the shear tests are excluded from the stable list.",
    ["src/Corr3.cpp", "include/Corr3.h", "include/BinType.h", "include/Process3.h", "treecorr/corr3base.py", "treecorr/nnncorrelation.py", "treecorr/kkkcorrelation.py", "treecorr/gggcorrelation.py"],
    [("triple-tree recursion", "src/Corr3.cpp process3/12/111"), ("LogRUV bins", "include/BinType.h BinTypeHelper<LogRUV>"), ("spin projection", "include/ProjectHelper.h")],
    ["ntri", "weight", "meand1..3", "meanu", "meanv", "zeta", "gam0..3"])

add("C24", "Three-point (two sides and angle) correlations equal the direct triangle sum",
    "With zero slop, correlations binned by two sides and the included angle equal a direct loop over triangles: for an auto-correlation each triangle appears once for each choice of apex with the two sides in counter-clockwise order, and for cross-correlations the apex is a member of the first catalog in ordered mode. Weights, mean sides and angle, and field products projected to the triangle centre are exact, and only configurations inside the side and angle limits are counted.",
    ["inputs", "configurations"],
    "every catalog triple, binning specification incl. angle limits and units, coordinate system, ordering mode and field type",
    "As for the previous property; angle limits, wide angles above pi and units are tested with one set of numbers.",
    ["src/Corr3.cpp", "include/BinType.h", "include/Metric.h", "treecorr/corr3base.py"],
    [("LogSAS bins", "include/BinType.h BinTypeHelper<LogSAS>"), ("recursion", "src/Corr3.cpp"), ("finalize", "treecorr/corr3base.py finalize")],
    ["ntri", "weight", "meand2", "meand3", "meanphi", "zeta", "gam0..3"])

add("C25", "The multipole algorithm agrees with the direct triangle sum",
    "The multipole coefficients of a three-point correlation equal the direct sum over ordered triangles of the field product times the complex exponential of the multiple of the angle between the two sides, for every order up to the maximum, including removal of degenerate (repeated point) terms; coefficients of opposite order are related as the symmetry requires. Transforming them to angle bins gives the documented Fourier sum, so that the fast algorithm agrees with the direct triangle method to the resolution implied by the maximum order.",
    ["inputs", "configurations"],
    "every catalog triple, number of bins, maximum order, coordinate system, ordering mode and field type",
    "Multipole tests use one catalog per type with a fixed order; corrections for coincident and same-bin points are exercised by few configurations.",
    ["src/Corr3.cpp", "include/MultipoleScratch.h", "treecorr/corr3base.py", "treecorr/gggcorrelation.py", "treecorr/kkkcorrelation.py", "treecorr/nnncorrelation.py"],
    [("multipole accumulation", "src/Corr3.cpp multipole*"), ("transform", "treecorr/*correlation.py toSAS")],
    ["weight", "zeta", "gam0..3", "ntri", "toSAS"])

add("C26", "Patches, covariance and random estimators of three-point results are exact",
    "A three-point correlation computed over patches, in any patch organisation and ordering mode, equals the same correlation without patches; its patch-based covariances equal the literal recomputation on resampled triples; and the three-point random-catalog estimators combine data and random counts as documented, each normalised by its own total. Saved patch results sum to the total.",
    ["inputs", "configurations"],
    "every patch assignment, one to three catalogs, bin type, patch method, covariance method and set of random catalogs",
    "Three-point patch tests are slow and few; odd patch layouts and cross-catalog orders are not covered.",
    ["treecorr/corr3base.py", "treecorr/nnncorrelation.py", "treecorr/util.py"],
    [("patch loops", "treecorr/corr3base.py _process_all_auto/_process_all_cross12/_process_all_cross"), ("estimator", "treecorr/nnncorrelation.py calculateZeta")],
    ["ntri", "weight", "zeta", "cov", "results", "tot"])

add("C27", "Aperture-mass and derived statistics are the documented filter integrals",
    "Aperture-mass variance and related statistics (mass variance, shear variance in circles, lens-aperture cross statistic, filtered count variance, and the third-order aperture mass) equal the documented filtered sums over the measured correlation at every radius, for either filter family, with the propagated variance. They are linear in the measured correlation, respect the requested radii and separation units, pure-E input gives vanishing B modes up to discretisation, and the written files contain these numbers.",
    ["inputs", "configurations"],
    "every correlation content and binning, radius list, filter, k-values and combination of randoms",
    "Tests compare to theory within percent-level tolerances for one correlation function; arbitrary correlation contents are needed to separate the individual filter terms.",
    ["treecorr/ggcorrelation.py", "treecorr/ngcorrelation.py", "treecorr/nncorrelation.py", "treecorr/gggcorrelation.py"],
    [("filters", "treecorr/ggcorrelation.py calculateMapSq/calculateGamSq, ngcorrelation.py calculateNMap, nncorrelation.py calculateNapSq, gggcorrelation.py calculateMap3")],
    ["returned arrays", "written files"])

add("C28", "Configuration-driven runs equal the corresponding library calls",
    "A run described by a configuration (dictionary, YAML, JSON or parameter file, with command-line overrides) writes the same results as making the equivalent library calls: each requested output file contains the requested correlation of the named input catalogs with their randoms and the estimator the configuration implies. Every parameter reaches the objects it belongs to, per-catalog lists apply to the right catalog, values parse as documented, and unknown or invalid parameters are rejected.",
    ["configurations", "inputs"],
    "every configuration: input files and lists, randoms, output selections, parameter spellings and types",
    "Tests run the shipped parameter files; the space of parameters and combinations of outputs is far larger.",
    ["treecorr/exec_corr2.py", "treecorr/exec_corr3.py", "treecorr/config.py", "treecorr/catalog.py", "scripts/corr2", "scripts/corr3"],
    [("drivers", "treecorr/exec_corr2.py corr2, treecorr/exec_corr3.py corr3"), ("parsing", "treecorr/config.py")],
    ["output files"])

add("C29", "Any accepted input is processed without memory errors, crashes or hangs",
    "Whatever catalogs, binning, metric and options are given, a call either completes with finite, well-formed outputs or raises a Python exception explaining what is wrong: it never reads or writes outside its arrays, uses freed memory, crashes the interpreter, or fails to terminate. This includes degenerate data (empty ranges, all-coincident points, huge or tiny separations, single objects, points exactly on bin edges) and any thread count.",
    ["inputs", "configurations", "histories"],
    "all inputs accepted by the public interface",
    "Out-of-bounds accesses in optimised native code are silent in tests and appear only for particular data.",
    ["src/Corr2.cpp", "src/Corr3.cpp", "src/Cell.cpp", "src/Field.cpp", "src/KMeans.cpp", "include/BinType.h", "include/MultipoleScratch.h"],
    [("bin index computation", "include/BinType.h"), ("tree ownership", "src/Cell.cpp, src/Field.cpp"), ("argument checks", "treecorr/*.py, PyBind11 wrappers")],
    ["process exit", "sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
