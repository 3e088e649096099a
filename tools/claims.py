T["C04"] = ("property-based testing against an arithmetic model of the binning; identified-object placement", "specifications of 1..60 bins; objects placed exactly on/around edges")
T["C05"] = ("property-based testing: per-pair identification and bracketing by exact cumulative counts", "catalogs of 1..500 objects; angular bound on flat coordinates")
T["C06"] = ("differential property-based testing: same correlation under random execution parameters (threads, tree shape, row order)", "2-pt on 1..1500 objects, 3-pt on 5..60; thread interleavings sampled by repetition")
T["C07"] = ("metamorphic property-based testing: rotations, reflections, shifts, unit changes, scaling, linearity, additivity over unions, exchange of catalogs", "2-pt on up to ~60 objects, 3-pt on up to 25")
T["C08"] = ("differential property-based testing: patched vs unpatched computation over generated patch assignments, storage on disk and processing options", "catalogs of 1..40 objects, 1..6 patches; antipodal objects with projected metrics excluded")
T["C09"] = ("differential property-based testing: MPI processing (in-process ranks exchanging pickles) vs serial, over generated patches, sizes and schedules", "1..6 ranks, 1..6 patches")
T["C10"] = ("property-based testing against a reference covariance built from direct sums per pair of patches", "up to 40 objects, 2..6 patches, all five methods")
T["C12"] = ("property-based testing against direct sums combined by the documented estimators, values, variances and resampled covariances", "up to 30 objects, 1..6 patches")
T["C11"] = ("property-based testing against direct weighted moments", "1..4 catalogs of up to 20 objects; all correlation types; 3-point on up to 14 objects")
T["C13"] = ("stateful model-based property-based testing: random histories of operations compared after every step with a model that adds up independently computed pieces", "histories of up to 12 operations on up to 4 objects; 2-pt catalogs of up to 14 objects, 3-pt up to 7")
T["C15"] = ("property-based testing: clones (copy, deepcopy, pickle, repr) of catalogs and correlations in drawn states are compared with a reference object with the same history, also after further operations on either; perturbed objects must compare unequal", "catalogs of 1..30 objects with optional columns, patches, files and cached state; all 2pt and scalar/shear 3pt classes, histories of <=4 operations before and after cloning")
T["C14"] = ("property-based round-trip testing: drawn correlations written with drawn options and read back in four ways, compared attribute by attribute, plus an independent parse of the columns", "2pt catalogs of up to 24 objects, 3pt up to 9; three formats; 0..4 patches")
T["C16"] = ("property-based testing: drawn raw columns and options, the catalog compared with an independent row-by-row model of the documented cleaning; malformed inputs must be refused", "1..16 rows with all optional columns, NaNs, flags, units, row selection, flips, patches (numbers, arrays, centers, single patch); 23 kinds of malformed input")
T["C17"] = ("property-based testing: files written by independent writers with drawn layout, read with drawn ways to name columns and select rows, compared with the row-by-row model of the cleaning (differential against the arrays)", "1..16 rows; text (pandas and numpy readers), FITS, HDF, Parquet (pickle stand-in for the missing engine); expressions, extensions, list-valued parameters, single patches, reloading; bad names refused")
T["C18"] = ("property-based round-trip testing: catalogs with drawn columns, options and patches written whole, as one file, as a patch, or patch by patch, read back (by TreeCorr and by an independent parser) and compared with the model rows", "1..16 rows with all optional columns; ASCII, FITS, HDF; units, precision, saved centers, pre-existing and unloaded catalogs")
T["C19"] = ("stateful property-based testing: histories of patch, select, combine, copy, unload and count operations on a pool of catalogs against a row model; metamorphic equality of the ways of giving the same patches", "up to 6 catalogs of 4..16 rows, histories of <=8 operations; arrays and files; array, centre and k-means patches, eagerly and lazily")
T["C20"] = ("property-based testing of k-means against direct computation (nearest centre, weighted means, inertia, initial centres), plus frequency tests of the random initialisations over 400 seeds", "1..40 objects in flat, spherical, 3d coordinates including lattices (exact ties), coincident and collinear objects; npatch -1..45; all field types and initialisations")
T["C21"] = ("property-based testing: drawn catalogs, query points and radii against a direct numpy search; sampled pairs checked against the set of all pairs in range", "1..40 objects in four coordinate systems, boundary radii, units, min_size/max_size/top-level settings; samples of 0..N pairs and more, with and without slop")
T["C22"] = ("stateful property-based testing: histories of operations on catalogs and correlations with caches of drawn sizes against the same operations on fresh copies; model-based test of the LRU cache", "LRU histories of <=40 operations and sizes 0..5; field requests of every kind with resizes and clears; histories of correlations, fields, k-means, statistics, unloading, pair sampling and reuse of correlation objects")
T["C23"] = ("property-based testing against a direct numpy sum over all triangles (differential); constructor limits against the documented arithmetic; conservation of the number of triangles under slop", "NNN, KKK, GGG; 1..3 catalogs of 1..30 objects; four coordinate systems up to the whole sky; Euclidean, Arc, Periodic; brute force and zero slop with drawn tree depth; wide and narrow u, v ranges")
T["C24"] = ("property-based testing against a direct numpy sum over all triangles and apexes (differential); constructor limits against the documented arithmetic", "NNN, KKK, GGG; 1..3 catalogs of 1..30 objects; four coordinate systems up to the whole sky; Euclidean, Arc, Periodic; brute force and zero slop with drawn tree depth; wide and narrow phi ranges, phi units")
T["C25"] = ("property-based testing against a direct numpy sum over all ordered triangles (differential); the transform to angle bins against the documented Fourier sum; differential against the triangle algorithm within a rigorous bound", "NNN, KKK, GGG; 1..3 catalogs of 1..20 objects (direct) or 60 (against the triangle algorithm); orders 0..12; four coordinate systems; Euclidean, Arc, Periodic; 0, 2 or 4 patches in the transform")
T["C26"] = ("property-based testing: patched against unpatched (metamorphic), design matrices and covariances against a directly counted table of sums per patch triple, zeta against its formula (differential)", "NNN, KKK, GGG in the three binnings; 1..3 catalogs of 1..30 objects; 1..5 patches, patched in any combination; five patch methods; global and local; randoms with and without patches")
T["C27"] = ("property-based testing: documented filters summed directly over drawn measured correlations; third order against exact Gauss-Hermite quadrature of the product of apertures (differential)", "GG, NG, NN, GGG of 2..15 objects; four coordinate systems and units; either filter, drawn radii, k2, k3; written files in three formats")
T["C28"] = ("property-based testing: drawn parameter files and dictionaries run through the corr2/corr3 executables' entry points against the same calculation written with the library (differential); drawn lines against an independent parser; misspelled and invalid parameters must be refused", "every file, process and output parameter of corr2 and corr3, 1..4 files per catalog, lists of values and list files, JSON/YAML/params layout; 2-point of every kind, NNN/KKK/GGG")
T["C29"] = ("stateful property-based fuzzing of an AddressSanitizer and UBSan build with standard-container checks", "histories of up to 7 operations on catalogs of 1..150 objects in degenerate layouts, 1..8 threads; constructor and query arrays of drawn type, shape and layout")
