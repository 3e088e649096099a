fixed("C01", "d4c2eca", "Log bins: pairs put in a wrong bin at bin_slop=0 when two cells are large compared with their separation")
fixed("C01", "91659ad", "TwoD bins: meanr accumulated a separation of zero for pairs of cells lying in one bin")
fixed("C01", "b78a13c", "TwoD bins: min_sep ignored for pairs of cells lying in one bin")
fixed("C03", "e4ecab6", "OldRperp with brute=True: all pairs of two (top) cells at exactly equal distance lost (inf*0 under -ffast-math)")
fixed("C03", "729f9bf", "Rlens with min_rpar/max_rpar: pairs wrongly dropped because the pruning used the transverse-scaled cell size")
fixed("C03", "c53c57a", "Arc metric: pairs wrongly dropped for large cells because chord sizes were compared with arc separations")
known("C05", "ident", {"aslop": None, "brute": None, "bt": "Linear", "fmax": 2.0, "fmin": 0.3, "geo": {"coords": "rdr", "cx": 0.0, "r0": 0.3, "scale": 1.0, "sky": "pole", "theta": 0.01}, "maxtop": 0, "n1": 3, "n2": 6, "nbins": 8, "seed": 1574, "sep": 0.1, "slop": 2.0, "spread1": 0.003, "spread2": 0.003, "w": False, "strict": True},
      "a cell smaller than min_size (Corr2._get_minmax_size) counts as a point, so a pair can miss its bin by up to bin_slop*bin_size + min_size (1.5x the documented limit)")
fixed("C06", "23a8abe", "LogMultipole: out-of-bounds write (memory corruption) when a pair separation rounds to the top edge of the last bin")
fixed("C07", "ef2dbbe", "3d (ra,dec,r) spin fields: averaging over a cell used the unnormalised z of its center, so results depended on the unit of distance")
fixed("C07", "4eefb07", "ordered LogSAS triangles in spherical/3d coordinates dropped: cells' orientation was assumed to flip only through collinear points (results depended on the tree/frame)")
fixed("C02", "a210812", "TwoD auto-correlation of complex fields: xip_im of the reversed pair had the sign of the forward pair (so xip_im depended on the tree)")
fixed("C08", "24d9006", "Catalog(patch=array([p])) with a single object: the array was taken for a patch number and refused/misread")
fixed("C08", "9848722", "Catalog(patch=array, npatch=n): the given npatch was ignored, so two catalogs with the same patches could be refused")
fixed("C08", "97af0ed", "NN/NNN tot lost for pairs of patches skipped as too far apart (with force_write, or when process is called repeatedly), and for local patches with nothing within reach")
fixed("C08", "401ecba", "patch_method='local': pairs lost for TwoD corners, Periodic, projected metrics and 3d positions with r<1 (objects within reach dropped from the expanded patches)")
fixed("C08", "e3dbc98", "TwoD auto-correlation with patches counted pairs between different patches in one order only (and local tot was twice too large)")
fixed("C08", "a0f11b9", "large patches on the sphere skipped as too far apart: sizes were relative to a center inside the sphere (and physical for Arc/3d)")
fixed("C03", "e4ecb8b", "Arc metric with 3d positions: pairs separated by theta>90 deg were given 180 deg-theta")
fixed("C03", "148307b", "Arc metric with 3d positions: pairs lost because physical cell sizes (or s/r for large cells) were compared with angles")
fixed("C08", "4b7c064", "save_patch_dir with an empty patch number: patches written under the wrong patch file name; OSError with low_mem")
fixed("C08", "4310401", "Catalog.read_patches failing with OSError left an empty list of patches, so a later process silently used no data")
known("C08", "file", {"typ": "NN", "auto": False, "combo": 0, "geo": {"coords": "flat", "sky": "eq", "theta": 0.01, "scale": 1.0, "r0": 0.3, "cx": 0.0}, "c1": {"n": 1, "seed": 0, "layout": "uniform", "w": "none", "f": "rand", "off": 0}, "c2": {"n": 1, "seed": 0, "layout": "uniform", "w": "none", "f": "rand", "off": 0}, "bins": {"bin_type": "Log", "nbins": 1, "fmax": 0.05, "fmin": 0.001}, "maxtop": 0, "pm1": "centers", "pm2": "none", "st1": "fits", "st2": "mem", "npatch": 2, "pseed": 0, "local": False, "rpar": 1, "lowmem": True, "unload": False, "cfile": False, "bogus": False, "strict": True},
      "low_mem=True with a catalog read from a file with patch_centers raises if some patch contains no objects (without low_mem it works)")
fixed("C25", "cc23f4f", "GGG multipole with 3d positions: only one of the three shears was projected (field pointer typo), so zeta was wrong")
fixed("C09", "f5d6f89", "patch_method='local' with only the first catalog patched: results used patch indices which do not exist, so bootstrap covariances (and anything using the 'ok' table) raised IndexError")
fixed("C10", "aedc780", "design matrix: a row without patch pairs cleared the correlation object, so later rows lost the randoms (uncompensated xi)")
fixed("C10", "edfc3a3", "design matrix: NN row without patch pairs repeated the xi and weight of the previous row")
fixed("C12", "ce8825e", "NN with one patched catalog and randoms: dummy results made for pairs of patches the data do not have")
fixed("C12", "321d1e2", "NN with unpatched randoms and one unpatched catalog: RR scaled by the square root of the area fraction")
fixed("C12", "b0f6526", "NN with one patched catalog and dr/rd: all rows of the design matrix used the wrong selection of dr/rd")
fixed("C12", "88e3639", "NK/NG/...: calculateXi called again without randoms (or raw_varxi after calculateXi) used the compensated covariance")
fixed("C12", "098dc0e", "NK/NG/...: dummy results carried sums; var_method='shot' with patches gave the variance of xi without the randoms")
fixed("C12", "d2be7d0", "NG/NV/...: xi_im not compensated in resampled rows; unpatched randoms gave zero or IndexError")
fixed("C11", "eb77524", "user-supplied vark/varg/... ignored when the catalog has patches (patches computed their own variances)")
fixed("C13", "bc5d2f1", "3pt process with initialize=False: shot-noise variance used only the last catalogs")
fixed("C13", "6a6f8ef", "processing a copy with initialize=False changed the patch results of the original")
fixed("C13", "4cfd9b3", "clear() kept the xi/randoms of a previous calculateXi (NN, NNN) and the catalogs of earlier deferred calls")
fixed("C13", "7dac401", "+= accepted correlations with another bin type (2pt); adding a never processed object raised ValueError")
fixed("C15", "bc5a03a", "eval(repr(cat)) raised or lost npatch for single-patch catalogs and empty last patches, and for unloaded catalogs the patch centers, patch number and column number")
fixed("C15", "66219ff", "== of three-point correlations ignored sep_units")
fixed("C15", "c698bd7", "== ignored the metric, and tot of NN and NNN")
known("C13", "three", {"bt": "LogSAS", "c": [{"f": "rand", "layout": "uniform", "n": 4, "off": 0, "seed": i, "w": "none"} for i in range(9)], "fm": 1.2,
      "geo": {"coords": "flat", "cx": 0.0, "r0": 0.3, "scale": 1.0, "sky": "eq", "theta": 0.01}, "local": False, "mode": 0, "nb": 1, "npatch": 0, "pseed": 0, "typ": "KKK", "uniform": False, "strict": True,
      "ops": [{"bad": 0, "deep": False, "ia": i, "ib": 0, "ic": 0, "init": False, "kind": 0, "o": 0, "op": "proc", "p": 0} for i in range(2)]},
      "LogSAS with the (default) multipole algorithm ignores initialize=False and finalize=False: earlier contributions are dropped")
fixed("C14", "3041322", "shot-noise variance information (var_num) lost when writing and reading; estimate_cov('shot') and varxi of re-read objects were zero; rr weights lost for NN/NNN")
fixed("C14", "093414e", "ASCII file with the covariance but no patch results could not be read")
fixed("C14", "a3cf61c", "covariance with a single element unreadable from ASCII")
fixed("C12", "f852af7", "NN varxi had a flattened shape for TwoD")
fixed("C14", "e3f4924", "ASCII patch results unreadable when none of the patches have pairs")
fixed("C28", "e94ee66", "a numpy integer was not accepted as a bool parameter (brute=1 read from HDF)")
fixed("C14", "a7c1860", "complex covariance (GGG) lost its imaginary part on writing or could not be written")
fixed("C14", "b102abd", "read into a used object kept the previous covariance, patch pairs and xi")
fixed("C05", "40dc977", "LogSAS: with bin_slop > 0 triangles with phi near pi were put several phi bins off")
fixed("C14", "d507ea1", "a correlation read from a file gave wrong results when it was processed again")
fixed("C14", "66063d1", "brute=True (and other scalars) came back from HDF files as numpy types, which process() did not take for the option")
known("C17", "file", json.loads('{"patch": "none", "spread": true, "order": 999, "pick": 2, "byname": false, "ncom": 0, "fmt": "FITS", "ext": 2, "np": 3, "rand": false, "intcol": true, "f4": true, "marker": "#", "fext": false, "evals": [], "s": {"flag": "none", "wpos": "none", "w": "int", "first": 2, "flagopt": "ok2", "coords": "sphere", "units": ["rad", "rad"], "keep": null, "n": 14, "fields": [], "xyunits": true, "last": null, "nan": [], "nth": 2, "seed": 0, "flips": []}, "sel": "one", "reload": true, "num": 0, "pandas": true, "header": false, "same": true, "junk": 0, "via": "listed"}'),
      "columns of the same name in two extensions of one file (e.g. w_ext=1 and k_ext=2, both named 'val') are read from one of the extensions only, silently")
fixed('C16', '1665646', 'list-valued units and other parameters with a limited set of values were refused')
fixed('C16', '2a4e50f', 'flag (and ra, dec given along with x, y) of the wrong length were accepted')
fixed('C16', '522b8cf', 'Catalog(arrays, flag=..., patch=array/centers, single patch): flags were not selected (IndexError or wrong rows); flags survived unload()')
fixed('C16', '6165bb2', 'rows with NaN and a wpos column were kept, at the origin')
fixed('C17', 'a5b52f4', 'list-valued delimiter, comment_marker, allow_xyz, vark, ... ignored the num of the catalog (or raised)')
fixed('C17', '83eef1c', 'flip_g1 etc. raised TypeError for catalogs without that column (e.g. randoms of a config-driven run)')
fixed('C17', '0375a15', 'z1_eval with z2_col (and the like) refused, and z2_eval, v2_eval, ... not recognised')
fixed('C17', '3bf868b', "x_eval using data['1'] of a file with numbered columns raised SyntaxError")
fixed('C17', '6e923e4', 'patch_eval was ignored; patch_col given as a list, or along with arrays, raised')
fixed('C17', '1b9ede9', 'reading a single patch: wrong rows with every_nth/first_row, IndexError without patch information, KeyError with extra_cols or several extensions')
fixed('C17', '3076ac4', 'low_mem patches of a file lost num and is_rand (so they read other columns)')
fixed('C17', '22dc096', 'a text file with a single column and row could not be read (without pandas)')
fixed('C17', '90c0653', 'Parquet: reading a single patch looked up rows in the columns (KeyError)')
fixed('C18', '70325bd', 'writing a catalog whose units were given as coord.AngleUnit instances raised')
fixed('C18', 'f293fab', 'write_patches of a catalog holding one patch wrote it under the number 0')
fixed('C18', '35f0d68', 'write_patches changed the units of the catalog, and scaled x,y by x_units twice when read back')
fixed('C18', '425cadc', 'patches saved and read back lost wpos/keep_zero_weight or looked for columns that were not written')
fixed('C19', '63cc29d', 'select on an unloaded catalog raised; on a used one it left stale sums, variances, patches, centers and fields')
fixed('C19', 'dbf63c2', 'a list holding a single catalog with patches was processed as a whole, without patch results')
fixed('C19', '435f67d', 'combine dropped zero-weight objects unless the first catalog had some')
fixed('C19', 'f3557bc', 'select with a strided slice gave columns the C++ layer reads wrongly')
fixed('C19', '225b190', 'k-means moved the center of an empty patch to the origin, so labels and centers disagreed')
fixed('C20', 'bfc5468', 'Z, V, T, Q fields of a catalog whose rng is a numpy Generator raised AttributeError')
fixed('C20', '4fb1d05', 'kmeans_refine_centers misread an array of centers that is not C-contiguous')
fixed('C20', 'b26ecba', 'k-means++ used centers not set yet as centers at the origin (objects there were never chosen, or failed)')
fixed('C20', '225b190', 'the center of a patch without objects moved to the origin')
fixed('C20', '992759c', 'k-means++ raised an unknown exception when the positions of the chosen cell were used up')
fixed('C20', '8838ceb', 'k-means++ gave up on cells centered at an existing center')
fixed('C20', '7d94284', 'an object equidistant from two patch centers was in both patches when these are selected singly')
fixed('C21', '12919c5', 'sample_pairs used whichever tree was made last, even if made with a larger minimum cell size')
fixed('C21', '1b03823', 'get_near with min_size > 0 on a spherical field of a catalog with r compared distances in 3d')
fixed('C21', 'd18b3ef', 'sample_pairs could return pairs outside the given range even with bin_slop=0')
fixed('C21', 'a132e13', 'sample_pairs could return entries that are not pairs when the list was filled by several cells')
fixed('C21', 'c592325', 'get_near could return uninitialized values when a point was right at the given separation')
fixed('C05', '4273470', 'bin_slop was applied in the wrong units for Linear bins with sep_units')
fixed('C22', '744e2f5', 'Catalog.resize_cache had no effect on caches that had not been used yet')
fixed('C22', '1eca7f1', 'LRU_Cache with an initial size of 0 could not be used')
fixed('C23', '2db095f', '3pt correlations with the Arc metric mixed up cell sizes and angular separations')
fixed('C23', '0321986', 'LogRUV min_v, max_v pruning was not valid for large triangles on the sphere with the Arc metric')
fixed('C23', '31691f4', 'LogRUV min_v could be set to a negative value when implied by max_v, vbin_size and nvbins')
fixed('C24', '7d26565', 'meanphi of empty bins was in radians rather than phi_units')
fixed('C24', '4a207e9', 'the angle of LogSAS triangles was wrong for the Arc metric with 3d coordinates')
fixed('C24', '6382b1e', 'LogSAS min_phi/max_phi pruning was not valid for large triangles on the sphere with the Arc metric, or for triangles across the Periodic boundary')
fixed('C24', 'ebe8fb5', 'LogSAS min_phi/max_phi pruning was not valid when the angle could change by enough to reach 0 or pi')
fixed('C24', '31cbddb', 'LogSAS min_phi pruning stopped too early when min_phi is large')
fixed('C25', 'bbcfc02', 'multipole calculations with the Arc metric used a size of the first cell that grew with each comparison')
fixed('C25', '02139c5', 'multipole calculations with the Periodic metric used the directions of the wrong images')
fixed('C25', 'c7fba4e', 'meanlogd3 of multipole cross correlations with ordered=False used the wrong weights')
fixed("C26", "dcf2e6b", "tot of NNN correlations made with patch_method='local' counted triangles three times")
fixed("C26", "1651868", "NNN with unpatched randoms and some unpatched catalogs scaled RRR by a wrong power of the selected area")
fixed("C26", "bfe01cc", "NNN with unpatched randoms used the wrong patches of RDD when only patch 0 is selected")
fixed("C26", "ce06f8e", "NNN covariances missed random triples without data when the first catalog has no patches")
fixed("C26", "5fdb01a", "NNN covariance rows without any triangles used the zeta of another row")
fixed("C27", "b7dbbb3", "calculateNMap and calculateNapSq silently gave wrong results for bins that are not logarithmic")
fixed("C28", "deded1a", "ignore_flag=None, as for one catalog of a list of catalogs, was an error")
fixed("C28", "27434e3", "a KZ run did not read the k column of the first catalog")
fixed("C28", "bfdb4e3", "norm_file_name without randoms ended with a bare AttributeError")
fixed("C28", "40bff79", "m3_file_name with LogMultipole binning failed an assertion without an explanation")
fixed("C28", "57bc4d5", "a single extra_cols item in a params file was an error")
fixed("C29", "a539e1a", "a catalog without objects crashed when its field was built")
fixed("C29", "41b605f", "count_near and get_near with a separation larger than pi radians did not find all the objects")
fixed("C29", "c731ecc", "count_near and get_near with a separation of pi or more lost antipodal objects to rounding errors")
fixed("C29", "7b51881", "the Periodic metric was accepted for spherical coordinates")
fixed("C29", "5b9f769", "patch_centers, kmeans_assign_patches and kmeans_refine_centers used centers of any shape (invalid memory accesses)")
fixed("C29", "0e9ceba", "get_near read invalid memory for cells with several objects whose size underflowed to zero")
fixed("C29", "438fcc1", "null pointer dereferenced for exactly opposite objects with min_rpar/max_rpar, or objects at the origin with Arc, OldRperp, Rlens")
fixed("C29", "385b26f", "null pointer dereferenced in brute force calculations with Rlens and an object at the origin")
fixed("C29", "b2fe2f6", "meanr, meand1, etc. of opposite points on the sphere were NaN because of rounding errors")
known("C02", "periodic", {"typ": "GG", "auto": True, "n1": 2, "n2": 1, "per": [10.0, 10.0], "span": 1.0, "bt": "Log", "fmax": 0.49, "nbins": 1, "brute": True, "maxtop": None, "strict": True, "seed": 1},
      "Periodic metric with spin fields: a pair across the boundary is projected onto the line between the original positions, not the one to the nearest image (also GGG with Periodic)")
