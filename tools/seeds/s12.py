PROP="C10"
NEEDS="estimate_multi_cov of several correlations with different num_bootstrap, the first not having the largest"
BREAKS="The joint bootstrap covariance uses the first correlation's num_bootstrap rather than the largest one."
EDITS=[("treecorr/corr2base.py","""    npatch = _check_patch_nums(corrs, 'bootstrap')
    nboot = np.max([c.num_bootstrap for c in corrs])  # use the maximum if they differ.""","""    npatch = _check_patch_nums(corrs, 'bootstrap')
    nboot = next(c.num_bootstrap for c in corrs if c.num_bootstrap > 0)""")]
DEMO='''
rng = np.random.default_rng(5)
x, y = rng.random((2, 60))
c = treecorr.Catalog(x=x, y=y, k=rng.normal(size=60), patch=np.arange(60) % 5)
kk = [treecorr.KKCorrelation(min_sep=0.1, max_sep=1., nbins=3, bin_slop=0, verbose=0, num_bootstrap=n) for n in (7, 30)]
for q in kk: q.process(c)
A, w = treecorr.build_multi_cov_design_matrix(kk, 'bootstrap')
print(A.shape)
sys.exit(A.shape != (30, 6))
'''
