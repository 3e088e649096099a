PROP="C13"
NEEDS="an NK/NG-type correlation compensated with randoms is processed again and its patch-based covariance taken"
BREAKS="Processing new data keeps the random-field correlation of the earlier calculateXi, so the jackknife covariance of the new data is computed with stale randoms."
EDITS=[("treecorr/nkcorrelation.py","""        self._rk = None
        self._raw_varxi = None
        self._varxi = None

    def _sum""","""        self._raw_varxi = None
        self._varxi = None

    def _sum""")]
DEMO='''
rng = np.random.default_rng(3)
def cat(k): 
    x, y = rng.random((2, 60))
    return treecorr.Catalog(x=x, y=y, k=rng.normal(size=60) + 1 if k else None, patch=(x * 4).astype(int), verbose=0)
L, R, B = cat(0), cat(0), cat(1)
mk = lambda: treecorr.NKCorrelation(min_sep=0.1, max_sep=1., nbins=3, verbose=0, bin_slop=0)
nk, rk, new = mk(), mk(), mk()
nk.process(L, B); rk.process(R, B)
nk.calculateXi(rk=rk)
nk.process(R, B)
new.process(R, B)
a, b = [c.estimate_cov("jackknife") for c in (nk, new)]
print(a, b)
sys.exit(not np.allclose(a, b))
'''
