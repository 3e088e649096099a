PROP="C15"
NEEDS="a correlation with a patch-based or file-read covariance is copied (pickle, deepcopy)"
BREAKS="Pickled and deep copies lose the covariance matrix, so a correlation read from a file without patch results no longer knows its covariance."
EDITS=[("treecorr/corr2base.py","""        d.pop('_ok',None)     # Remake this as needed.
""","""        d.pop('_ok',None)     # Remake this as needed.
        d['_cov'] = None
""")]
DEMO='''
import pickle
rng = np.random.default_rng(3)
x, y = rng.random((2, 60))
b = treecorr.Catalog(x=y, y=x, k=rng.normal(size=60), patch=(x * 4).astype(int), verbose=0)
kk = treecorr.KKCorrelation(min_sep=0.1, max_sep=1., nbins=3, verbose=0, var_method="jackknife")
kk.process(b)
fn = os.environ["DEMO_TMP"] + "/kk.fits"
kk.write(fn, write_cov=True)
k2 = treecorr.KKCorrelation.from_file(fn)
k3 = pickle.loads(pickle.dumps(k2))
try:
    ok = np.allclose(k3.cov, kk.cov)
except Exception as e:
    print(repr(e)); ok = False
sys.exit(not ok)
'''
