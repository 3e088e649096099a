PROP="C22"
NEEDS="a trefoil field is made, the values of the catalog are then changed, the cache is cleared and the field is requested again"
BREAKS="clear_cache leaves the trefoil (spin-3) fields in the cache, so a later correlation uses the tree built from the old values."
EDITS=[("treecorr/catalog.py","""        if hasattr(self, '_tfields'): self.tfields.clear()
""","")]
DEMO='''
rng = np.random.default_rng(3)
x, y, t1, t2 = rng.random((4, 40))
def corr(cat):
    c = treecorr.TTCorrelation(min_sep=0.1, max_sep=1., nbins=3, verbose=0)
    c.process(cat)
    return c.xip
a = treecorr.Catalog(x=x, y=y, t1=t1, t2=t2, verbose=0)
first = corr(a)
a.t1[:] *= 2.
a.t2[:] *= 2.
a.clear_cache()
second = corr(a)
print(first, second)
sys.exit(not np.allclose(second, 4 * first))
'''
