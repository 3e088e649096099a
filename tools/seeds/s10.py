PROP="C09"
NEEDS="MPI processing (comm given) of a cross-correlation in which only one of the two catalogs has patches"
BREAKS="The patches are divided by the number of patches of the catalog with the fewest, so every patch pair beyond the first index is processed by no rank and silently lost."
EDITS=[("treecorr/corr2base.py","                n = max(n1,n2)\n","                n = n1\n")]
DEMO='''
class Comm:
    """One rank of two; the messages are only those that are needed."""
    def __init__(self, rank, box): self.rank, self.size, self.box = rank, 2, box
    def Get_rank(self): return self.rank
    def Get_size(self): return 2
    def send(self, x, dest): self.box.append(x.copy())
    def recv(self, source): return self.box.pop()
rng = np.random.default_rng(5)
x, y, u, v = rng.random((4, 40))
c1 = treecorr.Catalog(x=x, y=y)
c2 = treecorr.Catalog(x=u, y=v, k=rng.normal(size=40), patch=np.arange(40) % 4)
kw = dict(min_sep=0.1, max_sep=1., nbins=3, bin_slop=0, verbose=0)
a = treecorr.NKCorrelation(**kw); a.process(c1, c2)
box = []
b1 = treecorr.NKCorrelation(**kw); b1.process(c1, c2, comm=Comm(1, box))
b0 = treecorr.NKCorrelation(**kw); b0.process(c1, c2, comm=Comm(0, box))
print(a.npairs, b0.npairs)
sys.exit(not np.array_equal(a.npairs, b0.npairs))
'''
