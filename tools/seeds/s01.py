PROP="C03"
NEEDS="Arc metric with 3d positions at different distances from the origin, a max_rpar (or min_rpar) limit, and a cell of several objects straddling the limit while fitting in one separation bin"
BREAKS="Whole cells are accepted as inside the r_parallel range although part of the cell is outside, because the angular cell size is scaled back to physical size with the nearer distance rather than the farther one."
EDITS=[("include/Metric.h","""        return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,
                                               s1ps2 * std::max(p1.norm(), p2.norm()),
                                               rpar);""","""        const double r = p1.norm() < p2.norm() ? p1.norm() : p2.norm();
        return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar, s1ps2 * r, rpar);""")]
DEMO='''
rng = np.random.default_rng(5)
bad = 0
for t in range(60):
    n1, n2 = 4, 30
    d1 = 1 + 0.2*rng.random(n1); d2 = 9 + 3*rng.random(n2)
    def pos(n, d, s):
        v = np.stack([np.ones(n), s*rng.normal(size=n), s*rng.normal(size=n)])
        return v/np.linalg.norm(v, axis=0)*d
    p1 = pos(n1, d1, 0.2); p2 = pos(n2, d2, 0.02)
    mx = 9.
    c1 = treecorr.Catalog(x=p1[0], y=p1[1], z=p1[2]); c2 = treecorr.Catalog(x=p2[0], y=p2[1], z=p2[2])
    nn = treecorr.NNCorrelation(min_sep=0.01, max_sep=2., nbins=1, metric='Arc', max_rpar=mx, bin_slop=0, verbose=0, max_top=0, min_top=0)
    nn.process(c1, c2)
    a = p1[:,:,None]; b = p2[:,None,:]
    L = (a+b)/2; rpar = ((b-a)*L).sum(0)/np.sqrt((L**2).sum(0))
    th = np.arctan2(np.linalg.norm(np.cross(a, b, axis=0), axis=0), (a*b).sum(0))
    exp = ((rpar <= mx) & (th >= 0.01) & (th < 2)).sum()
    if nn.npairs[0] != exp:
        bad += 1
print("bad", bad)
sys.exit(bad > 0)
'''
