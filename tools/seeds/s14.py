PROP="C25"
NEEDS="multipole auto-correlation with several neighbours in one bin: mean log separations"
BREAKS="The self-pair subtraction is left out of the mean log separations of equal bins, so meanlogd2 is biased whenever one cell holds a pair of neighbours in the same radial bin."
EDITS=[("src/Corr3.cpp","""        _ntri[i22] += n1 * mp.npairs[k2] * (mp.npairs[k2]-1);
        _meand2[i22] += w1 * (mp.sumw[k2] * mp.sumwr[k2] - mp.sumwwr[k2]);
        _meanlogd2[i22] += w1 * (mp.sumw[k2] * mp.sumwlogr[k2] - mp.sumwwlogr[k2]);""","""        _ntri[i22] += n1 * mp.npairs[k2] * (mp.npairs[k2]-1);
        _meand2[i22] += w1 * (mp.sumw[k2] * mp.sumwr[k2] - mp.sumwwr[k2]);
        _meanlogd2[i22] += w1 * (mp.sumw[k2] * mp.sumwlogr[k2]);""")]
DEMO='''
x = np.array([0., 1.1, 0., 40.]); y = np.array([0., 0., 1.3, 40.])
cat = treecorr.Catalog(x=x, y=y, verbose=0)
c = treecorr.NNNCorrelation(min_sep=1., max_sep=2., nbins=1, max_n=3, bin_type="LogMultipole", verbose=0)
c.process(cat)
v = c.meanlogd2[0, 0, 0]
# triangles of three near points: mean of log distances between
lo, hi = np.log(1.1), np.log(np.hypot(1.1, 1.3))
print(v, lo, hi)
sys.exit(not (np.all(v >= lo - 1e-6) and np.all(v <= hi + 1e-6)))
'''
