PROP="C19"
NEEDS="Catalog.combine with a mask_list, position weights and masks that differ between the catalogs"
BREAKS="The position weights of every combined catalog are selected with the mask of the first catalog, so they no longer belong to their objects."
EDITS=[("treecorr/catalog.py","""                    a = a[mask_list[i]]
                kwargs[key].append(a)""","""                    a = a[mask_list[i]] if key != 'wpos' else a[mask_list[0]]
                kwargs[key].append(a)""")]
DEMO='''
rng = np.random.default_rng(3)
cats = []
for s in range(2):
    x, y = rng.random((2, 6))
    cats.append(treecorr.Catalog(x=x, y=y, w=rng.random(6) + 1, wpos=rng.random(6) + 1, verbose=0))
m = [np.array([1, 1, 1, 0, 0, 0], bool), np.array([0, 0, 0, 1, 1, 1], bool)]
c = treecorr.Catalog.combine(cats, mask_list=m)
want = np.concatenate([a.wpos[k] for a, k in zip(cats, m)])
print(c.wpos, want)
sys.exit(not np.array_equal(c.wpos, want))
'''
