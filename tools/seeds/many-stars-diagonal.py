exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C04"
NEEDS = "more than 250 stars, for which the matrix of inner products is made star by star"
BREAKS = "the diagonal of the matrix is left empty, so the components are not the principal components of the stamps"
EDITS = [("properimage/single_image.py", "if i <= j:", "if i < j:")]
DEMO = COMMON + '''
from properimage import SingleImage

y, x = np.mgrid[12:300:15, 12:300:15]
r = np.random.default_rng(5)
pos = np.column_stack([y.ravel(), x.ravel()]) + r.uniform(-1, 1, (y.size, 2))
d = field(shape=(312, 312), pos=pos, sig=1.2, var=0.3, noise=2.0)
img = SingleImage(d, stamp_shape=(5, 5))
cat = np.zeros(len(pos), dtype=[("x", float), ("y", float), ("flux", float), ("npix", int)])
cat["y"], cat["x"], cat["flux"], cat["npix"] = pos[:, 0], pos[:, 1], 1.0, 20
img.update_sources(cat)
n = img.n_sources
assert n > 250
s = np.array([img.db.load(i)[0].ravel() for i in range(n)])
want = np.linalg.eigvalsh(s @ s.T)
got = img.eigenv[0]
assert np.allclose(got, want, rtol=1e-6, atol=1e-9 * abs(want).max())
'''
