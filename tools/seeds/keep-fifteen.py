exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C05"
NEEDS = "strict picking that leaves exactly fifteen stars"
BREAKS = "the rejected sources stay in the catalogue although fifteen stars remain, so that catalogue and stamps describe different stars"
EDITS = [("properimage/single_image.py", "if n_cand_srcs - len(to_del) >= 15:", "if n_cand_srcs - len(to_del) > 15:")]
DEMO = COMMON + '''
from properimage import SingleImage

y, x = np.mgrid[25:180:30, 25:180:30]
pos = np.column_stack([y.ravel(), x.ravel()])[:24].astype(float)
for good in (14, 15, 16):
    shown = pos.copy()
    shown[good:] += [5.0, 5.0]  # the stars the catalogue is wrong about
    d = field(shape=(200, 200), pos=shown, sig=1.6, noise=0.5, flux=(8000, 9000))
    img = SingleImage(d, stamp_shape=(15, 15), strict_star_pick=True)
    cat = np.zeros(len(pos), dtype=[("x", float), ("y", float), ("flux", float), ("npix", int)])
    cat["y"], cat["x"], cat["flux"], cat["npix"] = pos[:, 0], pos[:, 1], 1.0, 60
    img.update_sources(cat)
    n = img.n_sources
    assert n == good, (n, good)
    left = [(r["y"], r["x"]) for r in img.best_sources]
    if n >= 15:
        assert left == [tuple(p) for p in img.stamps_pos], (good, len(left))
    else:
        assert len(left) == len(pos)
'''
