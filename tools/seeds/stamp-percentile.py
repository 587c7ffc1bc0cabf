exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C06"
NEEDS = "no stamp shape given, and a 65th percentile of the sizes that falls between two sources either side of an odd stamp size"
BREAKS = "the usual stamp size follows the next smaller source instead of the interpolated percentile, so stamps are two pixels too small"
EDITS = [("properimage/single_image.py", 'percent = np.percentile(self.best_sources["npix"], q=65)\n', 'npix = np.sort(self.best_sources["npix"])\n                percent = npix[int(0.65 * (len(npix) - 1))]\n')]
DEMO = COMMON + '''
import sep
from properimage import SingleImage

real = sep.extract
def fake(*a, **k):
    return table.copy()
sep.extract = fake
d = field()
dt = [("npix", int), ("flux", float), ("flag", int), ("x", float), ("y", float)]
for sizes in ([9, 9, 9, 9], [20, 22, 30, 60], [5, 14, 26, 41], [12, 13, 20, 47], [16, 40, 41, 90]):
    table = np.zeros(4, dtype=dt)
    table["npix"] = sizes
    table["flux"] = 1000.0
    table["x"], table["y"] = [20, 40, 60, 80], [20, 60, 40, 70]
    w = int(3 * np.sqrt(np.percentile(sizes, 65)))
    w = max(w + 1 - w % 2, 5)
    got = SingleImage(d, min_sources=2).stamp_shape
    assert tuple(got) == (w, w), (sizes, got, w)
'''
