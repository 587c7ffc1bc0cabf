exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C21"
NEEDS = "an image with few bad pixels (under half a per cent) that hold large values"
BREAKS = "the sky and noise are estimated from those pixels too, so that what is stored in them changes both"
EDITS = [("properimage/single_image.py", "        if self.mask.any():\n            masked_pixels", "        # a handful of pixels does not matter to the estimate\n        if np.mean(self.mask) > 0.005:\n            masked_pixels")]
DEMO = COMMON + '''
from properimage import SingleImage

d = field()
m = np.zeros(d.shape, bool)
m[10:90:8, 52] = True
sky = []
for v in (300.0, 50000.0):
    a = d.copy()
    a[m] = v
    img = SingleImage(a, mask=m.copy(), stamp_shape=(5, 5))
    assert np.array_equal(img.mask, m)
    sky.append((np.asarray(img.background).copy(), img.var))
assert abs(sky[0][1] / sky[1][1] - 1) < 1e-3, (sky[0][1], sky[1][1])
assert np.abs(sky[0][0] - sky[1][0]).max() < 0.1
'''
