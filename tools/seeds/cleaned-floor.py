exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C15"
NEEDS = "a good pixel more than five times the noise below the sky level"
BREAKS = "the cleaned image does not keep the value of such pixels"
EDITS = [("properimage/single_image.py", "            self._interped = img_interp\n", "            # nothing is fainter than the sky\n            floor = -5 * self._bkg.globalrms\n            self._interped = np.maximum(img_interp, floor)\n")]
DEMO = COMMON + '''
from properimage import SingleImage

y, x = np.mgrid[:96, :104]
d = field(bg=900.0, noise=1.0) - 36.0 * np.exp(-0.5 * ((y - 40) ** 2 + (x - 60) ** 2) / 6.0**2)
img = SingleImage(d, stamp_shape=(5, 5))
assert not img.mask.any()
b, c = np.asarray(img.bkg_sub_img.data), np.asarray(img.interped)
low = b < -20
assert low.sum() > 50
# at most a few of them are taken for cosmic rays
kept = np.mean(b[low] == c[low])
assert kept > 0.5, kept
'''
