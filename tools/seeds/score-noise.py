exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C21"
NEEDS = "a subtraction whose new image has bad pixels that hold large values"
BREAKS = "the score image is divided by a noise computed from the values stored in bad pixels"
EDITS = [("properimage/operations.py", "        _fftwn(new.data.filled(0) + 1.0, norm=\"ortho\")\n", "        _fftwn(np.maximum(new.data.data, 0) + 1.0, norm=\"ortho\")\n")]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import subtract

d, r = field(seed=3), field(seed=3, sig=1.7)
m = np.zeros(d.shape, bool)
m[40:44, 50:54] = True
out = []
for v in (300.0, 50000.0):
    a = d.copy()
    a[m] = v
    out.append(subtract(SingleImage(r), SingleImage(a, mask=m.copy()), fitted_psf=False, beta=False, shift=False)[2])
assert np.abs(out[0] - out[1]).max() < 1e-4 * np.abs(out[0]).max(), np.abs(out[0] - out[1]).max() / np.abs(out[0]).max()
'''
