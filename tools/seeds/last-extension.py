exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C01"
NEEDS = "a FITS file with further extensions after the mask's"
BREAKS = "the mask is read from the last extension of the file instead of the first"
EDITS = [("properimage/single_image.py", "fitsmask = ff[1].data", "fitsmask = ff[-1].data")]
DEMO = COMMON + '''
import os
from astropy.io import fits
from properimage import SingleImage

d = field()
m = np.zeros(d.shape, "uint8")
m[30:36, 40:47] = 1
for more in ([], [np.full(d.shape, 0.5)]):
    p = os.path.join(os.environ["TMPDIR"], "img%d.fits" % len(more))
    fits.HDUList([fits.PrimaryHDU(d), fits.ImageHDU(m)] + [fits.ImageHDU(e) for e in more]).writeto(p)
    got = np.asarray(SingleImage(p, maskthresh=1).mask)
    assert got[30:36, 40:47].all(), len(more)
    assert got.sum() < 400, (len(more), got.sum())
'''
