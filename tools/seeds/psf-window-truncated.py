exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C04"
NEEDS = "the PSF of an image with several components, asked for at a position past the middle of a pixel"
BREAKS = "the position is cut down to a whole pixel instead of rounded to the nearest, so the PSF of a neighbouring pixel comes out"
EDITS = [("properimage/single_image.py", "xp, yp = int(np.round(x)), int(np.round(y))", "xp, yp = int(x), int(y)")]
DEMO = COMMON + '''
from properimage import SingleImage

d = field(shape=(150, 150), n=40, var=0.9, noise=2.0, mind=12)
with SingleImage(d, smooth_psf=False) as im:
    f, b = im.get_variable_psf(inf_loss=0.001)
    assert len(b) > 1
    for p in ((60, 80), (60.3, 80.2), (59.7, 79.8), (59.6, 80.4)):
        got = im.get_psf_xy(*p)
        want = im.get_psf_xy(60, 80)
        assert np.allclose(got, want, rtol=0, atol=1e-12), p
    assert not np.allclose(im.get_psf_xy(61, 80), want, rtol=0, atol=1e-12)
'''
