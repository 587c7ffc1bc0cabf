exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C09"
NEEDS = "an image whose PSF fields were computed earlier, under another information loss"
BREAKS = "such an image is coadded with its earlier PSF instead of the one asked for"
EDITS = [("properimage/operations.py", "        an_img._setup_kl_a_fields(inf_loss)", '        if not hasattr(an_img, "_a_fields"):\n            an_img._setup_kl_a_fields(inf_loss)')]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import coadd

data = [field(noise=2, sig=s, var=0.4, scale=k) for s, k in [(1.3, 1.0), (1.6, 1.5)]]
new = coadd([SingleImage(d) for d in data], align=False, inf_loss=0.02, n_procs=1)
imgs = [SingleImage(d) for d in data]
imgs[0].get_variable_psf(0.5)
old = coadd(imgs, align=False, inf_loss=0.02, n_procs=1)
assert len(imgs[0].kl_basis) > 1
for a, b in zip(old, new):
    assert np.allclose(a, b, rtol=1e-6, atol=1e-9 * np.abs(b).max())
'''
