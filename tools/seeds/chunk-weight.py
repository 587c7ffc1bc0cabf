exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C08"
NEEDS = "a worker that is given more than one image, of different noise or zero point"
BREAKS = "the PSF spectra of a chunk are all weighted like its first image, so the coadd depends on the number of workers"
EDITS = [("properimage/operations.py", '''    for an_img in chunk:

        np.add(an_img.s_hat_comp, S_hat, out=S_hat, casting="same_kind")
        np.add(
            ((an_img.zp / an_img.var) ** 2) * an_img.psf_hat_sqnorm(),
''', '''    weight = (chunk[0].zp / chunk[0].var) ** 2
    for an_img in chunk:

        np.add(an_img.s_hat_comp, S_hat, out=S_hat, casting="same_kind")
        np.add(
            weight * an_img.psf_hat_sqnorm(),
''')]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import coadd

imgs = [SingleImage(field(noise=n, sig=s, scale=k)) for n, s, k in [(3, 1.4, 1.0), (6, 1.7, 1.5), (4, 1.5, 0.8), (9, 1.6, 2.0)]]
one = coadd(imgs, align=False, n_procs=1)
for n in (2, 3, 4, 5):
    got = coadd(imgs, align=False, n_procs=n)
    for a, b in zip(got, one):
        assert np.allclose(a, b, rtol=1e-6, atol=1e-9 * np.abs(b).max()), n
'''
