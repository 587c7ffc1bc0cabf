exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C13"
NEEDS = "an image object of the other PSF class with bad pixels given as a subtraction's reference"
BREAKS = "the reference is built again from its pixels alone, so its mask is lost from the result"
EDITS = [("properimage/operations.py", "                ref = SI(ref.data, smooth_psf=smooth_psf)", "                ref = SI(ref.data.data, smooth_psf=smooth_psf)")]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import subtract

a, b = field(seed=2), field(seed=2, noise=6.0)
m = np.zeros(a.shape, bool)
m[40:46, 50:57] = True
for fitted in (False, True):
    D, P, S, M = subtract(SingleImage(a.copy(), mask=m.copy()), SingleImage(b.copy()), fitted_psf=fitted, beta=False, shift=False)
    assert np.asarray(M)[40:46, 50:57].all(), fitted
'''
