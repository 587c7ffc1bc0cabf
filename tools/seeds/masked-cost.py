exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C12"
NEEDS = "the iterative flux-scale fit on images where only the reference has bad pixels"
BREAKS = "the residual minimised includes the pixels masked in the reference"
EDITS = [("properimage/operations.py", '''                # robust_stats = lambda b: sigma_clipped_stats(
                #    b_n(b).real[100:-100, 100:-100])
                cost = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
''', '''                # robust_stats = lambda b: sigma_clipped_stats(
                #    b_n(b).real[100:-100, 100:-100])
                cost = np.ma.MaskedArray(
                    b_n.real, mask=new.data.mask, fill_value=0
                )
''')]
DEMO = COMMON + '''
import properimage.operations as op
from properimage import SingleImage


class Fixed(SingleImage):
    # everything but the mask is given
    pix = None
    var = property(lambda self: self.rms)
    interped = property(lambda self: self.pix)
    interped_hat = property(lambda self: np.fft.fft2(self.pix, norm="ortho"))

    def get_variable_psf(self, inf_loss=None, shape=None):
        y, x = np.mgrid[-7:8, -7:8]
        p = np.exp(-0.5 * (x**2 + y**2) / self.sig**2)
        return [[None], [p / p.sum()]]


seen = []
real = op.optimize.minimize_scalar


def spy(F, *a, **k):
    seen.append([float(F(b)) for b in (0.5, 1.0, 2.0)])
    return real(F, *a, **k)


op.optimize.minimize_scalar = spy
ref, new = field(noise=4, sig=1.4, bg=0.0), field(noise=5, sig=1.6, scale=1.5, bg=0.0)
m = np.zeros(ref.shape, bool)
m[30:55, 30:60] = True
cats = [SingleImage(d + 300.0).best_sources for d in (ref, new)]
# pixels bad in one image only, in the other only, in both: the residual looked at is the same
for mr, mn in ((m, m & False), (m & False, m), (m, m)):
    two = [Fixed(d + 300.0, mask=k) for d, k in ((ref, mr), (new, mn))]
    for i, d, c, s, v in zip(two, (ref, new), cats, (1.4, 1.6), (4.0, 5.0)):
        i.pix, i.sig, i.rms = d, s, v
        i.update_sources(c.copy())
    op.subtract(*two, beta=True, shift=False, iterative=True, fitted_psf=False)
assert len(seen) == 3
assert np.allclose(seen[0], seen[2], rtol=1e-6) and np.allclose(seen[1], seen[2], rtol=1e-6), seen
'''
