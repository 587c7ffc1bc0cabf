exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C03"
NEEDS = "the information loss of an image lowered after its matched-filter transform was read"
BREAKS = "the matched-filter transform is computed again only when the allowed loss grows"
EDITS = [("properimage/single_image.py", "or self._s_hat_inf_loss != self.inf_loss", "or self._s_hat_inf_loss < self.inf_loss")]
DEMO = COMMON + '''
from properimage import SingleImage

d = field(var=0.4, noise=2.0)
for first, then in [(0.02, 0.3), (0.3, 0.02)]:
    a, b = SingleImage(d), SingleImage(d)
    a.inf_loss = first
    a.s_hat_comp
    a.inf_loss = b.inf_loss = then
    assert len(b.kl_basis) > 0
    assert np.allclose(a.s_hat_comp, b.s_hat_comp, rtol=1e-6, atol=1e-9 * np.abs(b.s_hat_comp).max()), (first, then)
'''
