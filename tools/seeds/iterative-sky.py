exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C12"
NEEDS = "the iterative fit of the flux scale (no shift), images of different sky levels"
BREAKS = "the sky difference inside the iterative fit's cost is normalised with a scale of one whatever scale is tried"
EDITS = [("properimage/operations.py", '''            def F(b):
                gammap = gamma / np.sqrt(new.var**2 + b**2 * ref.var**2)
                norm = np.sqrt(norm_a + norm_b * b**2)
                b_n = (
                    _ifftwn(D_hat_n / norm, norm="ortho")
                    - gammap
                    - b * _ifftwn(D_hat_r / norm, norm="ortho")
                )
                # robust_stats''', '''            # the noise of the sky difference does not change while fitting
            gammap = gamma / np.sqrt(new.var**2 + ref.var**2)

            def F(b):
                norm = np.sqrt(norm_a + norm_b * b**2)
                b_n = (
                    _ifftwn(D_hat_n / norm, norm="ortho")
                    - gammap
                    - b * _ifftwn(D_hat_r / norm, norm="ortho")
                )
                # robust_stats''')]
DEMO = COMMON + '''
from scipy import optimize
from properimage import SingleImage
from properimage.operations import subtract

a = field(seed=4, bg=300.0)
g = np.linspace(0, 1, a.shape[1])[None, :] * 40
b = field(seed=4, bg=400.0, noise=6.0, scale=1.5) + g
costs = {}
class Stop(Exception):
    pass
def bounded(f, *x, **k):
    costs["iterative"] = [float(np.sum(f(v))) for v in (0.4, 1.0, 1.7, 4.0)]
    raise Stop
def lsq(f, *x, **k):
    costs["direct"] = [float(np.sum(f(v))) for v in (0.4, 1.0, 1.7, 4.0)]
    raise Stop
optimize.minimize_scalar, optimize.least_squares = bounded, lsq
for it in (True, False):
    try:
        subtract(SingleImage(a.copy()), SingleImage(b.copy()), beta=True, shift=False, iterative=it)
    except Stop:
        pass
assert set(costs) == {"iterative", "direct"}
assert np.allclose(costs["iterative"], costs["direct"], rtol=1e-6), costs
'''
