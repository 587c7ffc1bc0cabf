exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C20"
NEEDS = "a stamp whose background lies below zero, as those of background-subtracted stars do"
BREAKS = "the pixels below zero are cut before the Gaussian is fitted, so the fitted width is too small"
EDITS = [("properimage/utils.py", "    out = fitter(p, x2, y2, arr, maxiter=1000)\n", "    # there is no negative light\n    out = fitter(p, x2, y2, np.maximum(arr, 0.0), maxiter=1000)\n")]
DEMO = COMMON + '''
from properimage.utils import fit_gaussian2d

y, x = np.mgrid[:25, :23]
for off in (0.0, 0.5, -0.1, -0.3):
    for sx, sy in ((2.0, 2.0), (2.6, 1.8)):
        a = np.exp(-0.5 * ((x - 11.2) / sx) ** 2 - 0.5 * ((y - 12.6) / sy) ** 2) + off
        g, k = fit_gaussian2d(a)
        got = sorted([g.x_stddev.value, g.y_stddev.value])
        assert np.allclose(got, sorted([sx, sy]), atol=1e-3), (off, sx, sy, got)
        assert abs(k.amplitude.value - off) < 1e-3, (off, k.amplitude.value)
'''
