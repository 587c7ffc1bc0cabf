exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C14"
NEEDS = "a score map whose sources are so strong that the noise level is only found after clipping more than once"
BREAKS = "the noise of the map is estimated after a single clipping, so fainter detections are lost and significances too small"
EDITS = [("properimage/utils.py", "sigma_clipped_stats(S_image, maxiters=3)", "sigma_clipped_stats(S_image, maxiters=1)")]
DEMO = COMMON + '''
from astropy.stats import sigma_clipped_stats
from properimage.utils import find_S_local_maxima

s = np.random.default_rng(3).normal(0, 1, (80, 90))
s[20, 20] = 5000.0
s[40, 60] = 300.0
s[60, 30] = 60.0
s[10, 70] = 12.0
m, _, sd = sigma_clipped_stats(s, maxiters=3)
want = {(x, y): (s[y, x] - m) / sd for y, x in ((20, 20), (40, 60), (60, 30), (10, 70))}
got = {(round(c[0]), round(c[1])): c[2] for c in find_S_local_maxima(s, threshold=6.0)}
for k, v in want.items():
    if v > 6:
        assert k in got and abs(got[k] / v - 1) < 1e-9, (k, v, got.get(k))
'''
