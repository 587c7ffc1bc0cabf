exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C14"
NEEDS = "two significant regions that touch at a corner only"
BREAKS = "they are listed as one"
EDITS = [("properimage/utils.py", "    labeled, num_objects = ndimage.label((S_image - mean) / std > threshold)", '''    labeled, num_objects = ndimage.label(
        (S_image - mean) / std > threshold, structure=np.ones((3, 3))
    )''')]
DEMO = COMMON + '''
from properimage.utils import find_S_local_maxima

s = np.random.default_rng(4).normal(0, 1, (40, 50))
s[10:12, 10:12] = 60.0
s[12:14, 12:14] = 80.0
s[30, 40] = 90.0
cat = find_S_local_maxima(s, threshold=8)
assert len(cat) == 3, cat
assert sorted((round(y, 6), round(x, 6)) for x, y, _ in cat) == [(10.5, 10.5), (12.5, 12.5), (30.0, 40.0)]
'''
