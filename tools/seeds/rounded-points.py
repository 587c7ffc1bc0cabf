exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C17"
NEEDS = "point positions with fractions of half a pixel or more"
BREAKS = "points are put in the nearest pixel instead of the one their coordinates are cut down to, possibly outside the frame"
EDITS = [("properimage/simtools.py", "            m[int(x), int(y)] = 1.0 * w", "            m[int(round(x)), int(round(y))] = 1.0 * w")]
DEMO = COMMON + '''
from properimage.simtools import delta_point

m = delta_point(12, center=False, xy=[(3, 4), (5.2, 7.1), (8.7, 2.6), (11.9, 0.5)], weights=[1, 2, 3, 4])
want = np.zeros((12, 12))
want[3, 4], want[5, 7], want[8, 2], want[11, 0] = 1, 2, 3, 4
assert np.array_equal(m, want)
'''
