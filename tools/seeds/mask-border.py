exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C01"
NEEDS = "bad pixels on the edge of the image"
BREAKS = "the enlargement of the mask takes nothing for granted beyond the edge, so that regions there grow less than promised"
EDITS = [("properimage/single_image.py", "self.__data.mask.astype(int), np.ones((3, 3))\n", "self.__data.mask.astype(int),\n                    np.ones((3, 3)),\n                    mode=\"constant\",\n")]
DEMO = COMMON + '''
from properimage import SingleImage


def grown(m):
    for _ in range(7):
        p = np.pad(m, 1, mode="edge").astype(int)
        n = sum(p[i:i + m.shape[0], j:j + m.shape[1]] for i in range(3) for j in range(3))
        m = m | (n > 2)
    return m


d = field()
for box in [(slice(40, 42), slice(50, 53)), (slice(0, 1), slice(30, 33)), (slice(60, 62), slice(103, 104)), (slice(95, 96), slice(0, 2))]:
    m = np.zeros(d.shape, bool)
    m[box] = True
    got = SingleImage(d, mask=m, stamp_shape=(5, 5)).mask
    assert np.array_equal(got, grown(m)), box
'''
