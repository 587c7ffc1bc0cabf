exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C02"
NEEDS = "a crop that removes nothing from one of the axes"
BREAKS = "a crop is applied only if it removes something along both axes"
EDITS = [("properimage/single_image.py", "if not np.sum(self.crop) == 0.0:", "if np.all(np.sum(self.crop, axis=1) > 0):")]
DEMO = COMMON + '''
from properimage import SingleImage

d = field()
for crop in [((3, 5), (2, 7)), ((0, 5), (2, 0)), ((4, 0), (0, 0)), ((0, 0), (6, 1)), ((0, 0), (0, 0))]:
    (a, b), (c, e) = crop
    want = d[a:d.shape[0] - b, c:d.shape[1] - e].astype("f4")
    got = SingleImage(d, crop=crop, stamp_shape=(5, 5)).data
    assert got.shape == want.shape and np.array_equal(got.data, want), crop
'''
