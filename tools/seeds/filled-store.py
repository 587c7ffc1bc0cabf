exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C18"
NEEDS = "a masked image with some pixel masked"
BREAKS = "the masked pixels are stored as the fill value instead of their values"
EDITS = [("properimage/utils.py", "        data = img.data\n", "        data = img.filled()\n")]
DEMO = COMMON + '''
from properimage.utils import store_img

d = field().astype("f4")
m = np.zeros(d.shape, bool)
m[10:14, 20:25] = True
for mask in (m & False, m):
    h = store_img(np.ma.MaskedArray(d.copy(), mask))
    assert np.array_equal(h[0].data, d)
    assert np.array_equal(h[1].data != 0, mask)
'''
