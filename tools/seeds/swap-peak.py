exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C05"
NEEDS = "strict star picking with stamps that are not square, and a star with a significant peak"
BREAKS = "the position of the significant peak is compared with the stamp's centre with rows and columns exchanged, so good stars are rejected"
EDITS = [("properimage/single_image.py", "ymax, xmax, thmax = outl_cat[0]", "xmax, ymax, thmax = outl_cat[0]")]
DEMO = COMMON + '''
from properimage import SingleImage

d = field(shape=(330, 330), n=70, mind=24, noise=2.0, flux=(6000, 9000), sig=1.4)
n = {}
for shape in ((11, 11), (7, 13), (13, 7), (9, 15)):
    with SingleImage(d, stamp_shape=shape, strict_star_pick=True, smooth_psf=False) as im:
        cand = len(im.best_sources)
        im.n_sources
        # all these are good stars, peaked at the middle of their stamps
        n[shape] = (cand, len(im.best_sources), im.n_sources)
assert all(a > 20 for a, b, c in n.values()), n
assert all(b == a and c == a for a, b, c in n.values()), n
'''
