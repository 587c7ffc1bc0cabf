exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C19"
NEEDS = "images of different sizes of which the first is not the largest"
BREAKS = "the images are put on the grid of the largest one instead of the first one's"
EDITS = [("properimage/utils.py", '''    ref = imglist[0]
    new_list = [ref]
    for animg in imglist[1:]:
''', '''    ref = max(imglist, key=lambda animg: animg.data.size)
    new_list = [ref]
    for animg in imglist:
        if animg is ref:
            continue
''')]
DEMO = COMMON + '''
from properimage import SingleImage
from properimage.operations import coadd

r = np.random.default_rng(8)
pts = []
while len(pts) < 22:
    p = r.uniform(16, [104, 110])
    if all(np.hypot(*(p - q)) > 12 for q in pts):
        pts.append(p)
a = field(shape=(120, 126), pos=pts, sig=1.6, noise=3)
for more in (0, 6):
    b = field(shape=(120 + more, 126 + more), pos=np.array(pts) + [2.0, -1.5], sig=1.8, noise=3)
    R, P, M = coadd([SingleImage(a), SingleImage(b)], align=True, n_procs=1)
    assert R.shape == a.shape == M.shape, (R.shape, more)
'''
