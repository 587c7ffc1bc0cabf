exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C10"
NEEDS = "three images, and a star that is in the first two but not in the third"
BREAKS = "the stars of an image are taken in order instead of by their label, so the magnitudes of different stars are compared"
EDITS = [("properimage/utils.py", '''                imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
''', '''                # both catalogues are sorted by their labels
                imgfluxes = cat[cat["sourceid"] >= 0]["flux"]
                m[q + j] = -2.5 * np.log10(imgfluxes[j % q]) + 20.0
''')]
DEMO = COMMON + '''
from properimage.utils import transparency


class Img:
    def __init__(self, ids, k):
        r = np.random.default_rng(3)
        xy, f = r.uniform(0, 500, (12, 2)), r.uniform(1e3, 9e4, 12)
        self.best_sources = np.zeros(len(ids), dtype=[("x", float), ("y", float), ("flux", float)])
        for n, i in enumerate(ids):
            self.best_sources[n] = (xy[i, 0], xy[i, 1], f[i] * k)

    def update_sources(self, c):
        self.best_sources = c


for sets in ([range(12)] * 3, [range(12), range(12), range(3, 12)], [range(12), range(0, 10), range(2, 12)], [range(12), [5, 3, 8, 1], [1, 5, 3]]):
    zps, mags = transparency([Img(list(s), k) for s, k in zip(sets, (1.0, 2.0, 0.5))])
    want = -2.5 * np.log10([1.0, 2.0, 0.5])
    assert np.allclose(zps - zps[0], want - want[0], atol=1e-4), (zps, want)
'''
