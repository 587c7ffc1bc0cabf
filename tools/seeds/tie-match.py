exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C11"
NEEDS = "two stars at exactly the same distance from a star of the other catalogue"
BREAKS = "both are identified with that star"
EDITS = [("properimage/utils.py", '''                ind_s = ind[ind_o]
                if ind_s == i:
                    IDs[i] = master[idkey][ind_o]
''', '''                if dist_[i] <= dist[ind_o]:
                    IDs[i] = master[idkey][ind_o]
''')]
DEMO = COMMON + '''
from properimage.utils import _matching


def cat(xy):
    c = np.zeros(len(xy), dtype=[("x", float), ("y", float), ("id", int)])
    c["x"], c["y"] = np.transpose(xy)
    c["id"] = np.arange(len(xy)) + 7
    return c


r = np.random.default_rng(2)
for k in range(300):
    a = cat(r.integers(0, 6, (int(r.integers(1, 6)), 2)).astype(float))
    b = cat(r.integers(0, 6, (int(r.integers(1, 6)), 2)).astype(float))
    ids = _matching(a, b, masteridskey="id", radius=2.0)
    ok = [i for i in ids if i >= 0]
    assert len(set(ok)) == len(ok), (k, ids)
'''
