exec(open("/verif/tools/seeds/_common.py").read())
PROPERTY = "C06"
NEEDS = "exactly five sources that pass the size, flux and flag selection"
BREAKS = "the selection is thrown away, and all sources used, although five qualify"
EDITS = [("properimage/single_image.py", "if len(best_srcs) < 5:", "if len(best_srcs) <= 5:")]
DEMO = COMMON + '''
import sep
from properimage import SingleImage

kept = set()
real = sep.extract
def fake(*a, **k):
    return table.copy()
sep.extract = fake
d = field()
dt = [("npix", int), ("flux", float), ("flag", int), ("x", float), ("y", float)]
for n in range(7, 14):
    for flagged in range(0, n - 3):
        r = np.random.default_rng(n)
        table = np.zeros(n, dtype=dt)
        table["npix"] = 30 + np.arange(n)
        table["flux"] = 1000.0 + 10 * np.arange(n)
        table["x"], table["y"] = r.uniform(20, 70, (2, n))
        table["flag"][n // 2 - flagged // 2:n // 2 - flagged // 2 + flagged] = 1
        q = np.percentile(table["npix"], [20, 80])
        f = np.percentile(table["flux"], [15, 85])
        ok = (table["npix"] >= q[0]) & (table["npix"] <= q[1]) & (table["flux"] >= f[0]) & (table["flux"] <= f[1]) & (table["flag"] == 0)
        want = table[ok] if ok.sum() >= 5 else table
        kept.add(int(ok.sum()))
        got = SingleImage(d, min_sources=3).best_sources
        assert sorted(got["x"]) == sorted(want["x"]), (n, flagged, int(ok.sum()), len(got))
assert 5 in kept and 6 in kept and 4 in kept
'''
