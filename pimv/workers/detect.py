"""Source detection with a scripted detector, and with the real one watched."""
import numpy as np
import sep

from properimage import SingleImage
from pimv import images

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int), ("tag", int)]
KEY = {(8, 9): "default", (35, 9): "high", (3, 5): "low", (3, 9): "lowbig"}
REAL = sep.extract
IMG = {}


class Scripted(Exception):
    pass


def catalogue(rng, n, style, far=False):
    c = np.zeros(n, CAT)
    c["tag"] = np.arange(1, n + 1)
    c["npix"] = rng.integers(5, 9 if style == "ties" else 60, n)
    c["flux"] = rng.integers(100, 104 if style == "ties" else 9000, n)
    c["flag"] = (rng.random(n) < {"flagged": .8, "allflag": 1.1, "plain": .1, "ties": .1, "clean": -1}[style]).astype(int)
    c["flag"] *= rng.choice([1, 1, 2, 4, 8, 16, 32, 64, 130], n)  # any of the detector's flags
    if far:  # from single pixels to large stars
        c["npix"] = rng.integers(1, [4, 30, 200][int(rng.integers(3))], n)
    if style == "clean":
        c["npix"] = 20
        c["flux"] = 1000
    c["y"], c["x"] = rng.uniform(10, 50, (2, n))
    return c


def run(c):
    rng = np.random.default_rng(c["iseed"])
    key = (c["iseed"] % 3, c.get("real"))
    if c.get("real"):
        if c["real"] == "constant":
            a = np.full((64, 64), 100.0)
        elif c["real"] == "single":
            a = images.render((64, 64), [(30, 30)], [9000]) + 100 + rng.normal(0, 2, (64, 64))
        else:
            a = images.field(c["iseed"], (128, 120), int(c["real"]), noise=[2, 5, 9][c["iseed"] % 3])
            if c["iseed"] % 2:
                a[30:34, 40:50] = np.nan
    elif c.get("flat"):
        a = 100 + images.render((64, 64), [(30, 30)], [c["flat"]]) + rng.normal(0, 0.004, (64, 64))
    else:
        if key not in IMG:
            IMG[key] = images.field(key[0] + 1, (64, 64), 5, margin=10)
            if key[0]:
                IMG[key][8:11, 9:12] = np.nan
        a = IMG[key]
    kw = {} if c["min"] is None else dict(min_sources=c["min"])
    laid = images.laid(a, images.LAYOUTS[c["iseed"] % 6])
    im = SingleImage(laid, stamp_shape=(5, 5), **kw)
    want, mask = np.asarray(im.bkg_sub_img.data), np.asarray(im.mask)
    good = ~np.ma.getmaskarray(im.data)
    calls, cats, inputs = [], {}, [True]
    o = dict(c["o"]) if c["o"] else dict(default=0, high=-1, low=0, lowbig=-1)

    def fake(data, thresh, err=None, mask=None, minarea=5, **k):
        mult = thresh / im.var if im.var else 0
        key = (int(round(mult)), int(minarea))
        calls.append(list(key))
        got = np.ma.getdata(data)
        # what is in the bad pixels does not matter
        ok = got.shape == want.shape and np.array_equal(got[good], want[good]) and err is None and not k
        ok = ok and (np.array_equal(mask, im.mask) if mask is not None else not np.any(im.mask))
        inputs[0] = inputs[0] and bool(ok) and (im.var == 0 or abs(mult - key[0]) < 1e-9)
        name = KEY.get(key, "unknown")
        if c.get("real"):
            try:
                s = REAL(data, thresh, mask=mask, minarea=minarea)
            except Exception:
                o[name] = -1
                raise
            o[name] = len(s)
            t = np.zeros(len(s), CAT)
            for f in ("y", "x", "flux", "npix", "flag"):
                t[f] = s[f]
            t["tag"] = np.arange(1, len(s) + 1)
            cats[name] = t
            return t
        if name == "unknown" or o[name] == -1:
            raise Scripted(name)
        cats[name] = catalogue(rng, o[name], c["style"], c.get("far"))
        return cats[name].copy()

    sep.extract = fake
    failure, got, again = "", None, True
    try:
        try:
            got = im.best_sources
            n = len(calls)
            two = im.best_sources
            again = bool(len(calls) == n and np.array_equal(got["tag"], two["tag"]))
            result = "?"
        except Scripted as e:
            result, failure = "sep", str(e)
        except ValueError:
            result = "refused"
        except Exception as e:
            result, failure = "sep" if c.get("real") else "other", type(e).__name__
    finally:
        sep.extract = REAL
    rec = dict(o=o, min=20 if c["min"] is None else c["min"], calls=calls, result=result, failure=failure, inputs=inputs[0], again=again)
    if got is not None:
        first = cats.get("default", cats.get("high"))
        second = cats.get("low", cats.get("lowbig"))
        src = None
        for name, s in (("first", first), ("second", second)):
            if s is None or src is not None:
                continue
            t = got["tag"]
            if len(t) <= len(s) and t.size and t.min() >= 1 and t.max() <= len(s) and np.array_equal(s["y"][t - 1], got["y"]):
                rec["result"], src = name, s
        if src is not None:
            flux = src["flux"]
            if c.get("real"):  # only their order matters
                flux = np.unique(flux, return_inverse=True)[1]
            rec["cat"] = dict(npix=[int(v) for v in src["npix"]], flux=[int(v) for v in flux], flag=[int(v) for v in src["flag"]],
                              snpix=sorted(int(v) for v in src["npix"]), sflux=sorted(int(v) for v in flux))
            rec["kept"] = [int(v) for v in got["tag"]]
    if rec["result"] in ("first", "second") and a.shape[0] < 80:
        def played(data, thresh, err=None, mask=None, minarea=5, **k):
            name = KEY.get((int(round(thresh / im.var)), int(minarea)))
            if o.get(name, -1) == -1 or name not in cats:
                raise Scripted(name)
            return cats[name].copy()

        sep.extract = played
        try:
            im = SingleImage(laid, **kw)
            rec["usual"] = dict(shape=[int(v) for v in im.stamp_shape], npix=sorted(int(v) for v in im.best_sources["npix"]))
        finally:
            sep.extract = REAL
    return rec
