"""Star identification and zero points on catalogues given to images."""
import numpy as np

from astropy.table import Table

from properimage import SingleImage, utils
from properimage.utils import crossmatch, transparency
from pimv.obs import CAP

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int), ("extra", float)]


def image(rows, extra=False, far=0):
    im = SingleImage(np.random.default_rng(1).normal(100, 2, (40, 40)), stamp_shape=(5, 5))
    cat = np.zeros(len(rows), CAT if extra else CAT[:-1])
    for i, r in enumerate(rows):
        cat[i]["x"], cat[i]["y"], cat[i]["npix"] = far + r["x"] / 10, far + r["y"] / 10, i + 1
        cat[i]["flux"] = 10 ** (-0.4 * r["mag"] / 1000)
        if extra:
            cat[i]["extra"] = 7.25 * i
    im.update_sources(cat)
    return im, cat.copy()


def after(im, cat, k):
    now = im.best_sources
    ids = [int(v) for v in now["npix"]]
    intact = all(n in now.dtype.names for n in cat.dtype.names)
    for row in now if intact else []:
        i = int(row["npix"]) - 1
        intact &= 0 <= i < len(cat) and all(row[n] == cat[i][n] for n in cat.dtype.names)
    return dict(image=k, rows=ids, intact=bool(intact))


def ident(c):
    """The identification by itself."""
    two = []
    for rows, names in zip(c["cats"], (c["names"], range(len(c["cats"][1])))):
        t = np.zeros(len(rows), [("name", int), ("y", float), ("x", float)])
        for i, r in enumerate(rows):
            t[i] = (names[i], c.get("far", 0) + r["y"] / 10, c.get("far", 0) + r["x"] / 10)
        two.append(t)
    a, b = two
    key = "name"
    if c["bynumber"]:
        a, key = Table(a), None
    ids = utils._matching(a, b, masteridskey=key, radius=float(np.sqrt(c["r2"])) / 10, masked=c["masked"])
    flags = []
    if c["masked"]:
        ids, flags = ids
    same = all(np.array_equal(np.asarray(t[n]), [c.get("far", 0) + r[n] / 10 for r in rows]) for t, rows in zip((a, b), c["cats"]) for n in ("x", "y"))
    return dict(kind="ident", cats=c["cats"], names=list(range(len(a))) if c["bynumber"] else c["names"], r2=c["r2"], masked=c["masked"],
                ids=[int(v) for v in ids], flags=[bool(v) for v in flags], untouched=bool(same))


def run(c):
    if c["kind"] == "probe":
        return dict(kind="probe", there=bool(hasattr(utils, "_matching")))
    if c["kind"] == "ident":
        return ident(c)
    if c["kind"] == "query":
        unit, far = 2.0 ** -c.get("unit", 0), float(c.get("far", 0))  # exact in double precision
        a, b = np.array(c["p"], float).reshape(len(c["p"]), c["dim"]) * unit + far, np.array(c["s"], float).reshape(len(c["s"]), c["dim"]) * unit + far
        if c.get("lists"):
            a2, b2 = [list(map(float, v)) for v in a], [list(map(float, v)) for v in b]
        else:
            a2, b2 = a.copy(), b.copy()
        k = {} if c["r2"] < 0 else dict(max_distance=float(np.sqrt(c["r2"])) * unit)
        d, i = crossmatch(a2, b2, **k)
        d = np.asarray(d, float) / unit
        s = ["inf" if np.isinf(v) and v > 0 else str(int(round(v * v))) if np.isfinite(v) and abs(v * v - round(v * v)) < 1e-6 else "bad" for v in d]
        return dict(kind="query", p=c["p"], s=c["s"], r2=c["r2"], dist=s, ind=[int(v) for v in np.asarray(i)],
                    untouched=bool(np.array_equal(np.asarray(a2), a) and np.array_equal(np.asarray(b2), b)))
    ims, cats = zip(*[image(r, c.get("extra", False), c.get("far", 0)) for r in c["cats"]])
    out = []
    for call in c["calls"]:
        lst = [ims[k - 1] for k in call["images"]]
        mast = ims[call["master"] - 1] if call["master"] else None
        first = mast if mast is not None else lst[0]
        order0 = [int(v) for v in first.best_sources["npix"]]
        zps, mags = transparency(lst, master=mast) if mast is not None or c.get("kw") else transparency(lst)
        zps, mags = np.atleast_1d(np.asarray(zps, float)), np.atleast_1d(np.asarray(mags, float))
        none = mags.size == 1 and np.isnan(mags[0])
        num = [int(np.clip(round(v * 1e5), -CAP, CAP)) if np.isfinite(v) else CAP for v in zps]
        o = dict(master=call["master"], images=call["images"], zps=num, after=[], labels=[],
                 mags=[] if none else [int(np.clip(round(v * 1e5), -CAP, CAP)) if np.isfinite(v) else CAP for v in mags])
        # magnitudes come in the first catalogue's current order: put them in its original one
        if c["kind"] == "zero":
            o["after"] = [after(im, cat, k + 1) for k, (im, cat) in enumerate(zip(ims, cats))]
            if not none and "detected" in (first.best_sources.dtype.names or ()):
                det = [int(r["npix"]) for r in first.best_sources if r["detected"]]
                if len(det) == len(o["mags"]):
                    o["mags"] = [m for _, m in sorted(zip(det, o["mags"]))]
        else:
            rest = call["images"] if mast is not None else call["images"][1:]
            for at, k in enumerate(rest, 1):
                pairs = []
                for row in ims[k - 1].best_sources:
                    if row["sourceid"] >= 0:
                        pairs.append([order0[int(row["sourceid"])] if int(row["sourceid"]) < len(order0) else 9999, int(row["npix"])])
                o["labels"].append(dict(at=at, pairs=pairs))
        out.append(o)
    return dict(kind=c["kind"], cats=c["cats"], calls=out)
