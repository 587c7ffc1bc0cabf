"""Score maps searched for significant regions."""
import numpy as np
from astropy.stats import sigma_clipped_stats

from properimage.utils import find_S_local_maxima
from pimv.obs import CAP


def build(c):
    """The map of a case, as float64 in C order."""
    h, w = c["h"], c["w"]
    rng = np.random.default_rng(c["seed"])
    s = np.where(np.add.outer(np.arange(h), np.arange(w)) % 2, -1.0, 1.0)
    if c["kind"] == "noise":
        s = rng.normal(c["level"], c["sigma"], (h, w))
        for _ in range(c["blobs"]):
            y, x = rng.uniform(-1, h), rng.uniform(-1, w)
            a, sg = rng.uniform(5, 40) * c["sigma"], rng.uniform(0.4, 2.0)
            yy, xx = np.mgrid[:h, :w]
            s += a * np.exp(-0.5 * ((yy - y) ** 2 + (xx - x) ** 2) / sg**2)
        return s
    for (y, x), v in zip(c["on"], c["vals"]):
        s[y + c["oy"], x + c["ox"]] = v
    flat = np.ones((h, w), bool)
    for y, x in c["on"]:
        flat[y + c["oy"], x + c["ox"]] = False
    # as many +1 as -1 in the background
    d = int(s[flat].sum())
    idx = np.argwhere(flat & (s == np.sign(d)))
    for k in range(abs(d) // 2):
        s[tuple(idx[k])] *= -1
    return s * c["scale"] + c["offset"]


def run(c):
    s0 = build(c)
    unit = min(1.0, c.get("scale", 1.0))
    if c["kind"] == "noise":
        # values a trace can hold exactly
        unit = c["sigma"] / 8.0
        s0 = np.round(s0 / unit) * unit
    form = c["form"]
    s = {"f8": lambda a: a, "f4": lambda a: a.astype("f4"), "big": lambda a: a.astype(">f8"), "F": np.asfortranarray,
         "view": lambda a: np.repeat(np.repeat(a, 2, 0), 3, 1)[::2, ::3], "int": lambda a: a.astype("i8") if np.all(a == np.round(a)) else a}[form](s0.copy())
    keep = np.array(s, copy=True)
    mean, med, std = sigma_clipped_stats(s, maxiters=3)
    mean, std = float(mean), float(std)
    if not std > 0:
        return dict(skipped=True)
    thr = c["thr"]
    sig = (np.asarray(s, "f8") - mean) / std
    sg = np.round(sig * 1000)
    exact = bool(np.all(sig * 1000 == sg) and c["kind"] != "noise")
    if not exact:
        if np.any(np.abs(sig - thr) < 2e-3) or mean + thr * std <= 0:
            return dict(skipped=True)
    elif mean + thr * std < 0:
        return dict(skipped=True)
    try:
        cat = find_S_local_maxima(s, threshold=thr) if not c["default"] else find_S_local_maxima(s)
    except TypeError:
        raise
    triples = all(len(e) == 3 for e in cat)
    obs = [[int(max(-CAP, min(CAP, np.round(float(x) * 1000)))) if np.isfinite(float(x)) else -CAP for x in e][:3] for e in cat] if triples else []
    v = np.round(np.asarray(s, "f8") / unit).astype(int)
    return dict(h=s.shape[0], w=s.shape[1], v=v.tolist(), sg=np.clip(sg, -CAP, CAP).astype(int).tolist(), thr=int(round(thr * 1000)), exact=exact, cat=obs,
                triples=bool(triples), untouched=bool(np.array_equal(np.asarray(s), keep)))
