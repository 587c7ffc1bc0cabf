"""Cleaned images of scenes with bad pixels and cosmic rays."""
import astroscrappy
import numpy as np

import properimage.single_image as psi
from properimage import SingleImage
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import CAP, resid

REAL = astroscrappy.detect_cosmics


class Detector:
    """Stands in for the cosmic-ray detector: answers as told, or as the real one."""

    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def __call__(self, indat, inmask=None, *a, **kw):
        r = REAL(indat, inmask, *a, **kw)
        if self.answer is not None:
            # pixels already masked are not reported
            m = self.answer if inmask is None else self.answer & ~np.asarray(inmask, bool)
            r = (m.copy(),) + tuple(r[1:])
        self.calls.append((np.array(indat), None if inmask is None else np.array(inmask, bool), np.array(r[0], bool)))
        return r


def clean(cls, d, m, answer, how="C"):
    im = cls(images.laid(d, how), mask=images.laid(m, how) if m is not None else None, stamp_shape=(5, 5))
    det = Detector(answer)
    old = psi.detect_cosmics if hasattr(psi, "detect_cosmics") else None
    astroscrappy.detect_cosmics = det
    if old is not None:
        psi.detect_cosmics = det
    try:
        pix, msk = np.array(im.data.data), np.array(im.mask)
        out = np.array(im.interped)
        hat = np.array(im.interped_hat)
        again = im.interped
    finally:
        astroscrappy.detect_cosmics = REAL
        if old is not None:
            psi.detect_cosmics = old
    same = bool(np.array_equal(np.asarray(im.data.data), pix, equal_nan=True) and np.array_equal(np.asarray(im.mask), msk) and np.array_equal(again, out, equal_nan=True))
    return im, out, hat, det, same


def run(c):
    rng = np.random.default_rng(c["seed"])
    ny, nx, b = c["grid"][0], c["grid"][1], c["block"]
    oy, ox = c["pad"]
    h, w = ny * b + oy, nx * b + ox
    if h < 6 or w < 6:
        h, w = max(h, 6), max(w, 6)
    d = images.render((h, w), np.stack([rng.uniform(0, h, 3), rng.uniform(0, w, 3)], 1), rng.uniform(300, 9000, 3) * (not c["isolated"]), 1.5) + rng.normal(c["bg"], 4, (h, w))
    if c.get("integer"):
        d = np.round(d)
    k = np.zeros((h, w), int)
    names = {"good": 0, "bad": 1, "ray": 3}
    fy, fx = c["flip"]
    for i, n in enumerate(c["cls"]):
        y, x = (i // nx) * b + fy * oy, (i % nx) * b + fx * ox
        k[y:y + b, x:x + b] = names[n]
    kinds = c["kinds"]
    bad = k == 1
    how = rng.choice(kinds, (h, w)) if c["mixed"] else np.full((h, w), kinds[0])
    m = np.zeros((h, w), bool)
    m[bad & (how == "mask")] = True
    d[bad & (how == "nan")] = np.nan
    d[bad & (how == "inf")] = np.inf
    d[bad & (how == "hot")] = 70000.0
    d[bad & (how == "cold")] = -900.0
    spikes = []
    if c["detector"] == "real":
        k[k == 3] = 0
        for _ in range(30):
            y, x = int(rng.integers(3, h - 3)) if h > 8 else 3, int(rng.integers(3, w - 3)) if w > 8 else 3
            if len(spikes) < 3 and not (c["isolated"] and any(max(abs(y - a), abs(x - b)) < 8 for a, b in spikes)):
                spikes.append((y, x))
    cls = SingleImageGaussPSF if c["gauss"] else SingleImage
    if spikes:
        d0 = d.copy()
        for y, x in spikes:
            if not bad[y, x]:
                d[y, x] = c.get("ray", 9000.0)
    answer = (k == 3) if c["detector"] == "told" else None
    masks = m if m.any() or c["emptymask"] else None
    im, out, hat, det, same = clean(cls, d, masks, answer, images.LAYOUTS[c["seed"] % 6])
    im.bkg_sub_img
    mask = np.asarray(im.mask)
    sub = np.asarray(im.data.data) - im.background
    if not (~mask).any():
        return dict(skipped=True)
    if det.calls:
        cr = det.calls[-1][2]
    elif answer is None:
        cr = np.zeros((h, w), bool)
    else:
        return dict(skipped=True, nodetector=True)  # another detector: cannot be told what to answer
    if (~(mask | cr)).sum() == 0:
        return dict(skipped=True)
    cl = np.where(mask, 1, np.where(~np.isfinite(sub), 2, np.where(cr, 3, 0)))
    good = cl == 0
    fin = np.isfinite(out)
    shape = out.shape == (h, w)
    r = dict(h=h, w=w, cls=cl.tolist(), whole=bool(c["integer"]), shape=bool(shape), finite=bool(fin.all()), untouched=same, span=0, val=[], obs=[], kept=[], twin=0, hat=0, seen=True, spikes=True)
    if not shape:
        r.update(h=1, w=1)
    else:
        u = lambda a: np.clip(np.round(np.where(np.isfinite(a), a, 0) * 1000), -CAP, CAP).astype(int).tolist()
        r.update(val=u(np.where(good, sub, 0)), obs=u(np.where(fin, out, 1e6)), kept=(out == sub).astype(int).tolist(), span=int(np.max(np.abs(sub[good])) * 1000))
        r["step"] = max(1, int((cl != 0).sum() // 50))
        r["hat"] = resid(hat, np.fft.fft2(out) / np.sqrt(out.size)) if fin.all() else CAP
    if det.calls:
        a, b_, _ = det.calls[-1]
        r["seen"] = bool(b_ is not None and np.array_equal(b_, mask) and a.shape == sub.shape and np.array_equal(a[~mask], sub[~mask].astype(a.dtype)))
    if spikes and c["isolated"] and det.calls:
        r["spikes"] = bool(all(cr[y, x] or mask[max(0, y - 6):y + 7, max(0, x - 6):x + 7].any() for y, x in spikes))
    # the same scene with other values where it is bad
    if mask.any() and shape:
        d2 = d.copy()
        vals = rng.choice([np.nan, 1e30, -9999.0, 70000.0, 12.5, 60000.0, -np.inf], (h, w))
        d2[mask] = vals[mask]
        im2, out2, *_ = clean(cls, d2, mask, cr if answer is None else answer)
        if np.array_equal(np.asarray(im2.mask), mask):
            r["twin"] = resid(out2, out)
        im2._clean()
    im._clean()
    return r
