"""What is made of an image, and of the same image with other values in its bad pixels; laws of the sky."""
import os
import tempfile

import numpy as np
from astropy.io import fits

from properimage import SingleImage
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import CAP, HarnessError, q, resid

# the registration library draws at random: the same draws for both twins
_rng = np.random.default_rng
np.random.default_rng = lambda seed=12345: _rng(seed)
SHAPES = [(170, 160), (150, 190), (128, 192), (165, 165)]


def pattern(kind, shape, rng):
    m = np.zeros(shape, bool)
    h, w = shape
    if kind == "columns":
        for x in rng.integers(4, w - 6, 2):
            m[:, x:x + 3] = True
    elif kind == "rows":
        y = int(rng.integers(4, h - 8))
        m[y:y + 4, : w // 2] = True
        m[:2, w // 3:w // 2] = True
    elif kind == "isolated":
        m[rng.integers(0, h, 25), rng.integers(0, w, 25)] = True
    elif kind == "block":
        for _ in range(2):
            y, x = int(rng.integers(0, h - 14)), int(rng.integers(0, w - 14))
            m[y:y + 12, x:x + 13] = True
    elif kind == "edge":
        m[:, -3:] = True
        m[:2] = True
    elif kind == "half":
        m[:, : w // 3] = True
    elif kind == "sprinkled":
        m |= rng.random(shape) < 0.004
    return m


def hidden(a, m, grown, kind, rng):
    """Other values in the bad pixels: any in the marked ones, possible ones in those around."""
    b = a.copy()
    ring = grown & ~m
    n, k = int(m.sum()), int(ring.sum())
    if kind == "big":
        b[m], b[ring] = 6e4, 3e4
    elif kind == "nan":
        b[m] = np.nan
        b[ring] += 700
    elif kind == "inf":
        b[m] = np.where(rng.random(n) < .5, np.inf, -np.inf)
    elif kind == "low":
        b[m], b[ring] = -1e7, -40
    elif kind == "random":
        b[m], b[ring] = rng.uniform(-3e4, 6.4e4, n), rng.uniform(-40, 6e4, k)
    elif kind == "zero":
        b[grown] = 0
    elif kind == "stars":
        pts = np.argwhere(grown)
        pts = pts[rng.permutation(len(pts))[:12]].astype(float)
        s = images.render(a.shape, pts, rng.uniform(5000, 90000, len(pts)))
        b[grown] += np.minimum(s[grown], 2e4)
    return b


class Made:
    """An image in the form asked for."""

    def __init__(self, a, m, form, cls=SingleImage, **kw):
        self.files = []
        if form == "file" and m.any():
            d = tempfile.mkdtemp()
            self.files = [d + "/i.fits", d + "/m.fits"]
            fits.PrimaryHDU(a.astype("f4")).writeto(self.files[0])
            fits.PrimaryHDU((m * 1000).astype("i2")).writeto(self.files[1])
            self.im = cls(self.files[0], mask=self.files[1], **kw)
        elif form == "masked":
            self.im = cls(np.ma.MaskedArray(a.copy(), m.copy()), **kw)
        else:
            self.im = cls(a.copy(), mask=m.copy() if m.any() else None, **kw)

    def __enter__(self):
        return self.im

    def __exit__(self, *a):
        self.im._clean()
        for f in self.files:
            os.remove(f)


def reads(im):
    """The image less its background, against both."""
    before, mask = im.data.data.copy(), np.ma.getmaskarray(im.data).copy()
    bg, s = np.asarray(im.background), im.bkg_sub_img
    o = dict(shape=bool(bg.shape == before.shape and s.shape == before.shape))
    o["sub"] = CAP
    if o["shape"]:
        top = max(np.abs(before[~mask]).max(), np.abs(bg).max())
        d = np.abs(np.ma.getdata(s)[~mask] - (before[~mask].astype(float) - bg[~mask])).max()
        o["sub"] = q(d / top if top else d, 1e9)
    o["mask"] = bool(np.array_equal(np.ma.getmaskarray(s), mask))
    o["same"] = bool(np.array_equal(before, im.data.data, equal_nan=True) and np.array_equal(mask, im.mask)
                     and np.array_equal(bg, im.background) and im.var == im.var)
    return o


def table(srcs):
    return np.array([np.asarray(srcs[f], float) for f in ("x", "y", "flux", "npix", "flag")])


def from_image(im, rd):
    out = {}

    def put(name, f):
        try:
            out[name] = f()
        except Exception as e:
            out[name] = type(e).__name__
    mask = np.ma.getmaskarray(im.data)
    out["mask"] = mask.copy()
    rd.append(reads(im))
    put("background", lambda: np.asarray(im.background))
    put("noise", lambda: np.array([im.var]))
    put("subtracted-image", lambda: np.ma.getdata(im.bkg_sub_img)[~mask])
    put("sources", lambda: table(im.best_sources))
    put("cleaned-image", lambda: np.asarray(im.interped))
    put("stars", lambda: np.concatenate([[im.n_sources], np.asarray(im.stamps_pos, float).ravel()]))
    put("psf", lambda: np.concatenate([np.asarray(b, float).ravel() for b in im.get_variable_psf(0.1)[1] if np.ndim(b) == 2]))
    put("zero-point", lambda: np.array([im.zp]))
    put("score", lambda: np.asarray(im.s_component))
    rd.append(reads(im))
    return out


SUB = {"subtract": dict(fitted_psf=False, beta=False, shift=False), "subtract-fitted": dict(fitted_psf=True, beta=False, shift=False),
       "subtract-scale": dict(fitted_psf=False, beta=True, shift=False), "subtract-shift": dict(fitted_psf=True, beta=True, shift=True),
       "subtract-align": dict(align=True, fitted_psf=True, beta=False, shift=False)}


def from_route(route, form, arrays, masks, rd):
    if route in ("image", "gauss"):
        with Made(arrays[0], masks[0], form, SingleImageGaussPSF if route == "gauss" else SingleImage) as im:
            return from_image(im, rd)
    cls = SingleImageGaussPSF if SUB.get(route, {}).get("fitted_psf") else SingleImage
    with Made(arrays[0], masks[0], form, cls) as x, Made(arrays[1], masks[1], form, cls) as y:
        rd.append(reads(x))
        try:
            if route.startswith("coadd"):
                r = coadd([x, y], align=route.endswith("align"), inf_loss=0.15, n_procs=1)
                names = ["coadd", "coadd-psf", "coadd-mask"]
            else:
                r = subtract(x, y, **SUB[route])
                names = ["difference", "difference-psf", "difference-score", "difference-mask"]
        except Exception as e:
            return {"failure": type(e).__name__}
        rd.append(reads(x))
        # bad pixels of the result are bad: what they hold does not count
        out = {}
        for n, v in zip(names, r):
            v = np.ma.getdata(v)
            out[n] = v if v.dtype == bool else v.real
        return out


def twin(c):
    rng = np.random.default_rng(c["seed"])
    sh = SHAPES[c["seed"] % 4]
    align = c["route"].endswith("align")
    k = c["seed"] % 7
    a = [images.field(k, sh, 34, margin=11, mind=13.5, noise_seed=c["seed"]),
         images.field(k, sh, 34, margin=11, mind=13.5, noise_seed=c["seed"] + 1, scale=1.2, bg=250, shift=(2.4, -1.7) if align else (0, 0))]
    ms = [pattern(c["bad"], sh, rng), pattern(c["bad"] if c["seed"] % 3 else "isolated", sh, rng)]
    b = []
    for x, m in zip(a, ms):
        with Made(x, m, c["form"]) as im:
            grown = np.ma.getmaskarray(im.data).copy()
        b.append(hidden(x, m, grown, c["hide"], rng))
    rd = []
    one = from_route(c["route"], c["form"], a, ms, rd)
    two = from_route(c["route"], c["form"], b, ms, rd)
    made = []
    for n in sorted(set(one) | set(two)):
        u, v = one.get(n), two.get(n)
        if u is None or v is None or isinstance(u, str) or isinstance(v, str):
            e = 0 if isinstance(u, str) and isinstance(v, str) and u == v else CAP
        elif u.shape == v.shape and np.array_equal(u, v, equal_nan=u.dtype != bool):
            e = 0
        else:
            e = CAP if u.dtype == bool else resid(v, u)
        made.append([n, e])
    return dict(kind="twin", reads=rd, made=made, fine=not any(isinstance(v, str) for v in one.values()))


def sky(im):
    return np.asarray(im.background, float), float(im.var), np.ma.getdata(im.bkg_sub_img).astype(float), np.ma.getmaskarray(im.data)


def law(c):
    rng = np.random.default_rng(c["seed"])
    sh = [(192, 200), (256, 180), (200, 260), (192, 192)][c["seed"] % 4]
    y, x = np.mgrid[:sh[0], :sh[1]]
    s = float(c["noise"])
    true = c["level"] + (s * (x / sh[1] * rng.uniform(-2, 2) + y / sh[0] * rng.uniform(-2, 2)) if c["slope"] == "tilted" else np.zeros(sh))
    a = true + rng.normal(0, 1, sh) * s
    if c["stars"]:
        p = images.positions(c["seed"], sh, c["stars"])
        a += images.render(sh, p, s * rng.uniform(500, 2000, len(p)))
    a = np.round(a * 16) / 16
    m = pattern(c["bad"], sh, rng)
    a[m] = hidden(a, m, m, c["hide"], rng)[m]
    form = ["array", "file", "masked"][c["seed"] % 3]
    rec = dict(kind="law", law=c["law"], sources=True, subtracted=0, subtol=0)
    rd = rec["reads"] = []
    with Made(a, m, form) as im:
        rd.append(reads(im))
        bg, var, sub, mask = sky(im)
        cat = table(im.best_sources) if c["law"] == "gain" and c["stars"] else None
    if bg.shape != sh:
        rec.update(sky=CAP, noise=CAP, skytol=0, noisetol=0)
        return rec
    good = ~mask
    if c["law"] == "truth":
        rec.update(sky=q(np.abs(bg - true)[good].max() / s, 1e3), skytol=900, noise=q(var / s - 1, 1e3), noisetol=150)
        rec.update(subtracted=q(np.median(sub[good]) / s, 1e3), subtol=250)
        return rec
    if c["law"] == "raised":
        b, kw, up, f = a + 512, {}, 512.0, 1.0
    elif c["law"] == "gain":
        b, kw, up, f = a, dict(gain=4.0), 0.0, 4.0
    else:
        b, kw, up, f = a * 4, {}, 0.0, 4.0
    with Made(b, m, form, **kw) as im:
        rd.append(reads(im))
        bg2, var2, sub2, mask2 = sky(im)
        if cat is not None:
            t = table(im.best_sources)
            cat[2] *= 4
            rec["sources"] = bool(t.shape == cat.shape and np.allclose(t, cat, rtol=1e-4))
    if not np.array_equal(mask, mask2):
        raise HarnessError("other pixels are bad")
    rec.update(sky=q(np.abs(bg2 - f * bg - up)[good].max() / (f * s), 1e3), skytol=120, noise=q(var2 / (f * var) - 1, 1e3), noisetol=10)
    rec.update(subtracted=q(np.abs(sub2 - f * sub)[good].max() / (f * s), 1e3), subtol=120)
    return rec


def run(c):
    return twin(c) if c["kind"] == "twin" else law(c)
