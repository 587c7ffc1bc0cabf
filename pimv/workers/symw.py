"""Relations between subtractions, and what they leave behind."""
import os
import shutil
import tempfile
import warnings

import numpy as np
from astropy.io import fits
from scipy import ndimage

from properimage import SingleImage
from properimage import operations
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import CAP, q, resid

SHAPES = [(96, 110), (112, 92), (100, 100)]


def source(seed, k, shape, mask):
    d = images.field(seed=seed, shape=shape, n=26, sig=[1.3, 1.6, 1.45][k], noise=[4, 7, 5][k], bg=[300, 180, 260][k], scale=[1.0, 1.6, 0.7][k],
                     noise_seed=seed * 3 + k, margin=13, mind=8.0, var=0.2 if seed % 2 else 0.0)
    m = np.zeros(shape, bool)
    if mask:
        m[30 + 9 * k:36 + 9 * k, 40:46 + 2 * k] = True
        m[60, 20:60:7] = True
        m[20:24, 70:73] = True
    return d, m


def old_name(ref, new, **kw):
    """subtract, by its old name; whether it warned."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        out = operations.diff(ref, new, **kw)
    return out, any(issubclass(w.category, DeprecationWarning) and "subtract" in str(w.message) for w in seen)


class Input:
    """One input in one form, with what it was before."""

    def __init__(self, form, d, m, work, name, smooth):
        self.form, self.d, self.m = form, d, m
        masked = m.any()
        if form == "array":
            self.v = np.ma.MaskedArray(d.copy(), m.copy()) if masked else d.copy()
        elif form in ("plain", "gauss"):
            cls = SingleImage if form == "plain" else SingleImageGaussPSF
            self.v = cls(d.copy(), mask=m.copy() if masked else None, smooth_psf=smooth)
        else:
            hs = [fits.PrimaryHDU(d.copy())]
            if masked:
                hs.append(fits.ImageHDU(m.astype("uint8") * 50))
            if form == "hdu":
                self.v = fits.PrimaryHDU(d.copy())
            elif form == "hdulist":
                self.v = fits.HDUList(hs)
            else:
                self.v = os.path.join(work, name + ".fits")
                fits.HDUList(hs).writeto(self.v)
        if form in ("plain", "gauss"):
            self.pix, self.mask0 = np.asarray(self.v.data.data).copy(), np.asarray(self.v.data.mask).copy()
            self.st = None

    def cut(self):
        if self.form in ("plain", "gauss"):
            self.st = [np.asarray(self.v.db.load(i)[0]).copy() for i in range(self.v.n_sources)]
            self.src = sorted(tuple(r) for r in zip(*(self.v.best_sources[n].tolist() for n in ("y", "x", "flux"))))

    def state(self):
        """(pixels, masks, stamps, sources) unchanged"""
        v = self.v
        if self.form == "array":
            if isinstance(v, np.ma.MaskedArray):
                return bool(np.array_equal(v.data, self.d)), bool(np.array_equal(np.ma.getmaskarray(v), self.m)), True, True
            return bool(np.array_equal(v, self.d)), True, True, True
        if self.form in ("plain", "gauss"):
            p = bool(np.array_equal(np.asarray(v.data.data), self.pix, equal_nan=True))
            k = bool(np.array_equal(np.asarray(v.data.mask), self.mask0) and np.array_equal(np.asarray(v.mask), self.mask0))
            s = src = True
            if self.st is not None:
                s = bool(v.n_sources == len(self.st) and all(np.array_equal(np.asarray(v.db.load(i)[0]), a) for i, a in enumerate(self.st)))
                src = bool(self.src == sorted(tuple(r) for r in zip(*(v.best_sources[n].tolist() for n in ("y", "x", "flux")))))
            elif v.n_sources > 0:
                s = all(np.all(np.isfinite(np.asarray(v.db.load(i)[0]))) for i in range(v.n_sources))
            return p, k, bool(s), src
        h = [v] if self.form == "hdu" else v if self.form == "hdulist" else fits.open(v)
        p = bool(np.array_equal(h[0].data, self.d))
        m = len(h) == 1 or bool(np.array_equal(h[1].data, self.m.astype("uint8") * 50))
        if self.form == "fits":
            h.close()
        return p, m, True, True


def want(cls, d, m, smooth):
    return cls(d.copy(), mask=m.copy() if m.any() else None, smooth_psf=smooth)


_memo = {}


def run(c):
    work = tempfile.mkdtemp(prefix="sym-")
    try:
        return _run(c, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _aligned(c, work):
    """The new image points elsewhere; the call has to bring it on the grid of the reference."""
    rng = np.random.default_rng([c["seed"], 131])
    shape = SHAPES[c["seed"] % 3]
    dy, dx = [(3.4, -2.3), (-1.6, 4.7), (2.0, 3.0), (-4.3, -3.6)][int(rng.integers(4))]
    nshape = (shape[0] + 8, shape[1] - 5) if c["sizes"] == "other" else shape
    pts = images.positions(c["seed"], shape, 24, margin=14, mind=9.0)
    flux = rng.uniform(3000, 9000, len(pts))
    dr = images.render(shape, pts, flux, 1.5) + 300 + rng.normal(0, 4, shape)
    dn = images.render(nshape, pts + [dy, dx], flux * 1.4, 1.8) + 200 + rng.normal(0, 5, nshape)
    mr, mn = np.zeros(shape, bool), np.zeros(nshape, bool)
    if c["mask"]:
        mr[40:43, 50:54] = True
        mr[70, 20] = True
        mn[30:33, 62:65] = True
        mn[75, 35] = mn[58, 80] = True
    formr, formn = ["array" if c["mask"] and f == "hdu" else f for f in (c["formr"], c["formn"])]
    mr, mn = (np.asarray(want(SingleImage, d, m, False).mask) if m.any() else m for d, m in ((dr, mr), (dn, mn)))
    a, b = Input(formr, dr, mr, work, "r", c["smooth"]), Input(formn, dn, mn, work, "n", c["smooth"])
    for x in (a, b):
        if c["cutfirst"]:
            x.cut()
    out = dict(rel="align", raised="", masktype=False, refmask=False, newmask=False, outside=False, good=False, grid=False, zero=0)
    kw = dict(align=True, fitted_psf=c["fitted"], beta=False, shift=False, inf_loss=c["loss"], smooth_psf=c["smooth"])
    D, P, S, M = (np.asarray(x) for x in subtract(a.v, b.v, **kw))
    out["masktype"] = bool(M.shape == shape and M.dtype == bool)
    out["grid"] = bool(D.shape == S.shape == shape and np.all(np.isfinite(D)))
    if out["masktype"]:
        yy, xx = np.mgrid[:shape[0], :shape[1]]
        sy, sx = yy + dy, xx + dx
        H, W = nshape[0] - 1, nshape[1] - 1
        away = np.minimum(np.minimum(sy, H - sy), np.minimum(sx, W - sx))   # from the border of the new image (the constructor enlarges regions of bad pixels)
        near = np.zeros(shape, bool)
        hit = np.zeros(shape, bool)
        for y, x in np.argwhere(mn):
            near |= (abs(sy - y) < 13) & (abs(sx - x) < 13)
            hit |= (abs(sy - y) < 0.5) & (abs(sx - x) < 0.5)
        ownm = np.asarray(want(SingleImage, dr, mr, False).mask)
        far = ~ndimage.binary_dilation(ownm, np.ones((3, 3)), iterations=13)
        out.update(refmask=bool(M[mr].all()), newmask=bool(M[hit & (away > 1)].all()), outside=bool(M[away < -1.5].all()),
                   good=bool(not (M & far & ~near & (away > 13)).any()))
    st = [x.state() for x in (a, b)]
    out.update(pixels=all(s[0] for s in st), masks=all(s[1] for s in st), stamps=all(s[2] for s in st), sources=all(s[3] for s in st))
    return out


def _run(c, work):
    if c["rel"] == "align":
        return _aligned(c, work)
    cls = SingleImageGaussPSF if c["fitted"] else SingleImage
    other = "plain" if c["fitted"] else "gauss"
    if c["rel"] == "twin" and (c["formr"] == other) != (c["formn"] == other):
        c = dict(c, mask=False)  # one of the twins would be masked further
    shape = SHAPES[c["seed"] % 3]
    kw = dict(fitted_psf=c["fitted"], beta=c["beta"], shift=c["shift"], iterative=c["iterative"], inf_loss=c["loss"], smooth_psf=c["smooth"])
    (dr, mr), (dn, mn), (dx, mx) = (source(c["seed"], k, shape, c["mask"]) for k in range(3))
    rel = c["rel"]
    if rel in ("self", "twin"):
        dn, mn = dr, mr
    if rel == "sizes":
        k = c["cut"]
        dn, mn = {"row": (dn[1:], mn[1:]), "col": (dn[:, :-2], mn[:, :-2]), "turn": (dn.T.copy(), mn.T.copy()),
                  "crop": (dn[:, 5:-5][4:-4], mn[4:-4, 5:-5])}[k if shape[0] != shape[1] or k != "turn" else "row"]
        dn, mn = np.ascontiguousarray(dn), np.ascontiguousarray(mn)
    formr, formn = c["formr"], c["formn"]
    if c["mask"]:
        # forms without a way of giving a mask
        formr = "array" if formr == "hdu" else formr
        formn = "array" if formn == "hdu" else formn
        mr, mn = np.asarray(want(SingleImage, dr, mr, False).mask), np.asarray(want(SingleImage, dn, mn, False).mask)
    a = Input(formr, dr, mr, work, "r", c["smooth"])
    b = Input(formn, dn, mn, work, "n", c["smooth"])
    if rel == "self":
        b = a
    ins = [a] if b is a else [a, b]
    if c["cutfirst"]:
        for x in ins:
            x.cut()
    out = dict(rel=rel, raised="", d=CAP, p=CAP, s=CAP, zero=CAP, samemask=False, mask=False, masktype=False)
    # an object of the other class is made into a new image from its pixels and mask
    er, en = mr, mn
    if formr in ("plain", "gauss") and (formr == "gauss") != c["fitted"]:
        er = np.asarray(want(SingleImage, dr, mr, False).mask)
    if formn in ("plain", "gauss") and (formn == "gauss") != c["fitted"] and rel != "sizes":
        en = np.asarray(want(SingleImage, dn, mn, False).mask)
    if rel == "self":
        en = er
    union = None
    if rel != "sizes":
        union = np.asarray(want(SingleImage, dr, er, False).mask) | np.asarray(want(SingleImage, dn, en, False).mask)

    def good(m):
        m = np.asarray(m)
        out["masktype"] = bool(m.shape == shape and m.dtype == bool)
        out["mask"] = bool(out["masktype"] and np.array_equal(m, union))

    def fin():
        st = [x.state() for x in ins]
        out.update(pixels=all(s[0] for s in st), masks=all(s[1] for s in st), stamps=all(s[2] for s in st), sources=all(s[3] for s in st))
        return out
    out["warned"] = True
    try:
        if c.get("oldname") and rel in ("form", "again", "sizes"):
            first, out["warned"] = old_name(a.v, b.v, **kw)
        else:
            first = subtract(a.v, b.v, **kw)
    except Exception as e:
        if rel == "sizes":
            out["raised"] = type(e).__name__
            return fin()
        raise
    if rel == "sizes":
        return fin()
    D, P, S, M = (np.asarray(x) for x in first)
    good(M)
    if rel in ("self", "twin"):
        unit = np.max(np.abs(want(cls, dr, mr, False).interped)) / want(cls, dr, mr, False).var
        out["zero"] = q(np.max(np.abs(D)) / unit, 1e9)
    elif rel == "swap":
        D2, P2, S2, M2 = (np.asarray(x) for x in subtract(b.v, a.v, **kw))
        out.update(d=resid(D2, -D), p=resid(P2, P), samemask=bool(np.array_equal(M, M2)))
    else:
        key = str([er is mr, en is mn] + [c[k] for k in ("seed", "mask", "fitted", "beta", "shift", "iterative", "loss", "smooth")])
        if key not in _memo:
            _memo.clear()
            _memo[key] = [np.asarray(x) for x in subtract(want(cls, dr, er, c["smooth"]), want(cls, dn, en, c["smooth"]), **kw)]
        if rel == "again":
            first = subtract(a.v, b.v, **kw)
        elif rel == "history":
            third = Input(c["formx"], dx, mx if c["formx"] != "hdu" else mx & False, work, "x", c["smooth"])
            ins.append(third)
            for step in c["steps"]:
                u, v = (dict(r=a, n=b, x=third)[k].v for k in step[:2])
                if step[2] == "subtract":
                    subtract(u, v, fitted_psf=bool(step[3] & 1), beta=False, shift=bool(step[3] & 2), inf_loss=0.05)
                elif step[2] == "coadd":
                    objs = [x for x in (u, v) if isinstance(x, SingleImage) and not isinstance(x, SingleImageGaussPSF)]
                    if objs:
                        coadd(objs, align=False, inf_loss=0.1, n_procs=1 + step[3] % 2)
                elif step[2] == "bad":
                    try:
                        subtract(u, np.asarray(dx[:50, :60]), **kw)
                    except ValueError:
                        pass
            first = subtract(a.v, b.v, **kw)
        D, P, S, M = (np.asarray(x) for x in first)
        good(M)
        D0, P0, S0, M0 = _memo[key]
        out.update(d=resid(D, D0), p=resid(P, P0), s=resid(S, S0), samemask=bool(np.array_equal(M, M0)))
    return fin()
