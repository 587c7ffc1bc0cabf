"""Coadds and subtractions with alignment, and the aligned images themselves."""
import astroalign as aa
import numpy as np
from scipy import ndimage

from properimage import SingleImage
from properimage.operations import coadd, subtract
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import CAP, q, resid

SHAPES = [(120, 128), (126, 118), (122, 122)]
made = []
FAR = 11.0  # bad pixels are enlarged by the constructor
_init = SingleImage.__init__


def _spy(self, *a, **k):
    args = [np.ma.copy(v) if isinstance(v, np.ma.MaskedArray) else np.array(v) if isinstance(v, np.ndarray) else v for v in a]
    kws = {n: np.array(v) if isinstance(v, np.ndarray) else v for n, v in k.items()}
    _init(self, *a, **k)
    made.append((self, args, kws))


SingleImage.__init__ = _spy


class Scene:
    """Stars seen by images of known pointing."""

    def __init__(self, c):
        self.c = c
        self.shape = SHAPES[c["seed"] % 3]
        self.rng = np.random.default_rng([c["seed"], 19])
        self.pts = images.positions(c["seed"], self.shape, 22, margin=17, mind=12.5)
        self.flux = self.rng.uniform(3000, 9000, len(self.pts))
        self.sig = [1.7, 1.9, 1.6, 2.0]

    def pointing(self, k):
        c = self.c
        th = {"none": 0.0, "slight": 0.07, "quarter": np.pi / 2, "half": np.pi}[c["turn"]] * (1 if k == 1 else -1)
        off = np.array(c["off"]) / 2.0 * (1 if k == 1 else -0.5)
        if k == 0:
            th, off = 0.0, np.zeros(2)
        sh = self.shape
        if k and c["size"] == "larger":
            sh = (sh[0] + 9, sh[1] + 4)
        elif k and c["size"] == "smaller":
            sh = (sh[0] - 6, sh[1] - 11)
        return th, off, sh

    def place(self, k, p):
        """Where places of the first image's grid fall in image k."""
        th, off, sh = self.pointing(k)
        co, si = np.cos(th), np.sin(th)
        return (p - (np.array(self.shape) - 1) / 2) @ np.array([[co, si], [-si, co]]) + (np.array(sh) - 1) / 2 + off

    def image(self, k, direct=False, salt=0):
        """Pixels and bad pixels of image k; direct: as if pointed like the first."""
        th, off, sh = self.pointing(k)
        p = self.pts
        if direct:
            sh = self.shape
        else:
            p = self.place(k, p)
        r = np.random.default_rng([self.c["seed"], k, salt, 3])
        d = images.render(sh, p, self.flux * [1.0, 1.3, 0.8, 1.1][k], self.sig[k]) + [300, 250, 340, 280][k] + r.normal(0, [3, 4, 3, 5][k], sh)
        m = np.zeros(sh, bool)
        kind = self.c["first"] if k == 0 else self.c["bad"] if k == 1 else ["isolated", "none", "block"][self.c["seed"] % 3]
        if direct or kind == "none":
            return d, m
        yy, xx = np.mgrid[:sh[0], :sh[1]]
        far = np.min([np.hypot(yy - y, xx - x) for y, x in p], axis=0) > 6.5
        far[:3] = far[-3:] = far[:, :3] = far[:, -3:] = False
        if kind in ("isolated", "nan"):
            w = np.argwhere(far)
            for y, x in w[r.permutation(len(w))[:14]]:
                m[y, x] = True
        elif kind == "block":
            y, x = np.argwhere(far)[r.integers(far.sum())]
            m[max(0, y - 2):y + 3, max(0, x - 3):x + 3] = True
        elif kind == "edge":
            m[:, [0, 1]] = True
            m[40:43, -4:] = True
        d[m] = np.nan if kind == "nan" else r.choice([30000.0, -5000.0, 65535.0])
        return d, m


def centroids(im, pts):
    out = []
    for y, x in pts:
        y0, x0 = int(round(y)), int(round(x))
        s = im[y0 - 3:y0 + 4, x0 - 3:x0 + 4]
        s = s - np.min(s)
        gy, gx = np.mgrid[-3:4, -3:4]
        out.append([np.sum(gy * s) / s.sum(), np.sum(gx * s) / s.sum()])
    return np.array(out)


def likeness(sc, R, out):
    """Correlation of a coadd with the stars of the first image."""
    t = images.render(sc.shape, sc.pts, sc.flux, 2.0)
    a = ndimage.gaussian_filter(R, 1.5)
    return max(float(np.corrcoef(np.roll(a, (i, j), (0, 1))[out], t[out])[0, 1]) for i in (-1, 0, 1) for j in (-1, 0, 1))


def catalogue(o):
    return np.array([np.asarray(o.best_sources[f], float) for f in ("x", "y", "flux", "npix")])


def run(c):
    sc = Scene(c)
    fitted = c["op"] == "fitted"
    cls = SingleImageGaussPSF if (fitted or c.get("gauss")) else SingleImage
    n = c["n"]
    src = [sc.image(k) for k in range(n)]
    objs, given = [], []
    for k, (d, m) in enumerate(src):
        kind = ["bad", "first"][k == 0]
        o = cls(d.copy(), mask=None if c[kind] == "nan" and k < 2 else m.copy() if m.any() else None)
        objs.append(o)
        if c["form"] == "objects" or (c["form"] == "mixed" and k % 2 == 0):
            given.append(o)
        else:
            given.append(np.ma.MaskedArray(d.copy(), m.copy()) if m.any() else d.copy())
    pix0 = [np.ma.getdata(g.data if isinstance(g, SingleImage) else g).copy() for g in given]
    msk0 = [np.ma.getmaskarray(g.data if isinstance(g, SingleImage) else g).copy() for g in given]
    cat0 = [catalogue(o) for o in objs]
    if c["cutfirst"]:
        st0 = [[np.asarray(o.db.load(i)[0]).copy() for i in range(o.n_sources)] for o in objs]
        cat0 = [catalogue(o) for o in objs]
    # the limits of the registration itself are not the code's
    for o in objs[1:]:
        try:
            t, _ = aa.find_transform(o.data, objs[0].data)
        except aa.MaxIterError:
            return dict(error="none", shape=False, imgs=[], skip=True)
    r = dict(error="none")
    made.clear()
    lst = list(given)
    try:
        if c["op"] == "coadd":
            R, P, M = coadd(lst, align=True, inf_loss=c["loss"], n_procs=c["procs"])
        else:
            kw = dict(fitted_psf=fitted, beta=c["beta"], shift=False, iterative=False, inf_loss=c["loss"])
            R, P, S, M = subtract(given[0], given[1], align=True, **kw)
    except Exception as e:
        r["error"] = type(e).__name__ + str(e)[:80]
        return r
    mine = list(made)
    raw = sum(not isinstance(g, SingleImage) for g in given)
    sh = sc.shape
    r["shape"] = bool(np.shape(R) == sh and np.shape(M) == sh and np.shape(P) == sh)
    M = np.asarray(M)
    r["firstmask"] = bool(r["shape"] and np.all(M[np.asarray(objs[0].data.mask)]))
    made_al = mine[raw:] if len(mine) == raw + n - 1 else []
    found = [x[0] for x in made_al]
    grid = np.stack(np.mgrid[:sh[0], :sh[1]], -1).reshape(-1, 2).astype(float)
    may_all = ndimage.binary_dilation(np.asarray(objs[0].data.mask), np.ones((3, 3)))
    r["imgs"] = []
    rng = np.random.default_rng([c["seed"], 8])
    mays = []
    for k in range(1, n):
        pl = sc.place(k, grid)
        bad = np.argwhere(np.asarray(objs[k].data.mask))
        h, w = src[k][0].shape
        may = (pl[:, 0] < FAR) | (pl[:, 1] < FAR) | (pl[:, 0] > h - 1 - FAR) | (pl[:, 1] > w - 1 - FAR)
        tight = (np.minimum(pl[:, 0], h - 1 - pl[:, 0]) < 3.9) & (np.minimum(pl[:, 0], h - 1 - pl[:, 0]) > -2)
        tight |= (np.minimum(pl[:, 1], w - 1 - pl[:, 1]) < 3.9) & (np.minimum(pl[:, 1], w - 1 - pl[:, 1]) > -2)
        nb, close = np.zeros(len(pl), bool), np.zeros(len(pl), bool)
        for b in bad:
            nb |= (np.abs(pl - b) < FAR).all(1)
            close |= (np.abs(pl - b) < 3).all(1)
        pick = np.flatnonzero(close)[rng.permutation(int(close.sum()))[:300]]
        te = np.flatnonzero(tight)[rng.permutation(int(tight.sum()))[:200]]
        other = rng.permutation(len(pl))[:220]
        pr = np.unique(np.concatenate([pick, te, other]))
        may = (may | nb).reshape(sh)
        mays.append(may)
        may_all |= may
        o = dict(seen=False, shape=r["shape"], h=h, w=w, bad=bad.tolist())
        am = np.zeros(sh, bool)
        if found:
            al = found[k - 1]
            o["seen"] = True
            o["shape"] = bool(al.data.shape == sh and r["shape"])
            if o["shape"]:
                ad, am = np.asarray(al.data.data), np.ma.getmaskarray(al.data)
                o["finite"] = bool(np.all(np.isfinite(ad[~am])))
                keep = np.array([not may[int(y) - 4:int(y) + 6, int(x) - 4:int(x) + 6].any() for y, x in sc.pts])
                ok = sc.pts[keep]
                want = images.render(sh, ok, sc.flux[keep] * [1.0, 1.3, 0.8, 1.1][k], sc.sig[k])
                o["stars"] = q(np.abs(centroids(ad, ok) - centroids(want, ok)).max(), 1e3) if len(ok) and not np.isnan(ad[~may]).any() else 0 if not len(ok) else CAP
                sd = np.where(np.asarray(objs[k].data.mask), np.median(src[k][0][~np.asarray(objs[k].data.mask)]), src[k][0])
                exp = ndimage.map_coordinates(sd, pl.T, order=3, mode="nearest").reshape(sh)
                gm = ~may
                o["pixels"] = q(np.abs(ad - exp)[gm].max() / np.ptp(exp[gm]), 1e3)
        o["probes"] = [[int(round(float(np.clip(pl[i, 0], -900, 9000)) * 1000)), int(round(float(np.clip(pl[i, 1], -900, 9000)) * 1000)), int(am.flat[i]) if found else -1,
                        int(bool(M.flat[i])) if r["shape"] else -1] for i in pr]
        r["imgs"].append(o)
    cl = np.flatnonzero(~may_all)
    r["clean"] = [int(bool(M.flat[i])) for i in cl[rng.permutation(len(cl))[:400]]] if r["shape"] else []
    # what was combined is what was aligned
    r["same"], r["sky"], r["skytol"] = 0, 0, 0
    if r["shape"]:
        ref2 = cls(src[0][0].copy(), mask=None if c["first"] == "nan" else src[0][1].copy() if src[0][1].any() else None) if c["op"] != "coadd" or isinstance(given[0], cls) else \
            SingleImage(given[0])
        if found and all(o["shape"] for o in r["imgs"]):
            copies = [type(o)(*a, **k) for o, a, k in made_al]
            if c["op"] == "coadd":
                R2 = coadd([ref2] + copies, align=False, inf_loss=c["loss"], n_procs=c["procs"])[0]
            else:
                R2 = subtract(ref2, copies[0], align=False, **kw)[0]
            r["same"] = resid(np.asarray(R), np.asarray(R2))
        # without sight of the aligned images, judge the sky of the result
        if found:
            out = np.zeros(sh, bool)
        else:
            out = ~ndimage.binary_dilation(M, iterations=8)
        out[:10] = out[-10:] = out[:, :10] = out[:, -10:] = False
        direct = [] if not out.any() else [type(objs[0])(sc.image(k, direct=True)[0]) for k in range(n)]
        if not out.any():
            pass
        elif c["op"] == "coadd":
            R3 = np.asarray(coadd(direct, align=False, inf_loss=c["loss"], n_procs=1)[0]).real
            # several components of a constant PSF leave mostly noise
            l0 = likeness(sc, R3, out)
            if l0 > 0.7:
                r["sky"] = q(max(0.0, 1 - likeness(sc, np.asarray(R).real, out) / l0), 1e3)
            r["skytol"] = 700
        else:
            D3 = np.asarray(subtract(direct[0], direct[1], align=False, **kw)[0]).real
            a, b = np.asarray(R).real[out], D3[out]
            # star remnants, in noise of the difference image
            r["sky"] = q(np.percentile(np.abs(a - np.median(a)), 99.8) / np.percentile(np.abs(b - np.median(b)), 99.8), 1e3)
            r["skytol"] = 20000
    r["pixels"] = all(np.array_equal(np.ma.getdata(g.data if isinstance(g, SingleImage) else g), p, equal_nan=True) for g, p in zip(given, pix0))
    r["masks"] = all(np.array_equal(np.ma.getmaskarray(g.data if isinstance(g, SingleImage) else g), m) for g, m in zip(given, msk0))
    r["masks"] = bool(r["masks"] and all(np.array_equal(o.mask, o.data.mask) for o in objs))
    r["list"] = bool(len(lst) == n and all(a is b for a, b in zip(lst, given)))
    cats = all(np.array_equal(catalogue(o), x) for o, x in list(zip(objs, cat0))[1:])
    if c["cutfirst"]:
        cats = cats and all(o.n_sources == len(s) and all(np.array_equal(np.asarray(o.db.load(i)[0]), a) for i, a in enumerate(s)) for o, s in zip(objs, st0))
    r["cats"] = bool(cats)
    return r
