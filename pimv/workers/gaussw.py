"""The Gaussian PSF of an image: its stars scripted, or drawn on the sky."""
import numpy as np

from properimage import utils
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import CAP, HarnessError, q, resid


def split(t):
    """widths and direction of a width tensor"""
    xx, yy, xy = t
    w, v = np.linalg.eigh([[xx, xy], [xy, yy]])
    return w[1], w[0], np.arctan2(v[1, 1], v[0, 1])


def join(sx, sy, th):
    c, s = np.cos(th), np.sin(th)
    return np.array([sx * c * c + sy * s * s, sx * s * s + sy * c * c, (sx - sy) * s * c])


def star(shape, t, amp=1.0, off=0.0, at=None):
    """A Gaussian of width tensor t."""
    y, x = np.mgrid[: shape[0], : shape[1]]
    y0, x0 = at if at is not None else ((shape[0] - 1) / 2.0, (shape[1] - 1) / 2.0)
    s = np.array([[t[0], t[2]], [t[2], t[1]]])
    i = np.linalg.inv(s @ s)
    u, v = x - x0, y - y0
    return off + amp * np.exp(-0.5 * (i[0, 0] * u * u + 2 * i[0, 1] * u * v + i[1, 1] * v * v))


class Played:
    """The store of stamps, its contents prescribed."""

    def __init__(self, db, stamps):
        self._db, self._stamps = db, stamps

    def load(self, i):
        r = list(self._db.load(i))
        r[0] = self._stamps[int(i)].copy()
        return r

    def __getattr__(self, k):
        return getattr(self._db, k)


def model_of(basis):
    m = [b for b in basis if hasattr(b, "x_stddev")]
    if not m:
        raise HarnessError("no model among the PSF's elements")
    return np.array([float(getattr(m[0], k).value) for k in ("x_stddev", "y_stddev", "theta")])


def look(im, rec, loss):
    before = np.asarray(im.data.filled(-1)).copy(), np.asarray(im.mask).copy()
    fields, basis = im.get_variable_psf() if loss is None else im.get_variable_psf(loss)
    img = np.asarray(basis[0])
    # shape read from the rendered PSF itself: moments of log pixels
    rec["single"] = bool(len(fields) == 1 and fields[0] is None and img.ndim == 2)
    h, w = img.shape
    y, x = np.mgrid[:h, :w] - np.array([h // 2, w // 2])[:, None, None]
    ok = img > 1e-3 * img.max()
    p = np.linalg.lstsq(np.stack([x * x, y * y, 2 * x * y, x, y, np.ones_like(x)], -1)[ok], -2 * np.log(img[ok]), rcond=None)[0]
    rec["centred"] = bool(h % 2 and w % 2 and np.unravel_index(np.argmax(img), img.shape) == (h // 2, w // 2) and abs(img.max() - 1) < 1e-9
                          and max(abs(p[3:])) < 1e-6)
    prec = np.linalg.inv([[p[0], p[2]], [p[2], p[1]]])
    ev, vec = np.linalg.eigh(prec)
    root = vec @ np.diag(np.sqrt(np.maximum(ev, 0))) @ vec.T
    t = np.array([root[0, 0], root[1, 1], root[0, 1]])
    rec["render"] = resid(img, star(img.shape, t))
    # the element describing the same Gaussian, where there is one
    if len(basis) > 1 and any(hasattr(b, "x_stddev") for b in basis):
        rec["render"] = max(rec["render"], q(np.max(np.abs(join(*model_of(basis)) - t)), 1e9))
    # nothing of the star is cut off: pixels at the rim are dark
    rim = max(img[0].max(), img[-1].max(), img[:, 0].max(), img[:, -1].max())
    rec["centred"] = bool(rec["centred"] and rim < 1e-4)
    f2, b2 = im.get_variable_psf()
    rec["again"] = bool(len(f2) == 1 and np.array_equal(np.asarray(b2[0]), img))
    rec["untouched"] = bool(np.array_equal(before[0], np.asarray(im.data.filled(-1))) and np.array_equal(before[1], np.asarray(im.mask)))
    return t


_im = {}


def run(c):
    rng = np.random.default_rng(c["seed"])
    rec = dict(kind=c["kind"])
    if c["kind"] == "fit":
        t = np.array(c["tensor"]) / 100.0
        sh = tuple(c["shape"])
        at = np.array(sh) / 2.0 + rng.uniform(-2, 2, 2)
        amp = 10.0 ** rng.uniform(-3, 5)
        off = amp * c["offset"]
        a = star(sh, t, amp, off, at)
        keep = a.copy()
        p = utils.fit_gaussian2d(images.laid(a, images.LAYOUTS[c["seed"] % 4]))
        g, k = p[0], p[1]
        e = np.abs(join(g.x_stddev.value, g.y_stddev.value, g.theta.value) - t).max()
        e = max(e, abs(g.x_mean.value - at[1]), abs(g.y_mean.value - at[0]), abs(g.amplitude.value / amp - 1), abs(k.amplitude.value - off) / amp)
        rec.update(fit=q(e, 1e6) if np.isfinite(e) else CAP, untouched=bool(np.array_equal(a, keep)))
        return rec
    if c["kind"] == "played":
        key = c["seed"] % 4
        if key not in _im:
            _im.clear()
            _im[key] = images.field(key + 3, (200, 190), [22, 26, 30, 34][key], sig=1.7, noise=3, mind=16), key
        with SingleImageGaussPSF(_im[key][0], smooth_psf=bool(c["seed"] % 2)) as im:
            n = im.n_sources
            if not 4 <= n <= 24:
                raise HarnessError(f"{n} stars")
            cols = [[c["base"][k]] * n for k in ("xx", "yy", "xy")]
            for i in rng.permutation(n)[: c["many"]]:
                for k, name in enumerate(("xx", "yy", "xy")):
                    cols[k][i] = c["stray"][name]
            for k in range(3):
                cols[k] = [int(v) + int(d) for v, d in zip(cols[k], rng.integers(-5, 6, n))]
            sh = [(33, 33), (31, 35), (36, 30)][c["seed"] % 3]
            stamps = [star(sh, np.array([cols[k][i] for k in range(3)]) / 100.0, rng.uniform(.01, .05), rng.uniform(-.001, .001),
                           np.array(sh) / 2.0 + rng.uniform(-1, 1, 2)) for i in range(n)]
            im.db = Played(im.db, stamps)
            t = look(im, rec, [None, 0.1, 0.6][c["seed"] % 3])
            rec["stars"] = cols
            rec["seen"] = [int(round(1e4 * v)) if np.isfinite(v) else 10**8 for v in t]
        return rec
    t = np.array(c["tensor"]) / 100.0
    sh = (180, 176)
    a = rng.normal(200, c["noise"], sh)
    pts = images.positions(c["seed"], sh, c["n"], margin=16, mind=22)
    for y, x in pts:
        iy, ix = int(y), int(x)
        y0, x0 = max(0, iy - 16), max(0, ix - 16)
        y1, x1 = min(sh[0], iy + 17), min(sh[1], ix + 17)
        a[y0:y1, x0:x1] += star((y1 - y0, x1 - x0), t, rng.uniform(2000, 6000), 0, (y - y0, x - x0))
    with SingleImageGaussPSF(images.laid(a, images.LAYOUTS[c["seed"] % 6]), smooth_psf=bool(c["seed"] % 2)) as im:
        if c["early"] == "data":
            im.s_component if hasattr(im, "kl_basis") else None
        got = look(im, rec, None)
        rec["stars"] = int(im.n_sources)
    rec["off"] = q(np.max(np.abs(got - t)) / t[:2].max(), 1e4)
    rec["tolerance"] = 500
    rec["note"] = " ".join(f"{v:.3f}" for v in (*got, *t))
    return rec
