"""Star selection: which candidates become stamps, and what the stamps hold."""
import numpy as np
from astropy.nddata.utils import extract_array
from astropy.stats import sigma_clipped_stats
from scipy import ndimage

from properimage import SingleImage
from pimv import images
from pimv.obs import CAP, q, resid

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int), ("tag", int)]
SHAPES = {0: None, 5: (5, 5), 9: (9, 9), 711: (7, 11), 1107: (11, 7), 10: (10, 10)}


class Cleaned(SingleImage):
    """An image whose cleaned pixels are prescribed."""

    pixels = None

    @property
    def interped(self):
        return super().interped if self.pixels is None else self.pixels


def stamp_of(interped, shape, p, fill):
    cut = extract_array(interped, shape, p, mode="partial", fill_value=fill)
    e = cut + np.abs(np.min(cut))
    e = e - np.median(e[e < np.percentile(np.abs(e), q=70)])
    return e / np.sum(e)


def peaks(s, thr):
    mean, _, std = sigma_clipped_stats(s, maxiters=3)
    lab, n = ndimage.label((s - mean) / std > thr)
    return n, (ndimage.center_of_mass(s, lab, 1) if n else None)


def measure(s):
    h, w = s.shape
    c = np.array([h, w]) / 2.0
    flat = np.sort(s.ravel())
    pk = np.array(np.unravel_index(np.argmax(s), s.shape))
    d = np.hypot(*(pk - c)) / h
    if flat[-1] - flat[-2] < 1e-9 * abs(flat[-1]):  # tied brightest pixels: not decidable
        d = 0.2
    lo, hi = peaks(s, 3.4999), peaks(s, 3.5001)
    sig = np.hypot(*(np.array(hi[1]) - c)) / h if hi[0] else 0.0
    return dict(peak=q(d, 1e6), sd=q(np.std(s), 1e6), top=q(max(s.max(), 0), 1e6), nmaxlo=int(lo[0]), nmaxhi=int(hi[0]),
                sig=q(sig, 1e6))


def scene(seed, ngood, nbad, bad, shape):
    """A field with well separated stars and spoiled candidates."""
    rng = np.random.default_rng(seed)
    side = 150 if ngood + nbad <= 22 else 190
    n = ngood + nbad
    pts = images.positions(seed, (side, side), n, margin=11, mind=19 if n <= 22 else 18)
    n = len(pts)
    ngood = min(ngood, n)
    kinds = ["good"] * ngood + [["offset", "noise", "pair", "edge", "sharp", "dark"][i % 6] if bad == "mix" else bad for i in range(n - ngood)]
    stars, flux, cat, spots = [], [], [], []
    for p, k in zip(pts, kinds):
        f = rng.uniform(3000, 9000)
        if k == "good":
            stars.append(p); flux.append(f); cat.append(p + rng.uniform(-.4, .4, 2))
        elif k == "offset":
            stars.append(p); flux.append(f)
            a = rng.uniform(0, 2 * np.pi)
            cat.append(p + rng.uniform(0.5, 5) * np.array([np.sin(a), np.cos(a)]))
        elif k == "noise":
            cat.append(p)
        elif k == "pair":
            a = rng.uniform(0, 2 * np.pi)
            stars += [p, p + rng.uniform(3.5, 6) * np.array([np.sin(a), np.cos(a)])]
            flux += [f, f * rng.uniform(.3, .9)]
            cat.append(p)
        elif k in ("sharp", "dark"):
            spots.append((k, np.round(p)))
            cat.append(np.round(p))
        else:
            e = np.array([rng.choice([1.3, side - 2.6]), rng.uniform(15, side - 15)])
            e = e if rng.random() < .5 else e[::-1]
            stars.append(e); flux.append(f); cat.append(e)
    a = images.render((side, side), stars, flux, 1.4) + 300 + rng.normal(0, 4, (side, side))
    pix = None
    if spots:
        pix = a - 300
        yy, xx = np.mgrid[0:side, 0:side]
        for k, p in spots:
            r2 = (yy - p[0]) ** 2 + (xx - p[1]) ** 2
            near = r2 < 100
            if k == "sharp":
                pix = pix + np.where(near, 20000 * np.exp(-0.5 * r2 / rng.uniform(0.3, 0.75) ** 2), 0)
            else:
                core, ring = r2 <= 4, (r2 > 9) & (r2 <= 20)
                depth = rng.uniform(0.70, 0.995) * core.sum() / ring.sum()
                pix = pix + 8000 * (core * (1 - 0.03 * r2) - ring * depth)
    if seed % 3 == 0 and pix is None:
        a[60:63, 20:24] = np.nan
    order = rng.permutation(n)
    return a, np.array(cat)[order], pix


def run(c):
    a, pts, pix = scene(c["iseed"], c["ngood"], c["nbad"], c["bad"], c["shape"])
    im = Cleaned(a, strict_star_pick=c["strict"], stamp_shape=SHAPES[c["shape"]])
    im.pixels = pix
    before = np.array(im.interped, copy=True)
    cat = np.zeros(len(pts), CAT)
    cat["y"], cat["x"] = pts.T
    cat["tag"] = np.arange(1, len(pts) + 1)
    cat["npix"] = 20
    cat["flux"] = 1000.0
    shape0 = tuple(im.stamp_shape)
    im.update_sources(cat.copy())
    if c["first"] == "n":
        im.n_sources
    elif c["first"] == "cov" and c["ngood"] > 3:
        im.cov_matrix
    elif c["first"] == "cat":
        im.best_sources
    pos = np.asarray(im.stamps_pos).reshape(-1, 2)
    picked = []
    for p in pos:
        m = np.flatnonzero((pts[:, 0] == p[0]) & (pts[:, 1] == p[1]))
        picked.append(int(m[0]) + 1 if len(m) == 1 else 0)

    def store():
        out = []
        while True:
            try:
                s = im.db.load(len(out))[0]
            except LookupError:
                return out
            if s is None:
                return out
            out.append(np.asarray(s))
    st = store()
    full = (shape0[0] + 6, shape0[1] + 6)
    rms = im.var
    interped = np.asarray(im.interped)
    ref = before
    exp = [stamp_of(ref, full, p, rms) for p in pts]
    stampres = [resid(s, exp[i - 1]) if i else CAP for s, i in zip(st, picked)]
    rec = dict(strict=c["strict"], cands=[measure(e) for e in exp], picked=picked, n=int(im.n_sources), nstore=len(st),
               stampres=stampres, stampsum=[q(np.sum(s) - 1, 1e9) for s in st],
               shapeok=bool(tuple(im.stamp_shape) == full and all(s.shape == full for s in st)),
               untouched=bool(np.array_equal(interped, before)))
    rec["cat"] = [int(t) for t in im.best_sources["tag"]]
    # read again, asking for another shape: nothing may change any more
    im._shape = None
    if len(pos) > 3:
        im.get_variable_psf(shape=(7, 7))
    pos2 = np.asarray(im.stamps_pos).reshape(-1, 2)
    st2 = store()
    rec["again"] = bool(np.array_equal(pos, pos2) and len(st) == len(st2) and all(np.array_equal(u, v) for u, v in zip(st, st2))
                        and im.n_sources == rec["n"] and tuple(im.stamp_shape) == full)
    im._clean()
    return rec
