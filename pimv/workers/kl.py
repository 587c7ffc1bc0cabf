"""PSF bases of images: counts, components, coefficient fields, PSF anywhere."""
import numpy as np
from scipy import ndimage

from astropy.convolution import convolve_fft

from properimage import SingleImage
from pimv import images
from pimv.obs import q, resid

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int)]


class Injected(SingleImage):
    """An image whose eigenvalues are prescribed."""

    vals = None

    @property
    def eigenv(self):
        if self.vals is None:
            return super().eigenv
        n = len(self.vals)
        rng = np.random.default_rng(n)
        v, _ = np.linalg.qr(rng.normal(size=(n, n)))
        return np.array(self.vals[::-1], float), v


def stamps(im):
    return np.stack([np.asarray(im.db.load(i)[0]) for i in range(im.n_sources)])


def poly3(x, y):
    return np.stack([x**i * y**j for i in range(4) for j in range(4 - i)], axis=-1)


def look(im, m, shape, vec, gaps, smooth, lossunits, deep, rng):
    """Observe the basis the image has now."""
    n_st = m.shape[1]
    basis = list(im.kl_basis)
    fields = im.kl_afields
    n = len(basis)
    nf = 0 if fields is None or fields[0] is None else len(fields)
    va, vb = im.get_variable_psf()
    out = dict(n=n, nfields=nf, nvar=len(vb), loss=lossunits, comp=[], fld=[], cubic=[], at=[],
               kept=int(round(im.inf_loss * 1e9)) if abs(im.inf_loss) < 2 else -2)
    out["upright"] = bool(np.sum(basis[0]) > 0) or not gaps[0]
    if n == 1:
        out["sum1"] = q(np.sum(basis[0]) - 1, 1e9)
    pos = np.asarray(im.stamps_pos)
    exp_c, exp_f = [], []
    for k in range(n):
        w = vec[:, k] if k < vec.shape[1] else np.full(n_st, np.nan)
        e = (m @ w).reshape(shape)
        if smooth:
            e = ndimage.gaussian_filter(e, 1.5, mode="nearest", truncate=4.0)
            e = e / np.sum(e)
        o = np.asarray(basis[k], float)
        if n == 1 and not smooth:
            e = e / np.sum(e)
        if o.shape != e.shape:
            out["comp"].append(10**9)
            continue
        s = 1.0
        if gaps[k]:
            s = np.sign(np.sum(o * e)) if not smooth else 1.0
            out["comp"].append(resid(o, s * e))
        if nf and k < nf and n > 1:
            f = fields[k]
            out["cubic"].append(len(f.parameters))
            exp_f.append(f)
            if gaps[k] and n_st >= 14:
                sc = np.array(im.data.shape, float)
                A = poly3(pos[:, 0] / sc[0], pos[:, 1] / sc[1])
                c, *_ = np.linalg.lstsq(A, w, rcond=None)
                fo = f(pos[:, 0], pos[:, 1])
                ss = s
                if smooth:  # the sign is lost in the normalisation
                    ss = np.sign(np.sum(fo * (A @ c)))
                g = np.array([rng.uniform(0, 1, 25), rng.uniform(0, 1, 25)])
                ex = poly3(g[0], g[1]) @ c
                ob = f(g[0] * sc[0], g[1] * sc[1])
                out["fld"].append(max(resid(fo, ss * (A @ c)), resid(ob, ss * ex)))
    if deep:
        yy, xx = np.mgrid[0:im.data.shape[0], 0:im.data.shape[1]]
        if nf == 0:
            nrm = convolve_fft(np.ones(im.data.shape), basis[0])
        else:
            nrm = sum(ndimage.convolve(f(yy, xx), b) for f, b in zip(fields, basis))
        out["norm"] = resid(im.normal_image, nrm)
        h, w = im.data.shape
        pts = [(0, 0), (h - 1, w - 1), (0, w - 1), (h - 1, 0), (h / 2, 1), (h / 3, w / 2.5), (h - 2.4, w / 2)]
        pts += [(rng.uniform(0, h - 1), rng.uniform(0, w - 1)) for _ in range(3)]
        sy, sx = basis[0].shape
        for y, x in pts:
            p = np.asarray(im.get_psf_xy(y, x))
            r = dict(sum=q(np.sum(p) - 1, 1e9), shape=bool(p.shape == (sy, sx)), res=0)
            if nf and r["shape"]:
                y0 = max(min(int(np.round(y)) - (sy - 1) // 2, h - sy), 0)
                x0 = max(min(int(np.round(x)) - (sx - 1) // 2, w - sx), 0)
                win = np.mgrid[y0:y0 + sy, x0:x0 + sx]
                e = sum(b * f(*win) / nrm[y0:y0 + sy, x0:x0 + sx] for b, f in zip(basis, fields))
                tot, size = np.sum(e), np.sum(np.abs(e))
                if abs(tot) > 1e-4 * size:  # otherwise the normalisation is ill-defined
                    r["res"] = resid(p, e / tot)
                else:
                    r["sum"] = min(r["sum"], 10**6) if np.isfinite(np.sum(p)) and abs(np.sum(p) - 1) < 1e-3 else r["sum"]
                    r["sum"] = 0 if r["sum"] <= 10**6 else r["sum"]
            elif r["shape"]:
                r["res"] = resid(p, basis[0] / np.sum(basis[0]))
            out["at"].append(r)
    return out


def run(c):
    rng = np.random.default_rng(c["iseed"])
    if c["kind"] == "inject":
        vals = c["p"]
        n = len(vals)
        a = images.field(c["iseed"], (64, 64), 8, noise=3, margin=9)
        im = Injected(a, stamp_shape=(5, 5))
        pts = np.array([(14 + 7 * i, 50 - 6 * i) for i in range(n)], float)
        cat = np.zeros(n, CAT)
        cat["y"], cat["x"] = pts.T
        im.update_sources(cat)
        im.vals = vals
        losses = [(c["loss2"] / 2 / sum(vals))]
        m = stamps(im).reshape(n, -1).T
        _, vec = im.eigenv
        vec = vec[:, ::-1]
        power = np.array(vals, float) / sum(vals)
        gaps = [False] * n  # weights are not the stamps' own here
        smooth = False
    else:
        im0 = images.field(c["iseed"], tuple(c["shape"]), c["n"], var=c["var"], sig=c["sig"], noise=c["noise"], mind=c.get("mind", 9))
        kw = dict(smooth_psf=c["smooth"])
        if c["strict"]:
            kw["strict_star_pick"] = True
        if c.get("many"):
            kw["stamp_shape"] = (5, 5)
        im = SingleImage(im0, **kw)
        if c.get("many"):
            b = im.best_sources
            idx = rng.integers(0, len(b), c["many"])
            cat = np.zeros(c["many"], CAT)
            cat["y"] = b["y"][idx] + rng.uniform(-3, 3, c["many"])
            cat["x"] = b["x"][idx] + rng.uniform(-3, 3, c["many"])
            im.update_sources(cat)
        n = im.n_sources
        m = stamps(im).reshape(n, -1).T
        cov = np.cov(m, rowvar=False) if n <= 250 else m.T @ m
        cov = np.atleast_2d(cov)
        val, vec = np.linalg.eigh(cov)
        order = np.argsort(-np.abs(val), kind="stable")
        val, vec = np.abs(val[order]), vec[:, order]
        power = val / val.sum()
        near = np.full(n, np.inf)
        near[:-1] = np.minimum(near[:-1], power[:-1] - power[1:])
        near[1:] = np.minimum(near[1:], power[:-1] - power[1:])
        gaps = [bool(g > 1e-5) for g in near]
        losses = c["losses"]
        smooth = c["smooth"]
    shape = tuple(im.stamp_shape)
    cuts = []
    for k, lo in enumerate(losses):
        if c.get("via") == "call" and k % 2:
            im.get_variable_psf(inf_loss=lo)
        else:
            im.inf_loss = lo
        deep = c["kind"] != "inject" and k in (0, len(losses) // 2) and not c.get("many")
        units = int(round(lo * 1e9)) if abs(lo) < 2 else -2
        cuts.append(look(im, m, shape, vec, gaps, smooth, units, deep, rng))
    im._clean()
    return dict(kind=c["kind"], exact=c["kind"] == "inject", power=[int(round(x * 1e9)) for x in power], nstars=n, cuts=cuts)
