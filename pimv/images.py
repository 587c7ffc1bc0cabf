"""Synthetic star fields, rendered without the code under test."""
import numpy as np


def positions(seed, shape, n, margin=14, mind=9.0):
    """Irregular star positions, at least mind apart (row, col)."""
    rng = np.random.default_rng([seed, 77])
    pts = []
    for _ in range(200 * n):
        p = np.array([rng.uniform(margin, shape[0] - 1 - margin), rng.uniform(margin, shape[1] - 1 - margin)])
        if all(np.hypot(*(p - q)) >= mind for q in pts):
            pts.append(p)
            if len(pts) == n:
                break
    return np.array(pts)


def render(shape, pts, flux, sig=1.8, var=0.0, ang=0.0):
    """Sum of gaussians; var makes the widths change over the field."""
    im = np.zeros(shape)
    for (y, x), f in zip(pts, flux):
        sy = sig * (1 + var * y / shape[0])
        sx = sig * (1 + var * x / shape[1])
        r = int(6 * max(sy, sx)) + 2
        y0, y1 = max(0, int(y) - r), min(shape[0], int(y) + r + 1)
        x0, x1 = max(0, int(x) - r), min(shape[1], int(x) + r + 1)
        if y0 >= y1 or x0 >= x1:
            continue
        yy, xx = np.mgrid[y0:y1, x0:x1]
        g = np.exp(-0.5 * ((yy - y) / sy) ** 2 - 0.5 * ((xx - x) / sx) ** 2)
        im[y0:y1, x0:x1] += f * g / (2 * np.pi * sy * sx)
    return im


def field(seed=1, shape=(128, 128), n=24, sig=1.8, var=0.0, noise=4.0, bg=300.0, scale=1.0, noise_seed=None,
          lo=2500.0, hi=9000.0, margin=14, mind=9.0, shift=(0, 0), theta=0.0):
    rng = np.random.default_rng([seed, 5])
    pts = positions(seed, shape, n, margin, mind)
    flux = rng.uniform(lo, hi, len(pts)) * scale
    c = (np.array(shape) - 1) / 2.0
    co, si = np.cos(theta), np.sin(theta)
    p2 = (pts - c) @ np.array([[co, si], [-si, co]]) + c + np.array(shift)
    nrng = np.random.default_rng([seed if noise_seed is None else noise_seed, 9])
    return render(shape, p2, flux, sig, var) + bg + nrng.normal(0, noise, shape)


LAYOUTS = ["C", "F", "T", "view", "swapped", "back"]


def laid(a, how):
    """The same pixels in another memory layout or byte order."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "T":
        return np.ascontiguousarray(a.T).T
    if how == "view":
        big = np.zeros((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        big[::2, 1::3] = a
        return big[::2, 1::3]
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder())
    if how == "back":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a.copy()
