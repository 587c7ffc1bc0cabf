COMMON = '''
import warnings
warnings.filterwarnings("ignore")
import logging
logging.disable(logging.CRITICAL)
import numpy as np


def field(seed=1, shape=(96, 104), n=26, sig=1.5, noise=4.0, bg=300.0, margin=12, mind=9.0, flux=(3000, 9000), off=(0, 0), var=0.0, scale=1.0, pos=None):
    """Stars on a noisy sky."""
    r = np.random.default_rng(seed)
    pts = [] if pos is None else list(pos)
    while pos is None and len(pts) < n:
        p = r.uniform(margin, np.array(shape) - margin)
        if all(np.hypot(*(p - q)) > mind for q in pts):
            pts.append(p)
    f = r.uniform(*flux, len(pts)) * scale
    y, x = np.mgrid[:shape[0], :shape[1]]
    d = np.full(shape, bg)
    for (py, px), a in zip(pts, f):
        s = sig * (1 + var * px / shape[1])
        d += a / (2 * np.pi * s * s) * np.exp(-0.5 * ((y - py - off[0]) ** 2 + (x - px - off[1]) ** 2) / s**2)
    return d + np.random.default_rng(seed + 1000 + int(sig * 100)).normal(0, noise, shape)


'''
