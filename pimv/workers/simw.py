"""Simulated images, kernels and point fields."""
import importlib

import numpy as np

from properimage import simtools
from pimv.obs import CAP, q, resid

NOSEED = 99


def call(what, par, seed):
    """One simulation call."""
    kw = {} if seed == NOSEED else dict(seed=[seed, np.int64(seed)][par % 2])
    if what == "frame":
        return np.array(simtools.sim_varpsf(12 + 4 * par, SN=20.0 + par, N=64, **kw))
    m = np.zeros((40, 40))
    m[12 + par, 20] = 500.0
    m[25, 11] = 900.0
    return np.array(simtools.image(m, 40, 1, 3.0 + par, 8.0, bkg_pdf=what, **kw))


def history(c):
    ids = {}

    def num(a):
        return ids.setdefault((a.shape, a.tobytes()), len(ids) + 1)
    importlib.reload(simtools)
    steps = [dict(what=w, seed=s, par=p, res=num(call(w, p, s))) for w, s, p in c["hist"]]
    # without the seeded calls
    importlib.reload(simtools)
    for s in steps:
        if s["seed"] == NOSEED:
            s["fresh"] = num(call(s["what"], s["par"], NOSEED))
    for s in steps:
        if s["seed"] != NOSEED:
            importlib.reload(simtools)
            s["fresh"] = num(call(s["what"], s["par"], s["seed"]))
    m = np.zeros((40, 40))
    m[20, 20] = 100.0
    k = m.copy()
    simtools.image(m, 40, 1, 3.0, 5.0, seed=4)
    return dict(kind="history", steps=steps, untouched=bool(np.array_equal(m, k)))


def points(c):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    if c["form"] == "centre":
        g = np.asarray(simtools.delta_point(n))
        pts = [[n // 2, n // 2, 1000]]
    else:
        k = c["k"]
        frac = rng.uniform(0, 0.99, (k, 2)) if c["float"] else np.zeros((k, 2))
        pos = rng.integers(0, n, (k, 2))
        wts = rng.integers(1, 5000, k)
        w = None if c["weights"] == "none" else wts / 8.0
        pts = [[int(a), int(b), 1000 if w is None else int(wts[i]) * 125] for i, (a, b) in enumerate(pos)]
        xy = pos + frac
        arg = {"zip": lambda: zip(xy[:, 0], xy[:, 1]), "list": lambda: [tuple(p) for p in xy], "array": lambda: xy, "gen": lambda: (p for p in xy)}[c["form"]]()
        wa = {"none": None, "list": None if w is None else list(w), "array": w, "iter": None if w is None else iter(w)}[c["weights"]]
        g = np.asarray(simtools.delta_point(n, center=False, xy=arg, weights=wa))
    sq = g.shape == (n, n)
    return dict(kind="points", n=n, pts=pts, square=bool(sq), grid=np.clip(np.round(g * 1000), -CAP, CAP).astype(int).tolist() if sq else [])


def product(c):
    rng = np.random.default_rng(c["seed"])
    arrays, vals = [], []
    for n, t in zip(c["sizes"], c["types"]):
        v = rng.permutation(20)[:n] + 0.0
        if t == "half":
            v = v + 0.5
        a = v.astype(int) if t in ("int", "list") else v
        vals.append([int(round(x * 2)) for x in v])
        arrays.append(a.tolist() if t == "list" else a)
    out = simtools.cartesian_product(arrays)
    return dict(kind="product", arrays=vals, out=[[int(round(float(x) * 2)) for x in r] for r in np.asarray(out)])


def moments(a):
    a = a / a.sum()
    y, x = np.mgrid[:a.shape[0], :a.shape[1]]
    cy, cx = (a * y).sum(), (a * x).sum()
    return cy, cx, (a * (y - cy) ** 2).sum(), (a * (x - cx) ** 2).sum(), (a * (y - cy) * (x - cx)).sum()


def kernel(c):
    n, fn = c["n"], c["fn"]
    th = 0
    if fn == "psf":
        fy, fx, th = c["w"], c["w2"] or c["w"], c["theta"]
        a = simtools.Psf(n if c["seed"] % 2 else float(n), c["w"], *([c["w2"]] if c["w2"] else []), **(dict(theta=th) if th else {}))
    elif fn == "astropy":
        fy = fx = c["w"]
        a = simtools.astropy_Psf(n, c["w"])
    elif fn == "airy":
        a = simtools.airy_patron(n, c["w"])
    elif fn == "sersic":
        a = simtools.gal_sersic(n, c["w"])
    elif fn == "convolve":
        return convolve(c)
    else:
        return noise(c)
    a = np.asarray(a)
    ok = dict(finite=bool(np.all(np.isfinite(a))))
    r = dict(kind="kernel", ok=ok, sum=0, mirror=0, centre=0, wy=0, wx=0, slack=1000, wtol=30000)
    if not ok["finite"]:
        return r
    mid = (np.array(a.shape) - 1) / 2.0
    if th == 0:
        ok["size"] = a.shape == (n, n)
        ok["not_negative"] = bool(np.all(a >= 0))
        r["mirror"] = max(resid(a[::-1], a), resid(a[:, ::-1], a))
        c0 = a[int(mid[0]), int(mid[1])]
        ok["peak"] = bool(c0 >= a.max() * (1 - 1e-12))
    cy, cx, vy, vx, vxy = moments(a)
    r["centre"] = q(max(abs(cy - mid[0]), abs(cx - mid[1])), 1e9)
    if fn in ("psf", "astropy"):
        r["sum"] = q(a.sum() - 1, 1e9)
        sy, sx = fy / 2.335, fx / 2.335
        if min(sy, sx) >= 0.9 and n >= 9 * max(sy, sx):
            if th == 0:
                r["wy"], r["wx"] = q(np.sqrt(vy) / sy - 1, 1e6), q(np.sqrt(vx) / sx - 1, 1e6)
            else:
                # turned anticlockwise as displayed: rows run down
                t = np.deg2rad(th)
                ey = sy**2 * np.cos(t) ** 2 + sx**2 * np.sin(t) ** 2
                ex = sy**2 * np.sin(t) ** 2 + sx**2 * np.cos(t) ** 2
                exy = (sy**2 - sx**2) * np.sin(t) * np.cos(t)
                r["wy"], r["wx"] = q(np.sqrt(vy / ey) - 1, 1e6), q(np.sqrt(vx / ex) - 1, 1e6)
                ok["turned"] = bool(abs(vxy - exy) < 0.06 * (sy**2 + sx**2))
                r["slack"] = 3 * 10**7
        if th:
            r["slack"] = 10**8
            if n < 5 * max(fx, fy):
                r["slack"] = CAP
    if fn == "airy":
        r["sum"] = 0
        if n % 2:
            ok["unit_peak"] = bool(abs(a[n // 2, n // 2] - 1) < 1e-12)
        # first dark ring
        y, x = np.mgrid[:n, :n]
        rr = np.hypot(y - mid[0], x - mid[1]) / c["w"]
        dark = np.abs(rr - 3.8317) < 0.02
        ok["dark_ring"] = bool(np.all(a[dark] < 2e-3))
        from scipy.special import jv
        safe = np.where(rr == 0, 1, rr)
        ok["profile"] = bool(resid(a, np.where(rr == 0, 1.0, (2 * jv(1, safe) / safe) ** 2)) < 1000)
    if fn == "sersic":
        y, x = np.mgrid[:n, :n]
        re = (n - 1) / 6.0
        rr = np.hypot(y - mid[0], x - mid[1])
        b = 1.999 * c["w"] - 0.327
        e = np.where(rr <= 4 * re, np.exp(-b * (rr / re) ** (1 / c["w"])), 0)
        edge = np.abs(rr - 4 * re) < 1e-9
        ok["profile"] = bool(resid(np.where(edge, 0, a), np.where(edge, 0, e)) < 1000)
    return r


def convolve(c):
    """A delta convolved with an odd kernel is the kernel there."""
    rng = np.random.default_rng(c["seed"])
    n, k = c["n"] + 20, 2 * (c["seed"] % 4) + 3
    g = np.zeros((n, n))
    ker = rng.normal(size=(k, k))
    e = np.zeros((n + 2 * k, n + 2 * k))
    for _ in range(3):
        y, x = rng.integers(0, n, 2)
        f = rng.uniform(1, 100)
        g[y, x] += f
        e[y + k - k // 2:y + k - k // 2 + k, x + k - k // 2:x + k - k // 2 + k] += f * ker
    o = np.asarray(simtools.convol_gal_psf_fft(g, ker))
    return dict(kind="kernel", ok=dict(size=o.shape == g.shape), sum=resid(o, e[k:-k, k:-k]), mirror=0, centre=0, wy=0, wx=0, slack=0, wtol=0)


def noise(c):
    """Noise, sky level and stars of a simulated image."""
    rng = np.random.default_rng(c["seed"])
    n = 90
    fw = c["w"]
    m = np.zeros((n, n))
    edge = int(3 * fw) + 2
    for _ in range(3):
        m[rng.integers(edge, n - edge), rng.integers(edge, n - edge)] += float(rng.uniform(500, 3000))
    kw = dict(bkg_pdf=c["pdf"], seed=c["seed"] % 50)
    if c["bias"] is not None:
        kw["bias"] = c["bias"]
    im = np.asarray(simtools.image(m, n, 1, fw, c["sn"], Y_FWHM=c["w2"] or 0, **kw), float)
    bias = 100.0 if c["bias"] is None else c["bias"]
    psf = simtools.Psf(5 * max(fw, c["w2"] or 0), fw, c["w2"] or 0)
    conv = np.asarray(simtools.convol_gal_psf_fft(m, psf))
    b = conv.max()
    res = im - bias - conv
    mean = b / c["sn"] if c["pdf"] == "poisson" else 0.0
    std = np.sqrt(mean) if c["pdf"] == "poisson" else b / c["sn"]
    ok = dict(size=im.shape == (n, n), noise_level=bool(abs(res.mean() - mean) < 6 * std / n and abs(res.std() / std - 1) < 0.06))
    if c["pdf"] == "poisson":
        ok["counts"] = bool(np.max(np.abs(res - np.round(res))) < 1e-3)
    lag = np.mean((res - res.mean())[:, 1:] * (res - res.mean())[:, :-1]) / res.var()
    ok["independent"] = bool(abs(lag) < 0.07)
    flux = (im - bias - mean).sum()
    ok["flux_conserved"] = bool(abs(flux - m.sum()) < 6 * std * n + 1e-6 * m.sum())
    return dict(kind="kernel", ok=ok, sum=0, mirror=0, centre=0, wy=0, wx=0, slack=0, wtol=0)


def frame(c):
    """The quadrants of a variable-PSF frame, against the images it is made of."""
    made = []
    old = simtools.image

    def seen(*a, **k):
        r = old(*a, **k)
        made.append(np.array(r))
        return r
    simtools.image = seen
    kw = {} if c["seed"] is None else dict(seed=c["seed"])
    if c["thetas"]:
        kw["thetas"] = c["thetas"]
    n = c["n"]
    try:
        f = np.asarray(simtools.sim_varpsf(c["stars"], SN=c["sn"], N=n, **kw))
    finally:
        simtools.image = old
    size = f.shape == (2 * n, 2 * n)
    at = [1, 2, 3, 4]
    if size and len(made) == 4:
        at = []
        for x in range(2):
            for y in range(2):
                qd = f[y * n:(y + 1) * n, x * n:(x + 1) * n]
                # a constant sky level may have been added
                hit = [k + 1 for k, m in enumerate(made) if np.ptp(qd - m) < 1e-6 * max(1.0, np.ptp(m))]
                at.append(hit[0] if len(hit) == 1 else 0)
    return dict(kind="frame", size=bool(size), at=at, seen=len(made))


def run(c):
    return {"history": history, "points": points, "product": product, "kernel": kernel, "frame": frame}[c["kind"]](c)
