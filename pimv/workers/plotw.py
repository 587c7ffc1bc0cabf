"""Plots of PSF components, read back from the axes."""
import os
import re
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.figure  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from astropy.stats import sigma_clipped_stats  # noqa: E402

from properimage import SingleImage, plot  # noqa: E402
from pimv import images  # noqa: E402


class Field:
    def __init__(self, c):
        self.c = c

    def __call__(self, x, y):
        c = self.c
        return c[0] + c[1] * x + c[2] * y + c[3] * x * y


class Fake(SingleImage):
    """An image whose PSF components are given."""

    want = None
    asked = None

    def get_variable_psf(self, inf_loss=None, shape=None):
        if self.want is None:
            return super().get_variable_psf(inf_loss, shape)
        self.asked.append((inf_loss, shape))
        return [list(self.want[0]), list(self.want[1])]

    @property
    def kl_basis(self):
        return list(self.want[1]) if self.want is not None else super().kl_basis

    @property
    def kl_afields(self):
        return list(self.want[0]) if self.want is not None else super().kl_afields


_img = {}


def image(seed, shape):
    k = (seed, tuple(shape))
    if k not in _img:
        _img[k] = images.field(seed, tuple(shape), 22, sig=1.5, var=0.8, noise=4, mind=8)
    return Fake(_img[k].copy())


def given(k, form):
    """k axes of a new figure, in some container."""
    fig = plt.figure()
    if k == 0:
        return fig, [], [] if form != "array" else np.array([])
    if form == "grid" and k % 2 == 0:
        ax = fig.subplots(2, k // 2, squeeze=False)
        return fig, list(np.ravel(ax)), ax
    ax = fig.subplots(1, k, squeeze=False)
    flat = list(np.ravel(ax))
    if form == "list":
        return fig, flat, list(flat)
    if form == "bare" and k == 1:
        return fig, flat, flat[0]
    return fig, flat, np.array(flat)


class More(plot.Plot):
    """Plots with a private method of their own."""

    def _secret(self):
        plt.figure().subplots().imshow(np.eye(3))


class GridSeen(Exception):
    pass


def grids(c):
    out = []
    old = matplotlib.figure.Figure.subplots

    def seen(self, nrows=1, ncols=1, **kw):
        raise GridSeen(int(nrows), int(ncols))
    im = image(3, (64, 64))
    other = False
    for n in range(c["lo"], c["hi"]):
        if other and n < c["hi"] - 1:
            continue
        im.want = ([Field((1, 0, 0, 0))] * n if n > 1 else [None], [np.ones((3, 3))] * n)
        im.asked = []
        for op in ("autopsf", "autopsf_coef"):
            if n == 1 and op == "autopsf_coef":
                continue
            matplotlib.figure.Figure.subplots = seen
            shows, bars = matplotlib.axes.Axes.imshow, matplotlib.figure.Figure.colorbar
            on = set()
            try:
                # axes made some other way are slow: counted at the ends only
                matplotlib.axes.Axes.imshow = lambda self, *a, **k: on.add(id(self))
                matplotlib.figure.Figure.colorbar = lambda self, *a, **k: None
                plot.Plot(im)(op)
                out.append(dict(n=n, rows=len(on), cols=1))
                other = True
            except GridSeen as e:
                out.append(dict(n=n, rows=e.args[0], cols=e.args[1]))
            finally:
                matplotlib.figure.Figure.subplots = old
                matplotlib.axes.Axes.imshow, matplotlib.figure.Figure.colorbar = shows, bars
                plt.close("all")
    im._clean()
    return dict(kind="grid", grids=out)


def names(c):
    im = image(3, (64, 64))
    im.want = ([Field((1, 2, 0, 0)), Field((1, 0, 3, 0))], [np.ones((3, 3)), np.eye(3)])
    im.asked = []
    r = dict(kind="name", raised="", promised=c["promised"], right=True)
    plt.close("all")
    kw = {}
    fig = None
    if c["axes"]:
        fig, flat, ax = given(3 if c["name"] not in (None, "imshow") else 1, "array")
        kw = dict(ax=flat[0]) if c["name"] in (None, "imshow") else dict(axs=ax)
    p = More(im) if c["name"] == "_secret" else plot.Plot(im) if c["via"] == "plot" else im.plot
    try:
        if c["method"]:
            res = getattr(p, c["name"])(**kw)
        elif c["name"] is None:
            res = p(**kw)
        elif c["keyword"]:
            res = p(plot=c["name"], **kw)
        else:
            res = p(c["name"], **kw)
    except Exception as e:
        r["raised"] = type(e).__name__
        res = None
    figs = [plt.figure(i) for i in plt.get_fignums()]
    drawn = sum(len(a.images) + len(a.collections) for f in figs for a in f.axes)
    r["nothing"] = drawn == 0 and (fig is not None or not figs)
    if r["raised"] == "":
        if c["name"] in (None, "imshow"):
            ok = len(res.images) == 1 and np.array_equal(np.ma.filled(res.images[0].get_array(), -1), np.ma.filled(im.data, -1))
            r["right"] = bool(ok and res.images[0].origin == "lower" and "64, 64" in res.get_title() and (not c["axes"] or res is kw["ax"]))
        else:
            want = im.want[1] if c["name"] == "autopsf" else [f(*im.get_afield_domain()) for f in im.want[0]]
            flat = list(np.ravel(res))
            r["right"] = bool(all(len(flat[i].images) == 1 and np.allclose(flat[i].images[0].get_array(), want[i]) for i in range(2)))
    plt.close("all")
    im._clean()
    return r


def pictures(c):
    """Calls of plot_S and plot_R in one session of figures."""
    rng = np.random.default_rng(c["seed"])
    plt.close("all")
    out = []
    with tempfile.TemporaryDirectory() as tmp:
        for j, q in enumerate(c["calls"]):
            v = rng.normal(5.0, 2.0, q["shape"])
            if q["op"] == "S":
                v[rng.random(q["shape"]) < 0.02] += 300.0
            else:
                v = np.abs(v) + 0.01
            f = q["form"]
            want = v.copy()
            if "complex" in f:
                v = (v + 1j * rng.normal(size=v.shape)).astype("complex64" if f == "complex64" else "complex128")
            if f == "float32":
                v = v.astype("f4")
            seen = np.ones(v.shape, bool)
            if f.startswith("masked"):
                seen = rng.random(v.shape) > 0.05
                v = np.ma.MaskedArray(v, ~seen)
            elif f == "nomask":
                v = np.ma.MaskedArray(v)
            if q["op"] == "R":
                want = np.log10(want)
            keep = np.ma.copy(v) if isinstance(v, np.ma.MaskedArray) else v.copy()
            path = os.path.join(tmp, f"p{j}.png") if q["path"] else None
            o = dict(nbook=q["nbook"], path=q["path"], raised="", axes=False, shown=False, limits=True, open=0, stored=False, same=True)
            before = len(plt.get_fignums()) if q["nbook"] else 0
            try:
                ax = (plot.plot_S if q["op"] == "S" else plot.plot_R)(v, path=path, nbook=q["nbook"])
            except Exception as e:
                o["raised"] = type(e).__name__
                out.append(o)
                plt.close("all")
                continue
            o["open"] = max(0, len(plt.get_fignums()) - before)
            o["stored"] = bool(path and os.path.isfile(path) and os.path.getsize(path) > 500)
            o["same"] = bool(np.array_equal(np.ma.getdata(v), np.ma.getdata(keep)) and np.array_equal(np.ma.getmaskarray(v), np.ma.getmaskarray(keep)))
            o["axes"] = bool(isinstance(ax, matplotlib.axes.Axes) and len(ax.images))
            o["kept"] = any(ax in plt.figure(i).axes for i in plt.get_fignums())
            if o["axes"]:
                im = ax.images[-1]
                a = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
                o["shown"] = bool(a.shape == want.shape and np.allclose(a[seen], want[seen], rtol=1e-5, atol=1e-5))
                if q["op"] == "S":
                    lo, hi = im.get_clim()
                    _, med, std = sigma_clipped_stats(np.ma.filled(v) if isinstance(v, np.ma.MaskedArray) else v)
                    o["limits"] = bool(np.isclose(lo, med - 4 * std, rtol=1e-3) and np.isclose(hi, med + 4 * std, rtol=1e-3))
            out.append(o)
    plt.close("all")
    return dict(kind="picture", calls=out)


def run(c):
    if c["kind"] == "picture":
        return pictures(c)
    if c["kind"] == "grid":
        return grids(c)
    if c["kind"] == "name":
        return names(c)
    rng = np.random.default_rng(c["seed"])
    plt.close("all")
    op, n = c["op"], c["n"]
    kw = {}
    if c["real"]:
        im = image(c["seed"] % 3 + 5, (112, 104))
        kw["inf_loss"] = c["loss"]
        fields, basis = im.get_variable_psf(c["loss"])
        n = len(basis)
        ref = [np.array(b) for b in basis]
        im.inf_loss = 0.5
    else:
        im = image(3, c["shape"])
        ref = [rng.normal(size=c["stamp"]) * 10.0 ** rng.integers(-2, 3) for _ in range(n)]
        fields = [None] if n == 1 else [Field(rng.normal(size=4)) for _ in range(n)]
        im.want, im.asked = (fields, ref), []
        if c["loss"] is not None:
            kw["inf_loss"] = c["loss"]
    items = ref
    x, y = np.mgrid[: im.data.shape[0], : im.data.shape[1]]
    if op == "autopsf_coef":
        items = [f(x, y) for f in fields] if n > 1 else []
    g = c["given"]
    same = flat = None
    if c["real"] and g >= 0:
        g = n + g % 3 - 1
    if g >= 0:
        fig, flat, axs = given(g, c["form"])
        kw["axs"] = axs
    style = c["style"]
    iso = False
    if op == "autopsf":
        if c["iso"] is not None:
            kw["iso"] = c["iso"]
            iso = bool(c["iso"])
        if style % 2:
            kw["iso_kw"] = [dict(colors="red"), dict(alpha=0.9), dict(colors="blue", alpha=0.25, linewidths=2.0)][style % 3]
    if style & 4:
        kw["cmap"] = "magma"
    if style & 8:
        kw["vmin"] = -1e7
    if style & 16:
        kw["cmap_kw"] = dict(shrink=0.6)
    if style & 32 and not c["real"]:
        kw["shape"] = tuple(c["stamp"])
    r = dict(kind="draw", op=op, n=n, given=g, iso=iso, raised="", axes=[], nothing=True, same=True, loss=True)
    before = len(plt.get_fignums())
    p = plot.Plot(im)
    try:
        if c["call"]:
            res = p(op, **kw)
        else:
            res = getattr(p, op)(**kw)
    except (ValueError, TypeError) as e:
        r["raised"] = type(e).__name__
        drawn = sum(len(a.images) + len(a.collections) for i in plt.get_fignums() for a in plt.figure(i).axes)
        r["nothing"] = bool(drawn == 0 and (op != "autopsf_coef" or n > 1 or len(plt.get_fignums()) == before))
        plt.close("all")
        im._clean()
        return r
    axs = list(np.ravel(res))
    if flat is not None:
        r["same"] = bool(len(axs) == len(flat) and all(a is b for a, b in zip(axs, flat)))
    for i, a in enumerate(axs):
        d = []
        for m in a.images:
            v = np.asarray(m.get_array())
            hit = [k + 1 for k, t in enumerate(items) if v.shape == t.shape and np.array_equal(v, t)] or \
                  [k + 1 for k, t in enumerate(items) if v.shape == t.shape and np.allclose(v, t, rtol=1e-9, atol=1e-12 * np.max(np.abs(t)))]
            d.append(hit[0] if hit else 0)
        t = a.get_title()
        mi = re.search(r"[pa]_\{?(\d+)\}?", t)
        ms = re.search(r"=\s*\{?([-+0-9.e]+)\}?", t)
        o = dict(draws=d, index=int(mi.group(1)) if mi else -1, sum=False, contours=sum(1 for s in a.collections if type(s).__name__ == "QuadContourSet"), style=True, image=True)
        if i < len(items) and ms:
            s = np.sum(items[i]) if op == "autopsf" else np.sqrt(np.sum(items[i] ** 2))
            o["sum"] = bool(abs(float(ms.group(1)) - s) <= 6e-4 * abs(s) + 1e-12 * np.sum(np.abs(items[i])))
        if i < len(items) and a.images:
            m = a.images[0]
            ok = m.get_cmap().name == kw.get("cmap", plt.rcParams["image.cmap"])
            lo, hi = m.get_clim()
            if op == "autopsf_coef":
                _, med, std = sigma_clipped_stats(items[i])
                ok = ok and np.isclose(lo, kw.get("vmin", med - 2 * std)) and np.isclose(hi, med + 2 * std)
            else:
                ok = ok and m.get_interpolation() == "none" and (np.isclose(lo, kw["vmin"]) if "vmin" in kw else np.isclose(lo, items[i].min())) and np.isclose(hi, items[i].max())
            o["image"] = bool(ok)
        for s in a.collections:
            if type(s).__name__ == "QuadContourSet":
                ik = kw.get("iso_kw", {})
                col = matplotlib.colors.to_rgb(ik.get("colors", "black"))
                ec = np.atleast_2d(s.get_edgecolor())
                lw = np.ravel(s.get_linewidths())
                ok = len(ec) and np.allclose(ec[:, :3], col) and np.allclose(ec[:, 3], ik.get("alpha", 0.5))
                if "linewidths" in ik:
                    ok = ok and np.allclose(lw, ik["linewidths"])
                # in the coordinates of the image
                pts = [q for q in s.get_paths() if len(q.vertices)]
                if pts and a.images:
                    vs = np.concatenate([q.vertices for q in pts])
                    ny, nx = a.images[0].get_array().shape
                    ok = ok and vs[:, 0].max() <= nx - 1 + 1e-6 and vs[:, 1].max() <= ny - 1 + 1e-6
                o["style"] = bool(o["style"] and ok)
        r["axes"].append(o)
    if im.want is not None:
        r["loss"] = bool(all(q[0] == kw.get("inf_loss") for q in im.asked) and ("shape" not in kw or all(q[1] == kw["shape"] for q in im.asked)))
    else:
        r["loss"] = bool(im.inf_loss == c["loss"])
    plt.close("all")
    im._clean()
    return r
