"""Coaddition of probe images whose contributions can be told apart."""
import threading
import time

import numpy as np

from properimage import SingleImage
from properimage.operations import coadd
from properimage.utils import chunk_it
from pimv.obs import CAP, q

CAT = [("y", float), ("x", float), ("flux", float), ("npix", int), ("flag", int)]
SHAPE = (33, 40)


class Gate:
    """Hands contributions out in the order of a schedule; gives up on it
    rather than hold a program back that works in another order."""

    def __init__(self, order):
        self.left = list(order)
        self.cv = threading.Condition()

    def __call__(self, i):
        with self.cv:
            end = time.time() + 0.4
            while self.left and self.left[0] != i and i in self.left:
                if not self.cv.wait(max(0.001, end - time.time())) and time.time() >= end:
                    break
        time.sleep(0.003)  # let the others arrive
        with self.cv:
            if i in self.left:
                self.left.remove(i)
            self.cv.notify_all()


class Probe(SingleImage):
    def setup(self, i, gate, gate2):
        self.i, self.gate, self.gate2, self.lossed = i, gate, gate2, []
        return self

    @property
    def var(self):
        return 0.5 + 0.25 * self.i

    def _spot(self, base, v):
        a = np.full(SHAPE, base, complex)
        y, x = 1 + self.i % 12, 2 + 3 * (self.i // 12) + self.i % 3
        a[y, x] = v
        a[-y, -x] = np.conj(v)
        return a

    @property
    def s_hat_comp(self):
        self.gate(self.i)
        return self._spot(0.0, 5 + 2j)

    def psf_hat_sqnorm(self, *a, **k):
        self.gate2(self.i)
        return self._spot(1.0, 4.0) * (self.var / self.zp) ** 2

    def _setup_kl_a_fields(self, inf_loss=None, updating=False):
        self.lossed.append(inf_loss)

    def get_variable_psf(self, inf_loss=None, *a, **k):
        self.lossed.append(inf_loss)
        g = np.zeros((5, 5))
        g[2, 2] = 1.0
        return [None], [g]


def sites(n):
    """Which images mark which pixels: alone, all but one, all, neighbours, every second."""
    ids = list(range(1, n + 1))
    sets = [[i] for i in ids] + [[j for j in ids if j != i] for i in ids] + [ids] + [ids[::2], ids[1::2]]
    sets += [[i, i + 1] for i in ids[:-1]] + [[i, n] for i in ids[:-2]]
    return [(1 + 4 * (k // 10), 1 + 4 * (k % 10), x) for k, x in enumerate(sets[:80])]


class Item:
    def __init__(self, i):
        self.i = i


def seqs(kind, n):
    ids = list(range(1, n + 1))
    if kind == "list":
        return ids, lambda x: int(x)
    if kind == "tuple":
        return tuple(ids), lambda x: int(x)
    if kind == "array":
        return np.array(ids), lambda x: int(x)
    if kind == "rows":
        return np.array([[i, -i] for i in ids]).reshape(n, 2), lambda x: int(x[0])
    if kind == "str":
        return "".join(chr(64 + i) for i in ids), lambda x: ord(x) - 64
    if kind == "objects":
        return [Item(i) for i in ids], lambda x: x.i
    if kind == "descending":
        return [-i for i in ids], lambda x: int(-x)
    if kind == "arrays":
        return [np.full((2, 2), i) for i in ids], lambda x: int(x[0, 0])
    if kind == "range":
        return range(1, n + 1), lambda x: int(x)
    raise KeyError(kind)


def run(c):
    if c["kind"] == "chunks":
        s, f = seqs(c["seq"], c["n"])
        before = [f(x) for x in s]
        out = [[f(x) for x in ch] for ch in chunk_it(s, c["k"])]
        return dict(kind="chunks", n=c["n"], k=c["k"], chunks=out, untouched=bool([f(x) for x in s] == before and len(s) == c["n"]))
    n = c["n"]
    g, g2 = Gate([i - 1 for i in c["order"]]), Gate([i - 1 for i in c["order"]] if c.get("both") else [])
    ims = []
    for i in range(n):
        m = np.zeros(SHAPE, bool)
        for y, x, who in sites(n):
            m[y, x] = i + 1 in who
        im = Probe(np.arange(SHAPE[0] * SHAPE[1], dtype=float).reshape(SHAPE) % 17 + 100, mask=m, stamp_shape=(5, 5)).setup(i, g, g2)
        cat = np.zeros(2, CAT)
        cat["y"], cat["x"], cat["flux"], cat["npix"] = [1000 * i, 1000 * i + 50], [7, 7], 100, 9
        im.update_sources(cat)
        ims.append(im)
    lst = list(ims)
    try:
        R, P, M = coadd(lst, align=False, inf_loss=0.125, n_procs=c["k"])
    except Exception as e:
        return dict(kind="coadd", n=n, raised=type(e).__name__, images=[], psfs=[], mask=[], stray=-1, maskshape=False, loss=[], asked=125, untouched=True, rest=0)
    Rh = np.fft.fft2(np.asarray(R))
    Ph = np.abs(np.fft.fft2(np.asarray(P))) ** 2
    zp = np.array([im.zp for im in ims])
    images, psfs = [], []
    seen = np.zeros(SHAPE, bool)
    z = 1.0
    for i in range(n):
        y, x = 1 + i % 12, 2 + 3 * (i // 12) + i % 3
        seen[y, x] = seen[-y, -x] = True
        images.append(Rh[y, x] / (5 + 2j) * np.sqrt(n + 3.0))
        psfs.append((Ph[y, x] / Ph[0, 0] - 1) * n / 3)
    M = np.asarray(M)
    mask, stray = [], -1
    if M.shape == SHAPE:
        for y, x, who in sites(n):
            mask.append(dict(who=who, seen=bool(M[y, x])))
        stray = int(M.sum()) - sum(m["seen"] for m in mask)
    rest = max(q(np.max(np.abs(Rh[~seen])), 1e6), q(np.max(np.abs(Ph[~seen] / Ph[0, 0] - 1)), 1e6)) if Rh.shape == SHAPE == Ph.shape else CAP
    thou = [int(round(1000 * v.real)) if np.isfinite(v.real) and abs(v.imag) < 1e-3 and abs(v) < 1e5 else -1 for v in np.array(images)]
    return dict(kind="coadd", n=n, raised="", images=thou, psfs=[int(round(1000 * v)) if np.isfinite(v) else -1 for v in psfs], mask=mask, stray=stray,
                maskshape=bool(M.shape == SHAPE and M.dtype == bool), loss=[int(1000 * (im.lossed[-1] or 0)) if im.lossed else -1 for im in ims],
                asked=125, untouched=bool(len(lst) == n and all(a is b for a, b in zip(lst, ims))), rest=rest)
