"""Coadditions of synthetic fields next to the closed form."""
import json
import os
import warnings

import numpy as np

from properimage import SingleImage
from properimage import operations
from properimage.operations import coadd, subtract
from properimage.utils import transparency
from pimv import images
from pimv.obs import q, resid
from pimv.terms import Terms

SHAPES = {"a": (104, 96), "b": (90, 121), "c": (100, 100)}


def source(group, i):
    """Image i of a group: same stars, own seeing, noise, flux, background, bad pixels."""
    shape = SHAPES[group]
    rng = np.random.default_rng([ord(group), i])
    d = images.field(seed=ord(group), shape=shape, n=26, sig=[1.3, 1.6, 1.4, 1.9, 1.5][i % 5], var=[0.0, 0.35, 0.15, 0.5, 0.0][i % 5], noise=[4, 6, 3, 8, 5][i % 5],
                     bg=[300, 250, 400, 120, 333][i % 5], scale=[1.0, 1.7, 0.6, 2.2, 1.0][i % 5], noise_seed=i + 50, margin=13, mind=8.0)
    m = np.zeros(shape, bool)
    if i % 5 in (1, 3):
        m[40:44, 30:35] = True
        m[rng.integers(5, 80), :] |= rng.random(shape[1]) < 0.5
    if i % 5 in (2, 3):
        d[rng.integers(20, 60), rng.integers(20, 60)] = np.nan
    return d, (m if m.any() else None)


def make(group, i):
    d, m = source(group, i)
    return SingleImage(d.copy(), mask=None if m is None else m.copy())


def prepare(im, what, group, i, loss):
    if what == "psf":
        im.get_variable_psf(0.002)
    elif what == "scomp":
        im.get_variable_psf(0.3)
        im.s_component
    elif what == "sqnorm":
        im.get_variable_psf(0.01)
        im.psf_hat_sqnorm()
        im.p_sqnorm()
    elif what == "zp":
        im.get_variable_psf(loss)
        im.zp = 7.5
        im.s_hat_comp
    elif what == "stars":
        im.n_sources
    elif what == "clean":
        im.interped_hat
        im.normal_image
    elif what == "coadd":
        coadd([make(group, (i + 1) % 5), im], align=False, inf_loss=0.05, n_procs=1)
    elif what == "subtract":
        subtract(im, make(group, (i + 2) % 5), inf_loss=0.15, fitted_psf=False, beta=False, shift=False)
    elif what == "closed":
        im.get_variable_psf(0.02)
        im._clean()


_memo = {}
PIECES = json.load(open(os.environ["PIMV_PIECES"]))


def leaf(group, i, loss):
    k = (group, i, loss)
    if k not in _memo:
        im = make(group, i)
        fields, basis = im.get_variable_psf(loss)
        _memo[k] = dict(clean=np.asarray(im.interped).copy(), sigma=float(im.var), basis=[np.asarray(b, float).copy() for b in basis],
                        fields=[f if f is None else (lambda y, x, f=f: f(y, x)) for f in fields], mask=np.asarray(im.data.mask).copy(),
                        box=float(im.stamp_shape[0]), shape=im.data.shape)
    return _memo[k]


def expect(c, order):
    g, loss = c["group"], c["loss"] / 1000
    zps = [1.0]
    zps, _ = transparency([make(g, i) for i in order])
    env = dict(box=0.0)
    prog = []
    mask = None
    for n, (i, z) in enumerate(zip(order, zps), 1):
        f = leaf(g, i, loss)
        env[f"clean{n}"], env[f"sigma{n}"], env[f"zp{n}"] = f["clean"], f["sigma"], float(z)
        for k, (a, b) in enumerate(zip(f["fields"], f["basis"]), 1):
            env[f"psf{n}_{k}"], env[f"a{n}_{k}"] = b, a
        prog += PIECES["pieces"][n - 1][len(f["basis"]) - 1]
        env["box"] = max(env["box"], f["box"])
        mask = f["mask"] if mask is None else mask | f["mask"]
    e = Terms(f["shape"], env).run(prog + PIECES["final"][len(order) - 1])
    return e, mask, [len(leaf(g, i, loss)["basis"]) for i in order]


def run(c):
    g, loss = c["group"], c["loss"] / 1000
    order = [x["img"] for x in c["imgs"]]
    lst, keep = [], []
    for x in c["imgs"]:
        if x["form"] == "array":
            d, m = source(g, x["img"])
            if m is not None or np.isnan(d).any():
                v = make(g, x["img"])
                keep.append((np.asarray(v.data.data).copy(), np.asarray(v.data.mask).copy()))
            else:
                v = d.copy()
                keep.append((v.copy(), None))
        else:
            v = make(g, x["img"])
            keep.append((np.asarray(v.data.data).copy(), np.asarray(v.data.mask).copy()))
            prepare(v, x["before"], g, x["img"], loss)
        lst.append(v)
    arg = tuple(lst) if c.get("tuple") else list(lst)
    warned = True
    if c.get("oldname"):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            R, P, M = operations.stack_R(arg, align=False, inf_loss=loss, n_procs=c["procs"])
        warned = any(issubclass(w.category, DeprecationWarning) and "coadd" in str(w.message) for w in seen)
    else:
        R, P, M = coadd(arg, align=False, inf_loss=loss, n_procs=c["procs"])
    e, mask, ks = expect(c, order)
    e0, _, _ = expect(c, sorted(order))
    mine = [np.array(v, copy=True) for v in (R, P, M)]
    for v in (R, P, M):  # results are the caller's to overwrite
        v[...] = 1
    R, P, M = mine
    pix = True
    for v, (d, m) in zip(lst, keep):
        if isinstance(v, np.ndarray):
            pix &= bool(np.array_equal(v, d, equal_nan=True))
        else:
            pix &= bool(np.array_equal(np.asarray(v.data.data), d, equal_nan=True) and np.array_equal(np.asarray(v.data.mask), m)
                        and np.array_equal(np.asarray(v.mask), m))
    P, M = np.asarray(P), np.asarray(M)
    return dict(kind="proper", n=len(order), ks=ks, r=resid(np.asarray(R), e["R"]), p=resid(P, e["P"]), sum=q(np.sum(P) - 1, 1e9),
                order=resid(np.asarray(R), e0["R"]), ordp=resid(np.abs(np.fft.fft2(P)), np.abs(np.fft.fft2(e0["P"]))),
                mask=bool(M.shape == mask.shape and M.dtype == bool and np.array_equal(M, mask)), pixels=pix, warned=warned,
                list=bool(len(arg) == len(lst) and all(a is b for a, b in zip(arg, lst))))
