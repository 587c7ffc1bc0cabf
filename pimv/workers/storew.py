"""Stored products: store_img, store_fits, and loading them again."""
import os
import pathlib
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from astropy.time import Time

from properimage import simtools
from properimage import utils as u
from properimage.single_image import SingleImage
from pimv.obs import CAP, q, resid

DT = {"f8": "<f8", "f4": "<f4", ">f8": ">f8", ">f4": ">f4", "i2": "<i2", "u2": "<u2", "u1": "u1", "i4": "<i4", "i8": "<i8", ">i2": ">i2", "u4": "<u4"}


def bits(a):
    """Bits of the single precision values (one kind of NaN, one zero)."""
    a = np.asarray(a).real.astype(np.float32).ravel() + np.float32(0)
    a = np.where(np.isnan(a), np.float32(np.nan), a).astype(np.float32)
    return a.view(np.int32).tolist()


def make(k, cx, seed, shape, dt, form):
    rng = np.random.default_rng(seed)
    if dt[-2] == "f":
        d = rng.normal(300, 2000, shape).astype(DT[dt])
        if seed % 7 == 0:
            d.flat[rng.integers(d.size)] = [np.nan, np.inf, -np.inf, 0.0][seed % 4]
    else:
        ii = np.iinfo(np.dtype(DT[dt]))
        d = rng.integers(max(ii.min, -2**24), min(ii.max, 2**24), shape, endpoint=True).astype(DT[dt])
    if cx:
        d = d + 1j * rng.normal(0, 50, shape)
        if dt in ("f4", ">f4"):
            d = d.astype(np.complex64)
    if form == "fortran":
        d = np.asfortranarray(d)
    elif form == "view":
        big = np.zeros((shape[0] * 2,) + tuple(shape[1:]), d.dtype)
        big[::2] = d
        d = big[::2]
    elif form == "readonly":
        d.setflags(write=False)
    m = None
    if k == "nomask":
        d = np.ma.MaskedArray(d)
    elif k == "empty":
        d = np.ma.MaskedArray(d, mask=np.zeros(shape, bool))
        m = np.zeros(shape, bool)
    elif k == "partial":
        m = rng.random(shape) < [0.05, 0.3, 0.8][seed % 3]
        m.flat[rng.integers(m.size)] = True
        if seed % 11 == 0:
            m[:] = True
        d = np.ma.MaskedArray(d, mask=m.copy())
        if form == "shared":
            d = d[:]
        if form == "hard":
            d.harden_mask()
    return d


def snap(d):
    return (np.ma.getdata(d).tobytes(), np.ma.getmaskarray(d).tobytes(), np.ma.getmask(d) is np.ma.nomask, str(d.dtype), d.shape, type(d).__name__,
            d.flags.writeable)


def view(hl):
    """What a list of units holds."""
    if isinstance(hl, (fits.PrimaryHDU, fits.ImageHDU)):
        hl = [hl]
    r = dict(there=True, pix=bits(hl[0].data), shape=list(hl[0].data.shape), units=len(hl), bad=[], maskshape=[])
    if len(hl) > 1:
        r["bad"] = np.flatnonzero(np.asarray(hl[1].data)).tolist()
        r["maskshape"] = list(hl[1].data.shape)
    return r


NONE = dict(there=False, pix=[], shape=[], units=0, bad=[], maskshape=[])


def store(c):
    tmp = tempfile.mkdtemp(prefix="store-")
    try:
        arrays, views, keep = [], [], []
        mem = None
        r = dict(kind="store", error="none", arrays=arrays, views=views)
        for s in c["steps"]:
            a = make(s["k"], s["cx"], s["seed"], s["shape"], s["dt"], s["form"])
            before = snap(a)
            keep.append((a, before))
            d = np.ma.getdata(a)
            arrays.append(dict(kind=s["k"], dest=s["dest"], pix=bits(d), shape=list(d.shape), bad=np.flatnonzero(np.ma.getmaskarray(a)).tolist()))
            p = None if s["dest"] == "memory" else os.path.join(tmp, s["dest"] + ".fits")
            if p is not None and s["seed"] % 3 == 0:
                p = pathlib.Path(p)
            try:
                if s["dest"] == "memory":
                    mem = [u.store_img(a), u.store_img(a, None), u.store_img(a, path=None)][s["seed"] % 3]
                elif s["seed"] % 2:
                    u.store_img(a, p)
                else:
                    u.store_img(img=a, path=p)
            except Exception as e:
                r["error"] = type(e).__name__
                break
            v = {}
            for w in ("one", "two"):
                f = os.path.join(tmp, w + ".fits")
                if os.path.exists(f):
                    with fits.open(f) as hl:
                        v[w] = view(hl)
                else:
                    v[w] = NONE
            v["memory"] = NONE if mem is None else view(mem)
            views.append(v)
        r["untouched"] = all(snap(a) == b for a, b in keep)
        r["strays"] = len([x for x in os.listdir(tmp) if x not in ("one.fits", "two.fits")])
        return r
    finally:
        shutil.rmtree(tmp)


def load(c):
    tmp = tempfile.mkdtemp(prefix="load-")
    try:
        rng = np.random.default_rng(c["seed"])
        sh = tuple(c["shape"])
        d = rng.normal(300, 5, sh)
        m = rng.random(sh) < c["frac"]
        if c["corner"]:
            m[0, 0] = m[-1, -1] = True
        if c["bign"]:
            d[m] = [np.nan, 1e6, np.inf][c["seed"] % 3]
        a = np.ma.MaskedArray(d, mask=m)
        if c["cx"]:
            a = a + 1j * np.ma.MaskedArray(rng.normal(0, 1, sh), mask=m)
        p = os.path.join(tmp, "x.fits")
        u.store_img(a, p)
        r = dict(kind="load", error="none", bad=np.flatnonzero(m).tolist())
        try:
            if c["how"] == "memory":
                s = SingleImage(u.store_img(a), maskthresh=1, stamp_shape=(5, 5))
            else:
                s = SingleImage(p, maskthresh=1, stamp_shape=(5, 5))
        except Exception as e:
            r["error"] = type(e).__name__
            return r
        r["loaded"] = np.flatnonzero(np.ma.getmaskarray(s.data)).tolist()
        r["shape"] = s.data.shape == sh
        r["pixels"] = resid(np.ma.getdata(s.data)[~m], np.ma.getdata(a).real[~m]) if r["shape"] and (~m).any() else 0
        return r
    finally:
        shutil.rmtree(tmp)


def exposure(c):
    tmp = tempfile.mkdtemp(prefix="exp-")
    cwd = os.getcwd()
    try:
        for d in ("a", "b"):
            os.mkdir(os.path.join(tmp, d))
        os.chdir(os.path.join(tmp, "a"))
        exps, keep, paths, wants = [], [], {}, {}
        r = dict(kind="exposure", error="none", exps=exps)
        for e in c["steps"]:
            a = make("plain", False, e["seed"], e["shape"], e["dt"], e["form"])
            keep.append((a, snap(a)))
            t = Time(e["jd"], e["frac"], format="jd", scale=e["scale"])
            tt = t
            if e["tform"] == "float":
                tt = float(t.jd)
                t = Time(tt, format="jd", scale="utc")
            elif e["tform"] == "iso":
                tt = t = Time(t.iso, format="iso", scale=e["scale"])
            elif e["tform"] == "mjd":
                tt = t = Time(t.mjd, format="mjd", scale=e["scale"])
            d = os.path.join(tmp, e["dir"])
            try:
                if e["dir"] == "a" and e["seed"] % 2:
                    p = simtools.store_fits(a, tt, e["texp"], e["i"], e["zero"])
                else:
                    p = simtools.store_fits(a, tt, e["texp"], e["i"], e["zero"], path=d)
            except Exception as ex:
                r["error"] = type(ex).__name__
                return r
            k = f"{e['dir']}-{e['i']}"
            exps.append(dict(file=k, pix=bits(a), returned=bool(os.path.isfile(p) and os.path.realpath(os.path.dirname(os.path.abspath(p))) == os.path.realpath(d))))
            paths[k] = os.path.abspath(p)
            wants[k] = (e, t)
        final = {}
        for k, p in paths.items():
            e, t = wants[k]
            with fits.open(p) as hl:
                h = hl[0].header
                try:
                    back = Time(h["DATE-OBS"] + " " + h["TIME-OBS"], format="iso", scale=t.scale)
                    dt = q((back - t).sec, 1e3)
                    jd = q(float(h["JD"]) - t.jd, 1e9)
                    texp = q(float(h["EXPTIME"]) - e["texp"], 1e6)
                    zp = q(float(h["ZERO_P"]) - e["zero"], 1e6)
                except (KeyError, ValueError, TypeError):
                    dt = jd = texp = zp = CAP
                final[k] = dict(pix=bits(hl[0].data), jd=jd, time=dt, texp=texp, zero=zp)
        r["final"] = final
        r["count"] = sum(len(fs) for _, _, fs in os.walk(tmp))
        r["untouched"] = all(snap(a) == b for a, b in keep)
        return r
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def run(c):
    return dict(store=store, load=load, exposure=exposure)[c["kind"]](c)
