"""Construct images from every kind of source and report what came out."""
import hashlib
import os

import numpy as np
from astropy.io import fits

from properimage import SingleImage


def build(c):
    h, w = c["h"], c["w"]
    a = np.array(c["val"], dtype=float).reshape(h, w) / 4.0
    k = np.array(c["kind"]).reshape(h, w)
    a[k == 1] = np.nan
    a[k == 2] = np.inf
    a[k == 3] = -np.inf
    a = a.astype(c.get("dtype", "f8"))
    lay = c.get("layout", "C")
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "view":
        big = np.zeros((h * 2, w * 2), dtype=a.dtype)
        big[::2, ::2] = a
        a = big[::2, ::2]
    elif lay == "T":
        a = np.ascontiguousarray(a.T).T
    return a


def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest() if p else ""


def cards(h):
    return [(str(k), str(v)) for k, v in h.items()]


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def decoys(h, w):
    """Files of the working directory which have nothing to do with the image.

    Anything that looks one of them up masks every pixel or fails.
    """
    full = np.full((h, w), -1000, dtype="i2")
    for name in ("ndarray", "MaskedArray", "HDUList", "PrimaryHDU", "None", "mask.fits"):
        fits.HDUList([fits.PrimaryHDU(full), fits.ImageHDU(full)]).writeto(name, overwrite=True)


def run(c):
    h, w = c["h"], c["w"]
    if c.get("given") == "none":
        decoys(h, w)
    a = build(c)
    src = c["src"]
    path = mpath = None
    hdr = fits.Header()
    hdr["OBJECT"] = c["id"][:20]
    hdr["EXPTIME"] = 7
    if "hgain2" in c:
        hdr["GAIN"] = c["hgain2"] / 2
    exta = np.array(c["evals"], dtype=c.get("edtype", "i2")).reshape(h, w) if c["ext"] else None
    hdus = None
    if src in ("path", "hdulist", "hdu"):
        prim = fits.PrimaryHDU(np.ascontiguousarray(a), header=hdr)
        hdus = fits.HDUList([prim] + ([fits.ImageHDU(exta)] if c["ext"] else []))
        if c["ext"] and c.get("more"):
            # only the first extension is a mask
            hdus.append(fits.ImageHDU(np.full((h, w), -1000, dtype="i2"), name="WEIGHT"))
    if src == "array":
        img, origin, ehdr = a, "ndarray", None
    elif src == "masked":
        own = np.array(c["own"], dtype=bool).reshape(h, w)
        img = np.ma.MaskedArray(a, mask=own if c.get("ownform", "full") == "full" else np.ma.nomask)
        origin, ehdr = "MaskedArray", None
    elif src == "path":
        path = os.path.abspath(c["id"].replace("/", "_") + ".fits")
        hdus.writeto(path, overwrite=True)
        img, origin, ehdr = path, path, cards(fits.getheader(path))
    elif src == "hdu":
        img, origin, ehdr = hdus[0], "PrimaryHDU", cards(hdus[0].header)
    else:
        img, origin, ehdr = hdus, "HDUList", cards(hdus[0].header)
    mask = None
    if c["given"] != "none":
        shape = (c["mh"], c["mw"])
        m = np.array(c["mvals"], dtype=c.get("mdtype", "i2")).reshape(shape)
        if c["given"] == "array":
            mask = m
        else:
            mpath = os.path.abspath(c["id"].replace("/", "_") + "_mask.fits")
            fits.PrimaryHDU(m).writeto(mpath, overwrite=True)
            mask = mpath
    kw = dict(stamp_shape=(5, 5), guessmask=c["guess"])
    if c["borders"]:
        kw["borders"] = True
    t, b, l, r = c["crop"]
    if any(c["crop"]):
        kw["crop"] = ((t, b), (l, r)) if c.get("croptype", "t") == "t" else [[t, b], [l, r]]
    if "gain2" in c:
        kw["gain"] = c["gain2"] / 2
    if "thresh" in c:
        kw["maskthresh"] = c["thresh"]
    # state of everything the caller owns
    a0 = a.copy()
    own0 = np.ma.getmaskarray(img).copy() if src == "masked" else None
    m0 = mask.copy() if isinstance(mask, np.ndarray) else None
    h0 = cards(hdus[0].header) if hdus is not None and src != "path" else None
    d0 = [np.array(x.data).copy() for x in hdus] if hdus is not None and src != "path" else None
    f0 = (sha(path), sha(mpath))
    out = {k: v for k, v in c.items() if k in (
        "h", "w", "val", "kind", "src", "given", "ext", "guess", "borders", "crop", "gain2", "hgain2", "thresh",
        "mvals", "evals", "own", "mwindow", "what")}
    try:
        im = SingleImage(img, mask=mask, **kw)
    except Exception as e:
        out["raised"] = type(e).__name__
        return out
    out["raised"] = ""
    data = np.asarray(im.data.data)
    msk = im.mask
    out["mask_bool"] = bool(isinstance(msk, np.ndarray) and msk.dtype == bool and msk.shape == data.shape
                            and np.array_equal(msk, im.data.mask))
    out["oh"], out["ow"] = (int(x) for x in data.shape)
    out["omask"] = [int(x) for x in np.broadcast_to(np.asarray(msk, dtype=bool), data.shape).ravel()]
    if c["what"] == "data":
        ok = np.where(np.isnan(data), 1, np.where(data == np.inf, 2, np.where(data == -np.inf, 3, 0)))
        f = np.where(ok == 0, data, 0).astype(float) * 8
        out["okind"] = [int(x) for x in ok.ravel()]
        out["oval"] = [int(x) for x in np.clip(np.round(f), -2e9, 2e9).ravel()]
        out["exact"] = bool(np.all(f == np.round(f)))
        g = float(im.gain) * 2
        out["ogain2"] = int(g) if g == int(g) else -999
        out["header_ok"] = bool((ehdr is None and len(im.header) == 0) or
                                (ehdr is not None and cards(im.header) == ehdr))
        out["origin_ok"] = bool(im.attached_to == origin)
    ok = same(a, a0)
    if own0 is not None:
        ok = ok and np.array_equal(np.ma.getmaskarray(img), own0) and same(np.asarray(img.data), a0)
    if d0 is not None:
        ok = ok and all(same(np.array(x.data), y) for x, y in zip(hdus, d0)) and cards(hdus[0].header) == h0
        ok = ok and len(hdus) == len(d0)
    out["caller_ok"] = bool(ok)
    out["callermask_ok"] = bool(m0 is None or same(mask, m0))
    out["file_ok"] = (sha(path), sha(mpath)) == f0
    for p in (path, mpath):
        if p:
            os.remove(p)
    return out
