"""Replay histories on images; identify every value read."""
import numpy as np

from properimage import SingleImage
from properimage.single_image import SingleImageGaussPSF
from pimv import images
from pimv.obs import HarnessError

LOSS = {1: 0.2, 2: 0.02, 3: 0.008}
ZP = {1: 1.0, 2: 2.5, 3: 0.4}
SHAPE = {0: None, 9: (9, 9), 13: (13, 13), 15: (15, 13)}
QS = ["pixels", "bkgsub", "noise", "interped", "interped_hat", "positions", "n_sources", "stamps", "cov", "eigen", "basis", "fields", "normal",
      "s_hat", "s", "psf_sqnorm", "p_sqnorm", "psf_mid", "psf_edge"]
DEPS = {"pixels": "", "bkgsub": "", "noise": "", "interped": "", "interped_hat": "", "positions": "s", "n_sources": "s", "stamps": "s", "cov": "s", "eigen": "s",
        "basis": "sl", "fields": "sl", "normal": "sl", "psf_sqnorm": "sl", "p_sqnorm": "sl", "psf_mid": "sl",
        "psf_edge": "sl", "s_hat": "slz", "s": "slz", "vbasis": "sl", "vfields": "sl"}
PIX = {}


def make(kind, seed):
    cls, kw, im = SingleImage, {}, None
    if (kind, seed) not in PIX:
        if kind == "plain":
            PIX[kind, seed] = images.field(seed, (112, 112), 22)
        elif kind == "varpsf":
            PIX[kind, seed] = images.field(seed, (120, 128), 24, var=0.9, sig=1.5, noise=3)
        elif kind == "strict":
            PIX[kind, seed] = images.field(seed, (144, 128), 34, var=0.7, sig=1.5, noise=3, mind=7.5)
        elif kind == "masked":
            a = images.field(seed, (112, 112), 22, var=0.6, sig=1.5)
            a[40:44, 50:55] = np.nan
            a[5, 7] = 1e6
            PIX[kind, seed] = a
        elif kind == "shaped":
            PIX[kind, seed] = images.field(seed, (116, 112), 22, var=0.6, sig=1.5) / 2
        elif kind == "gauss":
            PIX[kind, seed] = images.field(seed, (96, 104), 16)
        else:
            raise HarnessError(kind)
    im = PIX[kind, seed]
    if kind == "strict":
        kw = dict(strict_star_pick=True)
    if kind == "gauss":
        cls = SingleImageGaussPSF
    if kind == "shaped":
        kw = dict(stamp_shape=(13, 11), crop=((3, 0), (1, 2)), gain=2)
    if kind == "masked":
        kw = dict(smooth_psf=True)
    return cls(im, **kw)


def flds(f, im):
    if f is None or f[0] is None:
        return np.array([-1.0])
    yy, xx = np.mgrid[0:im.data.shape[0]:7, 0:im.data.shape[1]:9]
    return np.stack([m(yy, xx) for m in f])


def read(im, q):
    if q == "pixels":
        return np.stack([np.asarray(im.data.data, dtype=float), np.asarray(im.mask, dtype=float)])
    if q == "bkgsub":
        b = im.bkg_sub_img
        return np.stack([np.asarray(b.data, dtype=float), np.asarray(np.ma.getmaskarray(b), dtype=float)])
    if q == "noise":
        return np.array([float(im.var)])
    if q == "interped":
        return np.asarray(im.interped)
    if q == "interped_hat":
        return np.asarray(im.interped_hat)
    if q == "positions":
        return np.asarray(im.stamps_pos)
    if q == "n_sources":
        return np.array([im.n_sources])
    if q == "stamps":
        return np.stack([im.db.load(i)[0] for i in range(im.n_sources)])
    if q == "cov":
        return np.asarray(im.cov_matrix)
    if q == "eigen":
        v, w = im.eigenv
        return np.vstack([v[None, :] / np.max(np.abs(v)), w])
    if q == "basis":
        return np.stack(im.kl_basis)
    if q == "fields":
        return flds(im.kl_afields, im)
    if q == "normal":
        return np.asarray(im.normal_image)
    if q == "s_hat":
        return np.asarray(im.s_hat_comp)
    if q == "s":
        return np.asarray(im.s_component)
    if q == "psf_sqnorm":
        return np.asarray(im.psf_hat_sqnorm())
    if q == "p_sqnorm":
        return np.asarray(im.p_sqnorm())
    if q == "psf_mid":
        return np.asarray(im.get_psf_xy(im.data.shape[0] / 2, im.data.shape[1] / 2))
    if q == "psf_edge":
        return np.asarray(im.get_psf_xy(3, im.data.shape[1] - 4))
    raise HarnessError(q)


def varpsf(im, lo, sh):
    a, b = im.get_variable_psf(inf_loss=lo, shape=sh)
    b = [x for x in b if isinstance(x, np.ndarray)]
    return np.stack(b), flds(a, im)


class Ids:
    """Value identities: equal up to rounding -> same number."""

    def __init__(self):
        self.reps = {}

    def get(self, q, v):
        lst = self.reps.setdefault(q, [])
        for i, r in enumerate(lst):
            if r.shape == v.shape and np.array_equal(np.isfinite(r), np.isfinite(v)):
                m = np.max(np.abs(np.nan_to_num(r))) if r.size else 0
                if np.max(np.abs(np.nan_to_num(r) - np.nan_to_num(v))) <= 1e-7 * m:
                    return i + 1
        lst.append(np.array(v, copy=True))
        return len(lst)


TABLES = {}


def table(kind, seed, losses, zps, shapes):
    key = (kind, seed)
    if key in TABLES:
        return TABLES[key]
    ids, rows = Ids(), []
    for sh in shapes:
        for lo in losses:
            for z in zps:
                # each quantity from a fresh image when parameters are at the
                # first value; one fresh image per parameter setting otherwise
                im = make(kind, seed)
                if sh == shapes[0] and lo == losses[0] and z == zps[0]:
                    rows.append(dict(q="sshape", shape=-1, loss=0, zp=0, v=1000 * im.stamp_shape[0] + im.stamp_shape[1]))
                im.inf_loss = LOSS[lo]
                im.zp = ZP[z]
                if sh:
                    im.get_variable_psf(shape=SHAPE[sh])
                for q in QS + ["vbasis", "vfields"]:
                    d = DEPS[q]
                    if ("l" not in d and lo != losses[0]) or ("z" not in d and z != zps[0]) or (
                            "s" not in d and sh != shapes[0]):
                        continue
                    if q in ("vbasis", "vfields"):
                        v = varpsf(im, None, None)[0 if q == "vbasis" else 1]
                    else:
                        one = make(kind, seed)
                        one.inf_loss = LOSS[lo]
                        one.zp = ZP[z]
                        if sh:
                            one.get_variable_psf(shape=SHAPE[sh])
                        v = read(one, q)
                        one._clean()
                    rows.append(dict(q=q, shape=sh, loss=lo, zp=z, v=ids.get(q.lstrip("v") if q in ("vbasis", "vfields") else q, v)))
                rows_sh = dict(q="sshape", shape=sh, loss=0, zp=0, v=1000 * im.stamp_shape[0] + im.stamp_shape[1])
                if rows_sh not in rows:
                    rows.append(rows_sh)
                im._clean()
    TABLES[key] = (ids, rows)
    return TABLES[key]


def run(c):
    kind, seed = c["kind"], c["iseed"]
    ids, rows = table(kind, seed, c["losses"], c["zps"], c["shapes"])
    im = make(kind, seed)
    evs = []
    for e in c["hist"]:
        ev = dict(op=e["op"], x=str(e["x"]), y=e["y"], lo=0, v=0, v2=0, raised="")
        try:
            if e["op"] == "read":
                ev["v"] = ids.get(e["x"], read(im, e["x"]))
            elif e["op"] == "varpsf":
                lo, sh = int(e["x"]), e["y"]
                ev["lo"] = lo
                b, f = varpsf(im, LOSS[lo] if lo else None, SHAPE[sh])
                ev["v"], ev["v2"] = ids.get("basis", b), ids.get("fields", f)
            elif e["op"] == "loss":
                im.inf_loss = LOSS[e["y"]]
            elif e["op"] == "zp":
                im.zp = ZP[e["y"]]
            elif e["op"] == "refresh":
                im.update_sources()
            else:
                raise HarnessError(e["op"])
        except HarnessError:
            raise
        except Exception as ex:
            ev["raised"] = type(ex).__name__
        ev["sshape"] = 1000 * im.stamp_shape[0] + im.stamp_shape[1]
        ev["ploss"] = {v: k for k, v in LOSS.items()}.get(im.inf_loss, 0)
        ev["pzp"] = {v: k for k, v in ZP.items()}.get(im.zp, 0)
        evs.append(ev)
        if ev["raised"]:
            break
    im._clean()
    return dict(events=evs, tab=rows, kind=kind)
