"""Subtractions of synthetic fields next to the closed form."""
import numpy as np
import scipy.optimize as so

_ls, _ms, _mm = so.least_squares, so.minimize_scalar, so.minimize


class Minimiser:
    """Stands before scipy's minimisers: answers for them, or listens."""

    def __init__(self):
        self.mode, self.answer, self.calls, self.probes = None, None, [], []

    def arm(self, mode, answer=None, probes=()):
        self.mode, self.answer, self.calls, self.probes = mode, answer, [], list(probes)

    def _note(self, fun, nd, bounds, args):
        lo = hi = None
        if bounds is not None:
            if hasattr(bounds, "lb"):
                lo, hi = bounds.lb, bounds.ub
            else:
                lo, hi = bounds
            lo, hi = np.broadcast_to(np.asarray(lo, float), nd), np.broadcast_to(np.asarray(hi, float), nd)
        call = dict(nd=nd, lo=lo, hi=hi, costs=[])
        for p in self.probes:
            if len(p) == nd:
                try:
                    v = fun(p[0] if self.scalar else np.array(p, float), *args)
                    v = np.asarray(np.ma.filled(v, np.nan), float).ravel()
                    call["costs"].append((tuple(p), float(v[0]) if v.size == 1 else float("nan")))
                except Exception as e:
                    call["costs"].append((tuple(p), float("nan")))
                    call["why"] = repr(e)
        self.calls.append(call)
        return call

    def _fake(self, nd, scalar):
        x = np.array(self.answer if self.answer else [5.0] + [0.8] * 2, float)[:nd] if nd else None
        if not self.answer:
            x = np.array({1: [7.0], 2: [0.8, -0.8]}.get(nd, [7.0, 0.8, -0.8]), float)[:nd]
        ok = bool(self.answer)
        return so.OptimizeResult(x=float(x[0]) if scalar else x, success=ok, status=1 if ok else 0, cost=1.0, fun=1.0 if scalar else np.array([1.0]),
                                 message="", nfev=3, njev=2, nit=2, optimality=0.0, jac=np.zeros((1, nd)), grad=np.zeros(nd))

    def least_squares(self, fun, x0, *a, **k):
        if self.mode is None:
            return _ls(fun, x0, *a, **k)
        nd = np.atleast_1d(np.asarray(x0, float)).size
        self.scalar = False
        bounds = k.get("bounds", a[1] if len(a) > 1 else None)
        call = self._note(fun, nd, bounds, k.get("args", ()))
        r = _ls(fun, x0, *a, **k) if self.mode == "own" else self._fake(nd, False)
        call["x"], call["ok"] = np.atleast_1d(r.x).astype(float), bool(r.success)
        return r

    def minimize_scalar(self, fun, *a, **k):
        if self.mode is None:
            return _ms(fun, *a, **k)
        self.scalar = True
        bounds = k.get("bounds", a[1] if len(a) > 1 else None)
        call = self._note(fun, 1, bounds, k.get("args", ()))
        r = _ms(fun, *a, **k) if self.mode == "own" else self._fake(1, True)
        call["x"], call["ok"] = np.atleast_1d(r.x).astype(float), bool(r.success)
        return r

    def minimize(self, fun, x0, *a, **k):
        if self.mode is None:
            return _mm(fun, x0, *a, **k)
        nd = np.atleast_1d(np.asarray(x0, float)).size
        self.scalar = False
        b = k.get("bounds")
        if b is not None and not hasattr(b, "lb"):
            b = np.array(b, float).T
        call = self._note(fun, nd, b, k.get("args", ()))
        r = _mm(fun, x0, *a, **k) if self.mode == "own" else self._fake(nd, False)
        call["x"], call["ok"] = np.atleast_1d(r.x).astype(float), bool(r.success)
        return r


MIN = Minimiser()
so.least_squares, so.minimize_scalar, so.minimize = MIN.least_squares, MIN.minimize_scalar, MIN.minimize

import sep  # noqa: E402
from astropy.modeling import fitting, models  # noqa: E402
from properimage import SingleImage  # noqa: E402
from properimage.operations import subtract  # noqa: E402
from properimage.single_image import SingleImageGaussPSF  # noqa: E402
from properimage.utils import transparency  # noqa: E402
from pimv import images  # noqa: E402
from pimv.obs import CAP, q, resid  # noqa: E402
from pimv.terms import Terms  # noqa: E402


def pair(c):
    shape = tuple(c["shape"])
    out = []
    for k in range(2):
        d = images.field(seed=c["seed"], shape=shape, n=c.get("stars", 26), sig=c.get("sig", [1.3, 1.3])[k], noise=c.get("noise", [4, 6])[k],
                         bg=c.get("bg", [300, 250])[k], scale=c.get("scale", [1.0, 1.7])[k], noise_seed=c["seed"] * 2 + k, margin=12, mind=8.0,
                         shift=(0, 0) if k == 0 else c.get("move", (0, 0)), var=c.get("var", 0.0))
        rng = np.random.default_rng([c["seed"], k, 3])
        m = np.zeros(shape, bool)
        kind = c.get("mask", "none")
        if kind in ("both", "ref" if k == 0 else "new"):
            y, x = rng.integers(20, shape[0] - 30), rng.integers(20, shape[1] - 30)
            m[y:y + 5, x:x + 4] = True
            m[shape[0] // 2 - 3:shape[0] // 2 + 4, shape[1] // 2 - 6 + 8 * k:shape[1] // 2 + 2 + 8 * k] = True
            d[rng.integers(5, shape[0] - 5), rng.integers(5, shape[1] - 5)] = np.nan
        out.append((d, m if m.any() else None))
    return out


def make(cls, dm):
    return cls(dm[0].copy(), mask=None if dm[1] is None else dm[1].copy())


def kept(v):
    k = np.ones(len(v), bool)
    for _ in range(6):
        m, s = np.median(v[k]), np.std(v[k])
        n = k & (np.abs(v - m) <= 3 * s)
        if n.sum() == k.sum():
            break
        k = n
    return k


def gauss_leaf(im, shape):
    """The mean fitted star, at the middle of the frame, by own fits."""
    fit = fitting.LevMarLSQFitter()
    ws = []
    for i in range(im.n_sources):
        a = np.asarray(im.db.load(i)[0])
        y, x = np.mgrid[: a.shape[0], : a.shape[1]]
        g = models.Gaussian2D(a.max() - a.min(), a.shape[1] / 2.0, a.shape[0] / 2.0, 1.0, 1.0, theta=np.pi / 4) + models.Const2D(a.min())
        p = fit(g, x, y, a, maxiter=1000)
        ws.append((p.x_stddev_0.value, p.y_stddev_0.value, p.theta_0.value))
    # a fit may come with its widths swapped and turned: average what does not depend on it
    sx, sy, th = np.array(ws).T
    c, s = np.cos(th), np.sin(th)
    cols = [sx * c * c + sy * s * s, sx * s * s + sy * c * c, (sx - sy) * s * c]
    keep = np.logical_and.reduce([kept(v) for v in cols])
    xx, yy, xy = (v[keep].mean() for v in cols)
    root = np.array([[xx, xy], [xy, yy]])
    prec = np.linalg.inv(root @ root)
    y, x = np.mgrid[: shape[0], : shape[1]]
    u, v = x - shape[1] / 2.0, y - shape[0] / 2.0
    return np.exp(-0.5 * (prec[0, 0] * u * u + 2 * prec[0, 1] * u * v + prec[1, 1] * v * v))


def leaves(c, cls, dms, loss):
    ims = [make(cls, d) for d in dms]
    shape = ims[0].data.shape
    zp, _ = transparency(ims)
    env = dict(zr=float(zp[0]), zn=float(zp[1]))
    for im, t, z in zip(ims, "rn", zp):
        im.zp = z
        env["clean" + t] = np.asarray(im.interped)
        env["s" + t] = float(im.var)
        env["filled" + t] = np.asarray(im.data.filled(0.0), float)
        env["back" + t] = sep.Background(np.ascontiguousarray(im.interped)).back()
        if cls is SingleImageGaussPSF:
            im.n_sources
            env["psf" + t] = gauss_leaf(im, shape)
        else:
            env["psf" + t] = np.asarray(im.get_variable_psf(loss)[1][0], float)
    env["mask"] = np.asarray(ims[0].data.mask) | np.asarray(ims[1].data.mask)
    return shape, env


def num(v):
    return "none" if v is None else [int(round(10 * float(x))) for x in v]


_memo = {}


def run(c):
    MIN.arm(None)
    o = c["o"]
    cls = SingleImageGaussPSF if o["fitted"] else SingleImage
    dms = pair(c)
    key = str([c.get(k) for k in ("shape", "seed", "stars", "sig", "noise", "bg", "scale", "move", "mask", "var", "loss")] + [o["fitted"]])
    if key not in _memo:
        _memo.clear()
        _memo[key] = leaves(c, cls, dms, c["loss"])
    shape, env = _memo[key]
    ref, new = make(cls, dms[0]), make(cls, dms[1])
    if c["ans"] == "own":
        MIN.arm("own", None, [])
    elif c["ans"] == "failed":
        MIN.arm("fake", None, c["probes"])
    else:
        MIN.arm("fake", c["found"], c["probes"])
    try:
        D, P, S, M = subtract(ref, new, inf_loss=c["loss"], beta=o["beta"], shift=o["shift"], iterative=o["iterative"], fitted_psf=o["fitted"])
    finally:
        calls = MIN.calls
        MIN.arm(None)
    us = c["unknowns"]
    env = dict(env)
    zpr = env["zn"] / env["zr"]
    vals = dict(b=zpr, dy=0.0, dx=0.0)
    ok = True
    if calls and c["ans"] != "failed":
        ok = calls[-1]["ok"]
        if ok:
            vals.update(zip(us, [float(v) for v in calls[-1]["x"]]))
    for u in us:
        env["found_" + u] = vals[u]
    e = Terms(shape, env).run(c["program"])
    rec = dict(kind="subtract", asked=c["asked"], unknowns=us, lower=c["lower"], upper=c["upper"], ncalls=len(calls), succeeded=ok,
               calls=[dict(nd=k["nd"], lo=num(k["lo"]), hi=num(k["hi"]), inside=bool(np.all(k["x"] >= np.array(c["lower"]) / 10 - 1e-9)
                           and np.all(k["x"] <= np.array(c["upper"]) / 10 + 1e-9)) if len(k["x"]) == len(us) else False) for k in calls],
               d=resid(D, e["D"]), p=resid(np.asarray(P), e["P"]), s=resid(np.asarray(S), e["Scorr"]),
               mask=bool(np.asarray(M).shape == shape and np.asarray(M).dtype == bool and np.array_equal(np.asarray(M), env["mask"])),
               real=bool(not np.iscomplexobj(P) and not np.iscomplexobj(S)), moved=int(round(1e6 * abs(vals["b"] / zpr - 1))) + int(round(1e6 * (abs(vals["dy"]) + abs(vals["dx"])))),
               costs=[], improved=True)
    # the cost the minimiser was given, up to a constant factor
    cm = env["mask"].copy()
    if "dy" in us:
        w = np.ones(shape, bool)
        w[100:-100, 100:-100] = False
        cm |= w
    seen = [x for k in calls for x in k["costs"]]
    if seen and not cm.all():
        base = None
        for p, v in seen:
            ee = dict(env, mask=cm, b=zpr, dy=0.0, dx=0.0)
            ee.update(zip(us, p))
            want = Terms(shape, ee).run(c["cost"])["cost"]
            if base is None:
                base = (v, want)
            elif np.isfinite(v) and base[0] > 0:
                rec["costs"].append(q(v / base[0] - want / base[1], 1e9))
            else:
                rec["costs"].append(CAP)
    if c["ans"] == "own" and calls and ok and not cm.all() and c["asked"] != "nothing":
        cost = []
        for p in ([zpr if u == "b" else 0.0 for u in us], calls[-1]["x"]):
            ee = dict(env, mask=cm, b=zpr, dy=0.0, dx=0.0)
            ee.update(zip(us, p))
            cost.append(Terms(shape, ee).run(c["cost"])["cost"])
        rec["improved"] = bool(cost[1] <= cost[0] * (1 + 1e-6))
        rec["note"] = f"{zpr:.4f} {calls[-1]['x']} {cost}"
    return rec
