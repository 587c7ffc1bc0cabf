"""Scenarios of the ingestion interface (spec/IngestGen) filled with pixels."""
import numpy as np


def fill(sc, i, rng, what):
    """A concrete case of scenario sc."""
    big = rng.random() < 0.15
    h, w = (int(rng.integers(9, 17)), int(rng.integers(9, 17))) if not big else (int(rng.integers(17, 26)), int(rng.integers(17, 26)))
    if rng.random() < 0.012:
        h, w = (int(v) for v in rng.integers(32, 42, 2))
    base = rng.integers(-40 * 4, 900 * 4, (h, w))
    integer = rng.random() < 0.35
    if integer:
        base = (base // 4) * 4
    kind = np.zeros((h, w), int)
    nb = int(rng.choice([0, 0, 1, 2, 3, 6]))
    g2 = int(rng.choice([2, 1, 3, 4]))
    for _ in range(nb):
        y, x = rng.integers(h), rng.integers(w)
        if rng.random() < .3:
            y, x = rng.choice([0, h - 1]), rng.choice([0, w - 1])
        k = rng.integers(0, 9)
        if k <= 2 and not integer:
            kind[y, x] = int(rng.integers(1, 4))
            base[y, x] = 0
        else:
            # values around the limits, before a gain of g2/2
            lim = int(rng.choice([-50, 65000]))
            v = lim * 8 // g2 + int(rng.choice([-4, -1, 0, 1, 4, 400, -400]))
            base[y, x] = (v // 4) * 4 if integer else v
            if rng.random() < .5:  # a pair, so that enlargement happens
                x2 = (x + 1) % w
                base[y, x2] = base[y, x]
                kind[y, x2] = 0
    c = dict(sc)
    c["what"] = what
    if c["borders"]:
        t, b, l, r = (int(v) for v in rng.integers(0, 4, 4))
        if rng.random() < .2:
            t = b = l = r = 0
        z = np.ones((h, w), bool)
        z[t:h - b, l:w - r] = False
        base[z] = 0
        kind[z] = 0
        if rng.random() < .5:  # zero pixels inside, and a corner beyond a hole
            base[rng.integers(h), :] = 0
            base[rng.integers(h), rng.integers(w)] = 0
        if rng.random() < .1:  # one far pixel on the rim
            base[0, rng.integers(w)] = 44
    crop = [0, 0, 0, 0]
    if c.pop("cropped"):
        crop = [int(v) for v in rng.integers(0, 3, 4)]
        if sum(crop) == 0:
            crop[int(rng.integers(4))] = 1
    # size of the window kept
    nz = (base != 0) | (kind != 0)
    if c["borders"] and nz.any():
        ys, xs = np.flatnonzero(nz.any(1)), np.flatnonzero(nz.any(0))
        wh, ww = ys[-1] + 1 - ys[0], xs[-1] + 1 - xs[0]
        y0, x0 = ys[0] + crop[0], xs[0] + crop[2]
    else:
        wh, ww = h, w
        y0, x0 = crop[0], crop[2]
    wh, ww = wh - crop[0] - crop[1], ww - crop[2] - crop[3]
    if wh < 3 or ww < 3:
        return None
    c.update(h=h, w=w, val=[int(v) for v in base.ravel()], kind=[int(v) for v in kind.ravel()], crop=crop)
    thresh = c.pop("thresh")
    if thresh:
        c["thresh"] = thresh
    th = thresh or 16
    level = c.pop("level")

    def marks(hh, wl, dens):
        if (hh, wl) == (h, w) and (wh, ww) != (h, w) and rng.random() < .35:
            # the median over the source is zero, over the window kept it is not
            m = np.zeros((h, w), int)
            inner = np.where(rng.random((wh, ww)) < .58, max(th - 1, 0), 0)
            m[y0:y0 + wh, x0:x0 + ww] = np.where(rng.random((wh, ww)) < dens, th + 1, inner)
            if np.median(m) == 0:
                return [int(v) for v in m.ravel()]
        if level == "flags":
            m = np.where(rng.random((hh, wl)) < dens, rng.choice([th, th + 1, th + 40], (hh, wl)), 0)
            near = rng.random((hh, wl)) < dens / 2
            m = np.where(near & (m == 0), max(th - 1, 0), m)
        else:
            m = np.where(rng.random((hh, wl)) < dens, rng.choice([0, th, max(th - 1, 0)], (hh, wl)), th + 50)
            near = rng.random((hh, wl)) < dens / 2
            m = np.where(near & (m > th), th + 1, m)
        return [int(v) for v in m.ravel()]
    dens = float(rng.choice([0., .01, .03, .08]))
    if c["given"] == "array":
        hh, wl = (wh, ww) if c["mwindow"] else (h, w)
        c["mvals"] = [int(v) for v in np.where(rng.random(hh * wl) < dens, rng.choice([1, 2, 16], hh * wl), 0)]
        c["mdtype"] = str(rng.choice(["bool", "u1", "i2", "i8", "f4"]))
        if c["mdtype"] in ("i2", "i8", "f4") and i % 2:  # flags of any sign
            c["mvals"] = [-v if rng.random() < .5 else v for v in c["mvals"]]
        if c["mdtype"] == "bool":
            c["mvals"] = [int(v != 0) for v in c["mvals"]]
    elif c["given"] == "file":
        hh, wl = (wh, ww) if c["mwindow"] else (h, w)
        c["mvals"] = marks(hh, wl, dens)
        c["mdtype"] = str(rng.choice(["u1", "i2", "i4"]))
    if c["given"] != "none":
        c["mh"], c["mw"] = int(hh), int(wl)
        # the same number of pixels in another shape would be ambiguous
        if c["mwindow"] and (hh, wl) == (h, w):
            c["mwindow"] = False
    if c["ext"]:
        c["more"] = bool(i % 3 == 0)
        c["evals"] = marks(h, w, dens)
        c["edtype"] = str(rng.choice(["u1", "i2", "i4"]))
    if c["src"] == "masked":
        own = rng.random((h, w)) < rng.choice([0, .03])
        if c["borders"] and nz.any() and rng.random() < .4:
            # the outermost lines that are not zero are all masked
            own[ys[0]] |= rng.random() < .7
            own[:, xs[-1]] |= rng.random() < .7
        c["own"] = [int(v) for v in own.ravel()]
        if not any(c["own"]):
            c["ownform"] = str(rng.choice(["full", "nomask"]))
    mode = rng.integers(4)
    if mode == 1:
        c["gain2"] = g2
    elif mode == 2:
        c["hgain2"] = g2
    elif mode == 3:
        c["gain2"], c["hgain2"] = g2, int(rng.choice([1, 2, 3, 4]))
    # a type that holds the values exactly
    v = base
    types = ["f8", "f4", ">f4", ">f8"]
    if integer and not kind.any():
        types += ["i4", ">i4"]
        if np.abs(v // 4).max() < 32000:
            types += ["i2", ">i2", "i2"]
        if v.min() >= 0 and (v // 4).max() < 65536:
            types += ["u2"]
        if v.min() >= 0 and (v // 4).max() < 256:
            types += ["u1"] * 3
    c["dtype"] = str(rng.choice(types))
    c["layout"] = str(rng.choice(["C", "C", "F", "view", "T"]))
    c["croptype"] = str(rng.choice(["t", "l"]))
    c["id"] = f"{what}-{i}"
    return c


def cases(ck, what, n):
    gen = ck.behaviours("IngestGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    rng = np.random.default_rng(ck.seed * 1000 + (1 if what == "mask" else 2))
    if what == "data":
        # the level of a mask value does not matter to the pixels
        gen = [g for g in gen if g["level"] == "flags" and g["thresh"] in (0, 1)]
    out, i = [], 0
    order = []
    while len(order) < n:
        order += [gen[j] for j in rng.permutation(len(gen))]
    for sc in order:
        if len(out) >= n:
            break
        c = fill(sc, i, rng, what)
        i += 1
        if c:
            out.append(c)
    return out, len(gen)
