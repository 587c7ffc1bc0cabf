import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Widths={%s} MaxOff=3 N=%d Design="%s"
INVARIANT GridOfFirst FirstUnchanged CallersIntact SkyCoincides MaskCovers CombinedMask GoodKept
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS N=%d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Align", MC % (("3,4", 2, "sound") if ck.quick else ("3,4", 3, "sound")))
        for d, what in (("no-bad", "bad pixels are forgotten"), ("no-edge", "places without data are not masked"), ("majority", "isolated bad pixels are lost between pixels"),
                        ("in-place", "the caller's images are altered"), ("own-grid", "aligned images keep their own grid"), ("backwards", "images are moved the wrong way"),
                        ("last-mask", "the result has one image's mask"), ("all-bad", "good pixels are masked")):
            ck.model_expect_violation("Align", MC % ("3,4", 2, d), what)
        gen = ck.behaviours("AlignGen", GEN % 3)
        rng = np.random.default_rng(ck.seed * 19 + 19)
        groups = {}
        for g in (gen[i] for i in rng.permutation(len(gen))):
            groups.setdefault((g["op"], g["bad"]), []).append(g)
        cs = []
        per = 8 if ck.quick else 60
        for k, gs in sorted(groups.items()):
            for g in gs[:per]:
                c = dict(g, seed=int(rng.integers(1, 10**6)), form=["objects", "objects", "array", "mixed"][int(rng.integers(4))], procs=int(rng.integers(1, 4)), loss=[0.1, 0.9][int(rng.integers(2))], beta=bool(rng.integers(2)),
                         cutfirst=bool(rng.integers(2)), gauss=bool(g["op"] == "coadd" and rng.integers(5) == 0))
                c["id"] = f"{g['op']}-{g['n']}-{g['turn']}-{g['size']}-{g['bad']}-{g['first']}-{'x'.join(map(str, g['off']))}-{len(cs)}"
                cs.append(c)
    recs = ck.run_cases("alignw", cs)
    ck.notes["registration_impossible"] = sum(1 for r in recs if r.get("skip"))
    recs = [r for r in recs if not r.get("skip")]
    can = []
    for i, r in enumerate(recs):
        if r.get("error") != "none" or not r.get("imgs") or not r["imgs"][0]["seen"] or len(can) > 60:
            continue
        x = copy.deepcopy(r)
        p = x["imgs"][0]["probes"]
        m = i % 6
        if m < 2 and not x["imgs"][0]["bad"]:
            m = 3
        if m == 0:
            for v in p:
                v[2] = 0
        elif m == 1:
            for v in p:
                v[3] = 0
        elif m == 2:
            for v in p:
                v[2] = 1
        elif m == 3:
            x["imgs"][0]["stars"] = 1000
        elif m == 4:
            x["clean"] = [1] * len(x["clean"])
            if not x["clean"]:
                continue
        else:
            x["same"] = 10**7
        can.append(x)
    ck.judge("AlignTrace", recs, can, cs)
    return ck.finish("model_checking", "TLC-enumerated pointings x turns x sizes x bad pixel patterns x operation, a sample of them rendered with known pointing; "
                     "every probed pixel of every aligned image and of the result mask judged by its true place in the source")
