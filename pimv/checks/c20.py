import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Widths={%s} Base <- %s Stars=%d Design="%s"
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT GInit
NEXT GNext
CONSTANTS Widths={1} Base <- BaseLong Stars=1 Design="sound"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
ALL = "SameStarsSameShape OutlierHarmless BranchFree"


def sampled(xx, yy, xy):
    """no width under nine tenths of a pixel"""
    return (xx + yy) / 2 - np.hypot((xx - yy) / 2, xy) >= 90


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        for base in ("BaseLong", "BaseRound"):
            ck.model_check("GaussPSF", MC % ("2,5,9", base, 3, "sound", ALL))
            ck.model_check("GaussPSF", MC % ("2,9" if ck.quick else "1,2,5,7,9", base, 12, "sound", ALL))
        ck.model_expect_violation("GaussPSF", MC % ("2,5,9", "BaseLong", 3, "parameters", "SameStarsSameShape"), "fitted widths averaged one by one")
        ck.model_expect_violation("GaussPSF", MC % ("2,5,9", "BaseLong", 12, "no-clip", "OutlierHarmless"), "stray stars count")
        gen = ck.behaviours("GaussPSFGen", GEN)
        gen = [g for g in gen if all(sampled(t["xx"], t["yy"], t["xy"]) for t in (g["base"], g["stray"]))]
        rng = np.random.default_rng(ck.seed * 7 + 20)
        pick = [gen[i] for i in rng.permutation(len(gen))[:160 if ck.quick else 1500]]
        cs = [dict(g, id=f"played-{i}", kind="played", seed=int(rng.integers(1, 10**6))) for i, g in enumerate(pick)]
        shapes = sorted({(g["base"]["xx"], g["base"]["yy"], g["base"]["xy"]) for g in gen})
        for i in range(200 if ck.quick else 3000):
            t = shapes[int(rng.integers(len(shapes)))] if i % 2 else [int(v) for v in (*rng.integers(110, 320, 2), rng.integers(-60, 61))]
            if not sampled(*t):
                t = shapes[0]
            cs.append(dict(id=f"fit-{i}", kind="fit", tensor=[int(v) for v in t], shape=[int(v) for v in rng.integers(17, 34, 2)],
                           offset=float(rng.choice([0, -1, 1, 30, .01])), seed=int(rng.integers(1, 10**6))))
        sky = [s for s in shapes if max(s[:2]) < 300]
        for i in range(36 if ck.quick else 300):
            cs.append(dict(id=f"sky-{i}", kind="sky", tensor=[int(v) for v in sky[i % len(sky)]], noise=float(rng.choice([1, 4, 10])), n=int(rng.integers(20, 32)),
                           early=["", "data"][i % 2], seed=int(rng.integers(1, 10**6))))
    recs = ck.run_cases("gaussw", cs)
    can = []
    for i, r in enumerate(recs):
        if len(can) > 40 or "kind" not in r:
            continue
        if r["kind"] == "played":
            m = len(can) % 4
            if m == 0:
                can.append(dict(copy.deepcopy(r), single=False))
            elif m == 1:
                can.append(dict(copy.deepcopy(r), seen=[10**6, 10**6, 0]))
            elif m == 2:  # a shape slightly off
                can.append(dict(copy.deepcopy(r), stars=[list(range(100, 113)), list(range(200, 213)), list(range(13))], seen=[10600, 20600, 640]))
            else:  # a stray star counted
                can.append(dict(copy.deepcopy(r), stars=[list(range(100, 119)) + [400], list(range(200, 219)) + [200], list(range(20))], seen=[12355, 20855, 950]))
        elif r["kind"] == "fit":
            can.append(dict(copy.deepcopy(r), fit=5000))
    ck.judge("GaussPSFTrace", recs, can, cs)
    return ck.finish("model_checking", "families of width tensors with strays enumerated by TLC, their stamps played to the PSF determination; noise-free Gaussians of "
                     "random shape, size and position to the fit; star fields of known shape for the whole chain")
