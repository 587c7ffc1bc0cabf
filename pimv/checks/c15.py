import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS N=%d R=%d Values={%s} Design="%s"
INVARIANT Finite GoodKept Independent WithinRange
%s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT GInit
NEXT Stay
CONSTANTS N=%d R=1 Values={0} Design="sound"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
KINDS = [["mask"], ["nan"], ["mask", "nan"], ["hot"], ["mask", "inf", "cold", "nan", "hot"], ["inf"], ["cold", "mask"]]


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Clean", MC % (4, 1, "0,2,5", "sound", "PROPERTY Ends"))
        if not ck.quick:
            ck.model_check("Clean", MC % (5, 1, "0,2,5", "sound", ""))
            ck.model_check("Clean", MC % (5, 2, "1,4", "sound", ""))
        for d, what in (("leak", "replaced pixels depend on bad values"), ("rays-kept", "cosmic rays stay"), ("holes", "wide bad regions stay without a number"),
                        ("smooth", "good pixels altered")):
            ck.model_expect_violation("Clean", MC % (4, 1, "0,2,5", d, ""), what)
        gen = ck.behaviours("CleanGen", GEN % 6)
        rng = np.random.default_rng(ck.seed * 11 + 15)
        cs = []
        n = len(gen) if ck.quick else len(gen) * 10
        for i in range(n):
            g = gen[i % len(gen)]["cls"]
            b = [5, 3, 8, 12, 14, 1][int(rng.integers(6))]
            kinds = KINDS[i % len(KINDS)]
            cs.append(dict(id=f"blocks-{i}", cls=[g[str(k)] if isinstance(g, dict) else g[k - 1] for k in range(1, 7)], grid=[[2, 3], [3, 2], [6, 1], [1, 6]][int(rng.integers(4))], block=b,
                           pad=[int(x) for x in rng.choice([0, 0, 1, 7, 13], 2)], flip=[int(x) for x in rng.integers(0, 2, 2)], kinds=kinds, mixed=len(kinds) > 1,
                           detector="told" if i % 4 else "real", gauss=i % 5 == 2, emptymask=bool(i % 2), bg=float(rng.choice([0.0, 200.0, 40.0])), integer=i % 9 == 4,
                           isolated=False, seed=int(rng.integers(1, 10**6))))
        for i in range(24 if ck.quick else 200):
            cs.append(dict(id=f"spikes-{i}", cls=["good", "good", "bad" if i % 2 else "good", "good", "good", "good"], grid=[2, 3], block=[14, 20, 17][i % 3], pad=[3, 0], flip=[0, 0],
                           kinds=["mask"], mixed=False, detector="real", gauss=False, emptymask=False, bg=300.0, integer=False, isolated=True, ray=[9000.0, 650.0, 1300.0, 900.0][i % 4], seed=int(rng.integers(1, 10**6))))
        for i in range(8 if ck.quick else 60):
            cs.append(dict(id=f"large-{i}", cls=[str(rng.choice(["good", "bad", "ray"])) for _ in range(5)] + ["good"], grid=[2, 3], block=[40, 33][i % 2], pad=[5, 2], flip=[i % 2, 0],
                           kinds=KINDS[i % 7], mixed=len(KINDS[i % 7]) > 1, detector="told" if i % 2 else "real", gauss=False, emptymask=False, bg=300.0, integer=False, isolated=False,
                           seed=int(rng.integers(1, 10**6))))
    recs = ck.run_cases("cleanw", cs, case_timeout=60)
    skipped = sum(1 for r in recs if r.get("skipped"))
    if sum(1 for r in recs if r.get("nodetector")):
        ck.notes["detector_not_replaceable"] = True
    recs = [r for r in recs if not r.get("skipped")]
    can = []
    for r in recs:
        if len(can) > 40:
            break
        if "cls" not in r or not r["shape"] or r["w"] * r["h"] > 1500:
            continue
        bad = [(y, x) for y in range(r["h"]) for x in range(r["w"]) if r["cls"][y][x]]
        good = [(y, x) for y in range(r["h"]) for x in range(r["w"]) if not r["cls"][y][x]]
        if bad and good and not r["whole"]:
            x = copy.deepcopy(r)
            x["kept"][good[0][0]][good[0][1]] = 0
            can.append(x)
            x = copy.deepcopy(r)
            x["kept"][bad[0][0]][bad[0][1]], x["obs"][bad[0][0]][bad[0][1]] = 1, 5
            can.append(x)
            x = copy.deepcopy(r)
            for y, z in bad:
                x["obs"][y][z] = 10**8
            can.append(x)
            can.append(dict(copy.deepcopy(r), finite=False))
            can.append(dict(copy.deepcopy(r), twin=10**6))
    ck.judge("CleanTrace", recs, can, cs)
    ok = [r for r in recs if "cls" in r]
    ck.notes.update(images=len(ok), skipped=skipped, bad_pixels=sum(sum(1 for y in r["cls"] for v in y if v) for r in ok))
    return ck.finish("model_checking", "every arrangement of good, bad and cosmic-ray blocks on six blocks enumerated by TLC, rendered at block sizes from one pixel to more than the "
                     "interpolation window, with bad pixels made by masks, NaN, infinities and out-of-range values; every pixel judged")
