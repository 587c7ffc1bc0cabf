import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Found={%s} Minimum={%s} KeepLonger=%s
INVARIANT LadderAsPromised ResultAsPromised FailureComesOut NeverFewerThanFound
%s
CHECK_DEADLOCK FALSE
"""
SIZE = """SPECIFICATION Spec
CONSTANTS Sizes={%s} Most=%d MakeOdd=%s FromStars=%s
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT GNext
CONSTANTS Found={%s} Minimum={%s} KeepLonger=TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Detect", MC % ("0,1,2,4,5,9", "0,2,5,20", "TRUE", "PROPERTY Ends" if not ck.quick else ""))
        ck.model_expect_violation("Detect", MC % ("0,1,2,5", "2,5", "FALSE", ""), "fewer sources than were found before")
        ck.model_check("StampSize", SIZE % (("1,5,9,12,26,49,81", 5, "TRUE", "TRUE", "HasCentre AsPromised Holds") if ck.quick else
                               ("1,2,5,9,12,16,26,49,81", 7, "TRUE", "TRUE", "HasCentre AsPromised Holds")))
        ck.model_expect_violation("StampSize", SIZE % ("1,5,9,12,26", 3, "FALSE", "TRUE", "HasCentre"), "stamps of even size have no centre")
        ck.model_expect_violation("StampSize", SIZE % ("1,5,9,12,26", 4, "TRUE", "FALSE", "AsPromised"), "size of the largest source")
        gen = ck.behaviours("DetectGen", GEN % ("0,1,2,4,12,30", "0,2,6,20,35"))
        rng = np.random.default_rng(ck.seed * 3 + 6)
        # one behaviour per distinct run of the ladder, then more at random
        seen, pick, rest = set(), [], []
        for g in [gen[i] for i in rng.permutation(len(gen))]:
            o, m = g["o"], g["min"]
            f = o["default"] if o["default"] >= 0 else o["high"]
            s = o["low"] if o["low"] >= 0 else o["lowbig"]
            k = (o["default"] >= 0, f, m, None if f < 0 or f >= m else (o["low"] >= 0, s))
            (rest if k in seen else pick).append(g)
            seen.add(k)
        pick += rest[:200 if ck.quick else 3000]
        styles = ["plain", "ties", "flagged", "allflag", "clean", "plain", "ties"]
        cs = [dict(id=f"ladder-{i}", o=g["o"], min=None if g["min"] == 20 and i % 2 else g["min"], style=styles[i % 7],
                   iseed=int(rng.integers(1, 10**6))) for i, g in enumerate(pick)]
        for i in range(400 if ck.quick else 4000):  # filter on catalogues of many sizes
            n = int(rng.integers(2, 80))
            cs.append(dict(id=f"filter-{i}", o=dict(default=n, high=-1, low=int(rng.integers(0, 80)), lowbig=-1), min=2 if i % 3 else 15,
                           style=styles[i % 7], iseed=int(rng.integers(1, 10**6)), far=i % 4 == 0))
        for i, n in enumerate([19, 20, 21, 19, 20, 21]):  # the usual minimum
            cs.append(dict(id=f"minimum-{n}-{i}", o=dict(default=n, high=-1, low=n + 5 * (i % 2), lowbig=-1), min=None, style=styles[i], iseed=int(rng.integers(1, 10**6))))
        for i, n in enumerate([1799, 1800, 1801, 2500, 4200, 5200, 6500]):
            cs.append(dict(id=f"many-{n}", o=dict(default=n, high=-1, low=-1, lowbig=-1), min=20,
                           style=["clean", "clean", "clean", "allflag", "plain", "plain", "allflag"][i], iseed=int(rng.integers(1, 10**6))))
        for i in range(8):  # hardly any structure at all
            cs.append(dict(id=f"flat-{i}", o=dict(default=[1, 0, 1, 5][i % 4], high=-1, low=[1, 1, 0, 6][i % 4], lowbig=-1), min=[2, 0][i // 4], style="plain", flat=[0.1, 2.0][i % 2],
                           iseed=int(rng.integers(1, 10**6))))
        reals = ["constant", "single", "4", "9", "18", "26"]
        for i in range(18 if ck.quick else 120):
            cs.append(dict(id=f"real-{reals[i % 6]}-{i}", real=reals[i % 6], o=None, min=[None, 3, 12][i % 3], style="", iseed=int(rng.integers(1, 10**6))))
    recs = ck.run_cases("detect", cs)
    can = []
    for r in recs:
        if len(can) < 30 and r.get("result") in ("first", "second") and len(r["kept"]) > 1:
            can.append(dict(copy.deepcopy(r), kept=r["kept"] + r["kept"][:1]))
            if r["result"] == "first" and r["o"]["default"] > r["min"]:
                can.append(dict(copy.deepcopy(r), result="second"))
            can.append(dict(copy.deepcopy(r), calls=r["calls"] + [[3, 9], [3, 9]]))
            can.append(dict(copy.deepcopy(r), kept=[99999]))
            if r.get("usual"):
                n = r["usual"]["shape"][0] + (2 if len(can) % 2 else -2 if r["usual"]["shape"][0] > 5 else 1)
                can.append(dict(copy.deepcopy(r), usual=dict(r["usual"], shape=[n, n])))
    ck.judge("DetectTrace", recs, can, cs)
    res = [r.get("result") for r in recs]
    ck.notes["results"] = {k: res.count(k) for k in set(map(str, res))}
    return ck.finish("model_checking", "every distinct run of the detection ladder enumerated by TLC and played to the code by a scripted "
                     "detector; catalogues of 2 to 5200 rows with ties and flags for the filter; real detector watched on synthetic images")
