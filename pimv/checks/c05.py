import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS MaxCand=%d Kinds={"good","rough","several"} FewLimit=2 KeepLimit=2 Guarded=%s
INVARIANT PickedAsPromised StoreAgrees CatalogueAsPromised InOrder
PROPERTY CutOnce
CHECK_DEADLOCK FALSE
"""
GEN = "INIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Stamps", MC % (4 if ck.quick else 6, "TRUE"))
        ck.model_expect_violation("Stamps", MC % (3, "FALSE"), "stamps cut again on access after a shape was asked for")
        gen = ck.behaviours("StampsGen", GEN)
        rng = np.random.default_rng(ck.seed * 13 + 5)
        strict = [g for g in gen if g["strict"] and g["count"][0] > 20]
        few = [g for g in gen if g["strict"] and g["count"][0] <= 20]
        lax = [g for g in gen if not g["strict"]]
        k = 12 if not ck.quick else 3
        sel = []
        for pool, n in ((strict, 130 * k), (few, 40 * k), (lax, 40 * k)):
            sel += [pool[i] for i in rng.permutation(len(pool))[:n]]
        cs = [dict(id="pick-%s-%d-%d-%d-%s-%s-%d" % ("strict" if g["strict"] else "lax", *g["count"], g["shape"], g["bad"], g["first"], i),
                   strict=g["strict"], ngood=g["count"][1], nbad=g["count"][0] - g["count"][1], shape=g["shape"] if g["count"][1] > 3 else g["shape"] or 9, bad=g["bad"],
                   first=g["first"], iseed=int(rng.integers(1, 10**6))) for i, g in enumerate(sel)]
    recs = ck.run_cases("stamps", cs)
    can = []
    for r in recs:
        if "cands" not in r or len(r["picked"]) < 2:
            continue
        if len(can) < 24:
            r2 = copy.deepcopy(r)
            r2["picked"] = r2["picked"][:-1]
            r2["n"] = r2["nstore"] = len(r2["picked"])
            if not r["strict"]:
                can.append(r2)
            r3 = copy.deepcopy(r)
            r3["cat"] = r3["cat"][1:]
            r3["stampres"][0] = 2000
            can.append(r3)
            can.append(dict(copy.deepcopy(r), n=r["n"] + 1))
    ck.judge("StampsTrace", recs, can, cs)
    ok = [r for r in recs if "cands" in r]
    ck.notes["candidates_measured"] = sum(len(r["cands"]) for r in ok)
    ck.notes["stamps_compared"] = sum(len(r["stampres"]) for r in ok)
    ck.notes["selections_with_rejections"] = sum(len(r["picked"]) < len(r["cands"]) for r in ok)
    return ck.finish("model_checking", "numbers and kinds of candidates around both limits, stamp shape, strictness and first access "
                     "enumerated by TLC, realised as star fields with catalogues of good, offset, noise, double, sharp, ringed and edge candidates")
