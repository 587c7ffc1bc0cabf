import copy
import json
import os

import numpy as np

MC = """INIT Init
NEXT Next
CONSTANTS Q=7 Noises=%s Pixels=%s Psfs=%s Broken="%s" Kinds={"coadd?"}
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
LAWS = "OrderFree UnitFree Doubling"
GEN = """INIT Init
NEXT Next
CONSTANTS Pool={0,1,2,3,4} MaxN=%d MaxK=30 Losses={%s} Procs={1,2,3,5}
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
LOSSES = "250, 100, 30, 10, 2"


def main(ck):
    top = 3 if ck.quick else 5
    pieces = next(g for g in ck.behaviours("ProperGen", GEN % (top, "250", "EmitPieces")) if "pieces" in g)
    path = os.path.join(ck.work, "pieces.json")
    with open(path, "w") as f:
        json.dump(pieces, f)
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        small = ("{1,2}", "{0,2,5}", "{1,3}")
        size = small if ck.quick else ("{1,2,4}", "{0,1,2,3,4,5,6}", "{1,3,5}")
        ck.model_check("ProperMC", MC % (*size, "", LAWS), timeout=840)
        ck.model_expect_violation("ProperMC", MC % (*small, "weight", LAWS), "one image weighted twice by its zero point")
        ck.model_expect_violation("ProperMC", MC % (*small, "", "VacuousCoadd"), "laws without a state that has the roots")
        singles = ck.behaviours("ProperGen", GEN % (1, LOSSES, "Emit"))
        gen = ck.behaviours("ProperGen", GEN % (top, LOSSES, "Emit"), extra=["-simulate", f"num={1500 if ck.quick else 6000}", "-depth", "12", "-seed", str(ck.seed * 7 + 1)], workers=1)
        rng = np.random.default_rng(ck.seed * 29 + 9)
        gen = [g for g in gen if len(g.get("imgs", [])) > 1]
        singles = [g for g in singles if "imgs" in g]
        ck.notes["scenarios_generated"] = len(gen) + len(singles)
        pick = [singles[i] for i in rng.permutation(len(singles))[:12 if ck.quick else 120]] + [gen[i] for i in rng.permutation(len(gen))[:56 if ck.quick else 900]]
        cs = []
        for j, g in enumerate(pick):
            cs.append(dict(g, id=f"coadd-{j}-" + "".join(str(x["img"]) for x in g["imgs"]) + f"-{g['loss']}-p{g['procs']}", group="abc"[j % 3], tuple=bool(j % 7 == 3), oldname=bool(j % 5 == 2)))
        cs.sort(key=lambda c: c["group"])
    recs = ck.run_cases("coaddreal", cs, case_timeout=200, env={"PIMV_PIECES": path})
    can = []
    for r in recs:
        if "crash" in r or len(can) > 20:
            continue
        for k in ("r", "p", "sum", "order"):
            can.append(dict(copy.deepcopy(r), **{k: 10**7}))
        for k in ("mask", "pixels", "list"):
            can.append(dict(copy.deepcopy(r), **{k: False}))
    ck.judge("ProperTrace", recs, can, cs)
    ck.notes["component_counts"] = sorted({tuple(r["ks"]) for r in recs if "ks" in r})[:40]
    return ck.finish("model_checking", "TLC-generated image sets, orders, input forms, earlier computations, worker numbers and losses replayed on synthetic fields and "
                     "compared with the terms of the closed form; laws of the closed form for all values in a field of seven elements")
