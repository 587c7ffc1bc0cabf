import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS W=%d Values={%s} Hidden={%s} Raise=5 Scale=3 Leak="%s"
INVARIANT %s
%s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
ALL = "Blind ShiftLaw ScaleLaw ConstantSky GoodKept Between"


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Sky", MC % ((5, "0,1,7", "0,90", "none", ALL, "PROPERTY Finishes") if ck.quick else (6, "0,1,7", "0,3,90", "none", ALL, "PROPERTY Finishes")))
        for leak in ("sky", "noise", "detect", "clean", "register"):
            ck.model_expect_violation("Sky", MC % (5, "0,1,7", "0,90", leak, "Blind", ""), f"bad pixels looked at: {leak}")
        ck.model_expect_violation("Sky", MC % (6, "1,7", "0,90", "sky", "ConstantSky", ""), "a constant sky is missed")
        gen = ck.behaviours("SkyGen", GEN)
        rng = np.random.default_rng(ck.seed * 11 + 21)
        cs = []
        # every route with every pattern, and every law with every pattern
        groups = {}
        for g in [gen[i] for i in rng.permutation(len(gen))]:
            k = ("twin", g["route"], g["bad"]) if g["kind"] == "twin" else ("law", g["law"], g["bad"])
            groups.setdefault(k, []).append(g)
        for k in sorted(groups):
            n = (4 if k[1] in ("image", "gauss") else 2) if k[0] == "twin" else 5
            for j, g in enumerate(groups[k][:n if ck.quick else 12 * n]):
                cs.append(dict(g, id="-".join((*k, str(j))), seed=int(rng.integers(1, 10**6))))
    recs = ck.run_cases("skyw", cs)
    can = []
    for r in recs:
        if len(can) > 40 or "kind" not in r:
            continue
        t = copy.deepcopy(r)
        if r["kind"] == "twin":
            if len(can) % 3 == 2:
                t["reads"][-1]["sub"] = 10**6
            else:
                t["made"][len(can) % len(t["made"])][1] = 10**7
        else:
            k = ["sky", "noise", "subtracted"][len(can) % 3]
            t[k] = t[{"sky": "skytol", "noise": "noisetol", "subtracted": "subtol"}[k]] + 1
        can.append(t)
    ck.judge("SkyTrace", recs, can, cs)
    fine = [r["fine"] for r in recs if r.get("kind") == "twin" and "fine" in r]
    ck.notes["twins with every product"] = sum(fine)
    ck.notes["twins"] = len(fine)
    return ck.finish("model_checking", "bad-pixel patterns, values stored in them, laws and routes enumerated by TLC; every product of both twins compared, "
                     "sky and noise compared with the true ones")
