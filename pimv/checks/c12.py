import copy

import numpy as np

MC = """INIT Init
NEXT Next
CONSTANTS Q=7 Noises=%s Pixels=%s Psfs=%s Broken="%s" Kinds={"sub?"}
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
LAWS = "SwapNegates SwapKeepsPsf NewSource SelfIsZero ScaleFree"
GEN = "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def scenarios(ck, gen, rng, reps):
    cs = []
    for i, g in enumerate(gen):
        us = g["unknowns"]
        for rep in range(reps):
            shape = [[96, 110], [118, 91], [97, 112], [100, 100], [99, 101]][(i + rep) % 5]
            big = "dy" in us and (i + rep) % (4 if ck.quick else 2) == 0
            if big:
                shape = [[222, 231], [237, 216]][rep % 2]
            lo, hi = np.array(g["lower"]) / 10, np.array(g["upper"]) / 10
            found = [float(np.exp(rng.uniform(np.log(0.11), np.log(9.5)))) if u == "b" else float(rng.choice([rng.uniform(-0.9, 0.9), rng.uniform(0.5, 0.9), 0.0], p=[.5, .3, .2]))
                     for u in us]
            if g["ans"] == "edge":
                found = [float(rng.choice([a, b])) for a, b in zip(lo, hi)]
            probes = [[float(rng.uniform(0.4, 4)) if u == "b" else float(rng.uniform(-0.9, 0.9)) for u in us] for _ in range(4)] if us and ("dy" not in us or big) else []
            if probes and "dy" in us:
                probes[0] = [1.1 if u == "b" else 0.0 for u in us]
                probes[1] = [1.1 if u == "b" else (0.7 if u == "dy" else -0.2) for u in us]
                probes[2] = [1.1 if u == "b" else (0.2 if u == "dy" else -0.8) for u in us]
            cs.append(dict(g, id=f"{g['asked']}-{g['ans']}-{'fitted' if g['o']['fitted'] else 'own'}{'-iter' if g['o']['iterative'] else ''}-{rep}", shape=shape,
                           seed=int(ck.seed * 100 + (i + 7 * rep) % 9), found=found, probes=probes, stars=80 if big else 26,
                           sig=[[1.3, 1.3], [1.2, 1.5], [1.5, 1.25]][(i // 3 + rep) % 3], noise=[[4, 6], [8, 3]][(i + rep) % 2],
                           scale=[[1.0, 1.7], [1.0, 0.6], [2.0, 1.0]][(i // 2 + rep) % 3], mask=["none", "both", "ref", "new"][(i + 3 * rep) % 4],
                           loss=[0.25, 0.1, 0.02][(i + rep) % 3], var=[0.0, 0.3][(i // 5) % 2]))
    return cs


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        if ck.quick:
            size = ("{1,2}", "{0,2,5}", "{1,3}")
        else:
            size = ("{1,2,3}", "{0,1,2,3,4,5,6}", "{1,2,3}")
        ck.model_check("ProperMC", MC % (*size, "", LAWS), timeout=840)
        ck.model_expect_violation("ProperMC", MC % ("{1,2}", "{0,2,5}", "{1,3}", "norm", LAWS), "noise weights not squared in the scale")
        ck.model_expect_violation("ProperMC", MC % ("{1,2}", "{0,2,5}", "{1,3}", "", "Vacuous"), "laws without a state that has the roots")
        gen = ck.behaviours("SubtractGen", GEN)
        ck.notes["scenarios"] = len(gen)
        cs = scenarios(ck, sorted(gen, key=lambda g: str(g["o"]) + g["ans"]), np.random.default_rng(ck.seed * 23 + 12), 3 if ck.quick else 12)
    recs = ck.run_cases("subw", cs, case_timeout=200)
    can = []
    for r in recs:
        if "crash" in r or len(can) > 24:
            continue
        for k in "dps":
            can.append(dict(copy.deepcopy(r), **{k: 10**8}))
        can.append(dict(copy.deepcopy(r), mask=False))
        if r["calls"]:
            c = copy.deepcopy(r)
            c["calls"][0]["hi"][0] += 1
            can.append(c)
            can.append(dict(copy.deepcopy(r), asked="nothing"))
    ck.judge("SubtractTrace", recs, can, cs)
    ck.notes["costs_compared"] = sum(len(r.get("costs", [])) for r in recs)
    ck.notes["moved"] = sum(r.get("moved", 0) > 1000 for r in recs)
    return ck.finish("model_checking", "every option set x answer of the minimiser enumerated by TLC, each on synthetic fields of several shapes, widths, "
                     "noises, flux scales and masks; laws of the closed form for all values in a field of seven elements")
