import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Design="%s"
INVARIANT CallersIntact RefusedBeforeUse RefusedExactly MaskIsUnion
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Design="sound"
INVARIANT Emit EmitPlain
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("SubCall", MC % "sound")
        for d, what in (("in-place", "aligned image written over the caller's"), ("late", "sizes checked after use"), ("first-mask", "mask of one input only")):
            ck.model_expect_violation("SubCall", MC % d, what)
        gen = sorted(ck.behaviours("SubCallGen", GEN), key=lambda g: (g["rel"], g["formr"], g["formn"], g["fitted"], g.get("sizes", "")))
        ck.notes["scenarios"] = len(gen)
        rng = np.random.default_rng(ck.seed * 37 + 13)
        per = dict(swap=36, self=14, twin=18, form=72, sizes=30, again=16, history=40, align=36)
        cs = []
        for rel in per:
            g = [x for x in gen if x["rel"] == rel]
            n = per[rel] if ck.quick else per[rel] * 9
            for j in range(n):
                x = g[int(rng.permutation(len(g))[0])] if n > len(g) else None
                x = x or g[(j * len(g)) // n]
                fit = rel in ("form", "again", "history") and rng.random() < 0.4
                steps = [["rnx"[int(rng.integers(3))], "rnx"[int(rng.integers(3))], str(rng.choice(["subtract", "subtract", "coadd", "bad"])), int(rng.integers(4))]
                         for _ in range(int(rng.integers(1, 4)))]
                cs.append(dict(x, id=f"{rel}-{j}-{x['formr']}-{x['formn']}-{'fitted' if x['fitted'] else 'own'}", seed=int(ck.seed * 10 + rng.integers(3 if ck.quick else 9)),
                               mask=bool(rng.random() < 0.6), loss=float(rng.choice([0.25, 0.1, 0.03])), beta=bool(fit and rng.random() < 0.5), shift=bool(fit and rng.random() < 0.5),
                               iterative=bool(rng.random() < 0.3), smooth=bool(rng.random() < 0.2 and rel in ("form", "again", "history")), oldname=bool(j % 3 == 1), cutfirst=bool(rng.random() < 0.5),
                               cut=["row", "col", "turn", "crop"][j % 4], steps=steps, formx=str(rng.choice(["array", "plain", "gauss", "fits"]))))
        cs.sort(key=lambda c: str([c[k] for k in ("seed", "mask", "fitted", "beta", "shift", "iterative", "loss", "smooth")]))
    recs = ck.run_cases("symw", cs, case_timeout=200)
    can = []
    seen = {}
    for r in recs:
        if "crash" in r or seen.setdefault(r["rel"], 0) > 2:
            continue
        seen[r["rel"]] += 1
        for k in ("pixels", "masks", "stamps", "sources"):
            can.append(dict(copy.deepcopy(r), **{k: False}))
        if r["rel"] == "sizes":
            can.append(dict(r, raised=""))
        elif r["rel"] == "align":
            can += [dict(r, **{k: False}) for k in ("masktype", "refmask", "newmask", "outside", "good", "grid")]
        else:
            can.append(dict(r, mask=False))
            can.append(dict(r, d=10**8, zero=10**8))
    ck.judge("SubCallTrace", recs, can, cs)
    return ck.finish("model_checking", "every pair of input forms x PSF class x relation enumerated by TLC (sampled), on three fields with and without bad pixels, "
                     "options and earlier calls drawn at random")
