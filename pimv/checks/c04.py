import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS N=%d Total=%d Clamped=%s
INVARIANT CutIsShortest CutInRange LoopInvariant Monotone AcceptIsShortest
%s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT GInit
NEXT GNext
CONSTANTS N=%d Total=%d Clamped=TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
LOSSES = [0.9999, 0.9, 0.6, 0.4, 0.3, 0.2, 0.15, 0.1, 0.06, 0.03, 0.02, 0.01, 0.006, 0.003, 0.001, 1e-4, 1e-9, 0.0]


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        n, t = (4, 8) if ck.quick else (6, 14)
        ck.model_check("KL", MC % (n, t, "TRUE", "PROPERTY Terminates"))
        ck.model_expect_violation("KL", MC % (n, t, "FALSE", ""), "more components than stars")
        gen = ck.behaviours("KLGen", GEN % ((5, 8) if ck.quick else (7, 16)))
        rng = np.random.default_rng(ck.seed * 7 + 4)
        cs = [dict(id=f"spectrum-{'-'.join(map(str, g['p']))}-loss-{g['loss2']}h", kind="inject", iseed=3, p=g["p"], loss2=g["loss2"])
              for g in gen if len(g["p"]) > 1]
        if ck.quick and len(cs) > 320:
            cs = [cs[i] for i in sorted(rng.permutation(len(cs))[:320])]
        for i in range(24 if ck.quick else 150):
            shape = [(128, 128), (112, 136), (144, 120), (112, 112)][i % 4]
            lo = [LOSSES[j] for j in rng.permutation(len(LOSSES))[:6]]
            cs.append(dict(id=f"field-{i}", kind="field", iseed=int(rng.integers(1, 10**6)), shape=shape, n=[18, 26, 34, 24, 30][i % 5],
                           var=[0.0, 0.5, 0.9, 0.7][i % 4], sig=1.5, noise=[2.0, 4.0, 8.0][i % 3], smooth=i % 6 == 5, strict=i % 5 == 2,
                           mind=6.0 if i % 5 in (1, 4) else 8.0, losses=lo, via="call" if i % 2 else "set"))
        for i in range(3 if ck.quick else 12):
            cs.append(dict(id=f"field-rich-{i}", kind="field", iseed=int(rng.integers(1, 10**6)), shape=(200, 190), n=70,
                           var=[0.6, 0.9, 0.0][i % 3], sig=1.4, noise=3.0, smooth=False, strict=False, mind=8.0, losses=[0.3, 0.1, 0.03, 0.01], via="set"))
        cs.append(dict(id="field-many", kind="field", many=253, iseed=11, shape=(112, 112), n=18, var=0.5, sig=1.5, noise=3.0, smooth=False,
                       strict=False, losses=[0.3, 0.05], via="set"))
    recs = ck.run_cases("kl", cs, case_timeout=400)
    can = []
    for r in recs:
        if "cuts" not in r:
            continue
        if r["kind"] == "inject" and len(can) < 8:
            r2 = copy.deepcopy(r)
            r2["cuts"][0]["n"] += 1
            can.append(r2)
        if r["kind"] == "field" and len(can) < 24:
            for f in ("comp", "fld"):
                r2 = copy.deepcopy(r)
                for c in r2["cuts"]:
                    if c[f]:
                        c[f][-1] = 10**8
                        can.append(r2)
                        break
    ck.judge("KLTrace", recs, can, cs)
    fl = [r for r in recs if r.get("kind") == "field"]
    ck.notes["images"] = len(fl)
    ck.notes["bases_observed"] = sum(len(r["cuts"]) for r in recs if "cuts" in r)
    ck.notes["component_counts_seen"] = sorted({c["n"] for r in fl for c in r.get("cuts", ())})
    return ck.finish("model_checking", "every decreasing integer spectrum x loss enumerated by TLC injected as eigenvalues of a real image; "
                     "random star fields x information losses compared with the principal components of their stored stamps")
