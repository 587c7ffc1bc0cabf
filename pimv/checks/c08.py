import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS MaxImages=%d MaxWorkers=%d Split="%s" Shared=%s
INVARIANT EachImageOnce NeverTwice SplitIsSplit
%s
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS MaxImages=%d MaxWorkers=%d Split="proportional" Shared=FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
SEQS = ["list", "tuple", "array", "rows", "str", "objects", "descending", "arrays", "range"]


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Coadd", MC % (4, 3 if ck.quick else 5, "proportional", "FALSE", "" if ck.quick else "PROPERTY Ends"))
        ck.model_expect_violation("Coadd", MC % (5, 3, "stepping", "FALSE", ""), "chunks that are empty or too many")
        ck.model_expect_violation("Coadd", MC.replace(" NeverTwice SplitIsSplit", "") % (3, 2, "proportional", "TRUE", ""),
                                  "contributions lost in a common sum")
        rng = np.random.default_rng(ck.seed * 19 + 8)
        cs = []
        top = 24 if ck.quick else 60
        for n in range(0, top):
            for k in range(1, top + 4):
                kinds = SEQS if n < 9 and k < 11 else [SEQS[int(rng.integers(len(SEQS)))]]
                for s in kinds:
                    if s == "str" and n > 60:
                        continue
                    cs.append(dict(id=f"chunks-{s}-{n}-{k}", kind="chunks", seq=s, n=n, k=k))
        gen = ck.behaviours("CoaddGen", GEN % ((4, 4) if ck.quick else (5, 4)))
        ck.notes["interleavings"] = len(gen)
        cap = 350 if ck.quick else 4000
        if len(gen) > cap:
            gen = [gen[i] for i in sorted(rng.permutation(len(gen))[:cap])]
        big = ck.behaviours("CoaddGen", GEN % (9, 6), extra=["-simulate", f"num={60 if ck.quick else 600}", "-depth", "60", "-seed", str(ck.seed * 5)], workers=1)
        gen += [big[i] for i in rng.permutation(len(big))[:80 if ck.quick else 600]]
        for i, g in enumerate(gen):
            cs.append(dict(id=f"coadd-{i}-{g['n']}by{g['k']}", kind="coadd", both=bool(i % 2), **g))
        for n in range(1, 8 if ck.quick else 16):
            for k in range(1, 11 if ck.quick else 20):
                cs.append(dict(id=f"free-{n}by{k}", kind="coadd", n=n, k=k, order=[]))
    recs = ck.run_cases("coaddw", cs)
    can = []
    for r in recs:
        if len(can) > 24:
            break
        if r.get("kind") == "chunks" and r["n"] > 2 and len(can) < 10:
            can.append(dict(copy.deepcopy(r), chunks=r["chunks"][1:]))
            can.append(dict(copy.deepcopy(r), chunks=r["chunks"] + [[]], k=99))
        if r.get("kind") == "coadd" and r["images"]:
            can.append(dict(copy.deepcopy(r), images=r["images"][:-1] + [2000]))
            can.append(dict(copy.deepcopy(r), psfs=r["psfs"][:-1] + [0]))
            can.append(dict(copy.deepcopy(r), mask=[dict(m, seen=not m["seen"]) for m in r["mask"]]))
            can.append(dict(copy.deepcopy(r), stray=1))
    ck.judge("CoaddTrace", recs, can, cs)
    ck.notes["coadds"] = sum(r.get("kind") == "coadd" for r in recs)
    return ck.finish("model_checking", "all sequence lengths x chunk numbers up to a bound in nine kinds of sequence; all interleavings of up to 4 images "
                     "over up to 4 workers enumerated by TLC (sampled) plus random ones up to 9 x 6, forced on the worker threads by gates in the images")
