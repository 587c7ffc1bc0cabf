import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS H=%d W=%d Design="%s"
INVARIANT ScanIsGroups Sound Partition CrossIsTouch
%s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT Stay
CONSTANTS H=%d W=%d Design="merge"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
FORMS = ["f8", "f4", "F", "big", "view", "int"]


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Score", MC % (3, 3, "merge", "PROPERTY Ends"))
        if not ck.quick:
            ck.model_check("Score", MC % (3, 4, "merge", ""))
        ck.model_expect_violation("Score", MC % (3, 3, "no-merge", ""), "a U-shaped region listed twice")
        ck.model_expect_violation("Score", MC % (3, 3, "corners", ""), "regions touching at a corner listed as one")
        gen = ck.behaviours("ScoreGen", GEN % (3, 3)) + ck.behaviours("ScoreGen", GEN % ((3, 4) if ck.quick else (4, 4)))
        rng = np.random.default_rng(ck.seed * 5 + 14)
        if len(gen) > 8000:
            gen = gen[:512] + [gen[i] for i in rng.permutation(len(gen))[:20000]]
        cs = []
        for i, g in enumerate(gen):
            on = [list(x) for x in g["on"]]
            h, w = (int(x) for x in rng.integers(12, 17, 2))
            # an even number of background pixels
            h, w = (h | 1, w | 1) if len(on) % 2 else (h & ~1, w)
            my, mx = h - 4, w - 4
            where = i % 5
            oy = [0, my, int(rng.integers(0, my + 1)), 0, my][where]
            ox = [0, mx, int(rng.integers(0, mx + 1)), mx, 0][where]
            top = [max([x[k] for x in on] + [0]) for k in (0, 1)]
            if where in (1, 4):
                oy = h - 1 - top[0]
            if where in (1, 3):
                ox = w - 1 - top[1]
            mode = i % 4
            thr = 5.0
            vals = [int(v) for v in ([rng.integers(6, 40, len(on)), np.full(len(on), 30), rng.choice([5, 6, 20], len(on)), rng.integers(6, 90, len(on))][mode])]
            scale, off = [(1.0, 0.0), (2.0, 0.0), (1.0, 1.0), (0.5, 3.0)][int(rng.integers(4))]
            if mode == 2 and rng.random() < 0.4:
                thr = 2.5
            cs.append(dict(id=f"map-{i}", kind="exact", on=on, vals=vals, h=h, w=w, oy=oy, ox=ox, thr=thr, default=thr == 2.5, scale=scale, offset=off,
                           form=FORMS[i % 6] if scale * 1.0 == int(scale) or i % 6 != 5 else "f8", seed=1))
        for i in range(1500 if ck.quick else 12000):
            h, w = (int(x) for x in rng.integers(6, 26, 2))
            thr = float(rng.choice([1.0, 1.5, 2.5, 2.5, 3.0, 5.0]))
            cs.append(dict(id=f"noise-{i}", kind="noise", h=h, w=w, level=float(rng.choice([0, 0, 1, 30])), sigma=float(rng.choice([1, 4, 0.25])),
                           blobs=int(rng.integers(0, 5)), thr=thr, default=thr == 2.5, form=FORMS[i % 5], seed=int(rng.integers(1, 10**6))))
        for i in range(4 if ck.quick else 16):  # many regions, long and thin maps
            h, w = [(90, 84), (70, 110), (1, 400), (500, 2)][i % 4]
            n = [380, 300, 12, 20][i % 4]
            on = np.argwhere(rng.permutation(h * w).reshape(h, w) < n).tolist()
            cs.append(dict(id=f"many-{i}", kind="exact", on=on, vals=[int(v) for v in rng.integers(20, 60, n)], h=h, w=w, oy=0, ox=0, thr=5.0, default=False, scale=1.0,
                           offset=0.0, form=FORMS[i % 5], seed=1))
    recs = ck.run_cases("scorew", cs)
    skipped = sum(1 for r in recs if r.get("skipped"))
    recs = [r for r in recs if not r.get("skipped")]
    can = []
    for r in recs:
        if len(can) > 40:
            break
        if r.get("cat") and r["id"].endswith("7"):
            can.append(dict(copy.deepcopy(r), cat=r["cat"][1:]))
            can.append(dict(copy.deepcopy(r), cat=r["cat"] + r["cat"][:1]))
            x = copy.deepcopy(r)
            x["cat"][0][0] += 5
            can.append(x)
            x = copy.deepcopy(r)
            x["cat"][-1][2] += 900
            can.append(x)
    ck.judge("ScoreTrace", recs, can, cs)
    ok = [r for r in recs if "cat" in r]
    ck.notes.update(maps=len(ok), skipped=skipped, exact=sum(r["exact"] for r in ok), empty=sum(not r["cat"] for r in ok), entries=sum(len(r["cat"]) for r in ok))
    return ck.finish("model_checking", "every pattern of significant pixels on 3x3 and 3x4 (thorough: random 4x4 too) windows, enumerated by TLC and placed at edges, corners and "
                     "inside, with exact threshold ties; random noise maps with blobs; entries judged against the declarative groups")
