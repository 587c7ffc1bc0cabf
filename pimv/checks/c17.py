import copy
import itertools

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Seeds={0,7} Most=%d Design="%s"
INVARIANT SeededAlone UnseededDiffer StreamUntouched
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Seeds={0,7} Most=%d Design="sound"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Sim", MC % (4 if ck.quick else 5, "sound"))
        for d, what in (("reseeds", "a seeded call disturbs later unseeded ones"), ("zero", "seed 0 is not reproducible"), ("fixed", "unseeded calls repeat")):
            ck.model_expect_violation("Sim", MC % (3, d), what)
        gen = ck.behaviours("SimGen", GEN % 3)
        rng = np.random.default_rng(ck.seed * 17 + 17)
        cs = []
        if ck.quick:
            gen = [gen[i] for i in rng.permutation(len(gen))[:240]]
        for i, g in enumerate(gen):
            n = int(rng.integers(2))
            cs.append(dict(id=f"history-{i}", kind="history", hist=[[w, s, n if j != 1 else int(rng.integers(2))] for j, (w, s) in enumerate(g["hist"])]))
        for i in range(40 if ck.quick else 600):
            h = [[str(rng.choice(["poisson", "gaussian", "frame"])), int(rng.choice([0, 7, 99, 99, 1, 5])), int(rng.integers(2))] for _ in range(int(rng.integers(4, 9)))]
            cs.append(dict(id=f"long-{i}", kind="history", hist=h))
        for i in range(300 if ck.quick else 3000):
            cs.append(dict(id=f"points-{i}", kind="points", n=int(rng.integers(1, 14)), k=int(rng.integers(0, 9)), form=["zip", "list", "array", "gen", "centre"][i % 5],
                           weights=["none", "list", "array", "iter"][(i // 5) % 4], float=bool(i % 3 == 0), seed=int(rng.integers(1, 10**6))))
        types = ["int", "float", "half", "list"]
        for i, (s, t) in enumerate(itertools.product([(2, 3), (3, 2, 2), (1, 4), (4, 1), (3,), (5, 5), (2, 2, 2, 2)], itertools.product(types, types))):
            cs.append(dict(id=f"product-{i}", kind="product", sizes=s, types=(list(t) * 2)[:len(s)], seed=int(rng.integers(1, 10**6))))
        sizes = list(range(1, 34)) + [40, 41, 55, 64] if ck.quick else list(range(1, 90))
        for i, n in enumerate(sizes):
            for j, w in enumerate([0.3, 1.0, 2.2, 3.7, 6.0, 11.0]):
                sd = int(rng.integers(1, 10**6))
                cs.append(dict(id=f"psf-{n}-{w}", kind="kernel", fn="psf", n=n, w=w, w2=[None, 2.5, w * 1.7][(i + j) % 3], theta=0, seed=sd))
                cs.append(dict(id=f"astropy-{n}-{w}", kind="kernel", fn="astropy", n=n, w=w, seed=sd))
                if j in (1, 3, 5):
                    cs.append(dict(id=f"airy-{n}-{w}", kind="kernel", fn="airy", n=n, w=w, seed=sd))
            if n > 2:
                for s in (0.5, 1.0, 2.5, 4.0):
                    cs.append(dict(id=f"sersic-{n}-{s}", kind="kernel", fn="sersic", n=n, w=s, seed=1))
        for i, th in enumerate([15, 30, 45, 60, 90, 105, 135, 150, 170, -20]):
            for j in range(2 if ck.quick else 8):
                cs.append(dict(id=f"turned-{th}-{j}", kind="kernel", fn="psf", n=40 + 7 * j, w=7.0 - 3.5 * (j % 2), w2=3.5 + 3.5 * (j % 2), theta=th, seed=j))
        for i in range(30 if ck.quick else 200):
            cs.append(dict(id=f"convolve-{i}", kind="kernel", fn="convolve", n=int(rng.integers(1, 20)), seed=int(rng.integers(1, 10**6))))
            cs.append(dict(id=f"noise-{i}", kind="kernel", fn="noise", n=0, w=[3.0, 4.0, 5.5][i % 3], w2=[None, 5.0][i % 2], pdf=["poisson", "gaussian"][(i // 2) % 2],
                           sn=[2.0, 10.0, 0.5][i % 3], bias=[None, 0.0, 555.5][(i // 3) % 3], seed=int(rng.integers(1, 10**6))))
        for i in range(16 if ck.quick else 100):
            cs.append(dict(id=f"frame-{i}", kind="frame", n=[66, 64, 71, 96][i % 4], stars=[40, 8, 21, 100][(i // 4) % 4], sn=[30.0, 3.0][i % 2], seed=[None, 0, 5, 123][(i // 2) % 4],
                           thetas=[None, [0, 0, 0, 0], [10, 80, 170, 30]][i % 3]))
    recs = ck.run_cases("simw", cs)
    can = []
    n = dict(history=0, points=0, product=0, kernel=0, frame=0)
    for r in recs:
        k = r.get("kind")
        if k is None or n[k] > 14:
            continue
        if k == "history":
            s = [i for i, x in enumerate(r["steps"]) if x["seed"] == 99]
            x = copy.deepcopy(r)
            x["steps"][0]["res"] += 50
            can.append(x)
            if len(s) > 1:
                x = copy.deepcopy(r)
                x["steps"][s[0]]["res"] = x["steps"][s[1]]["res"]
                can.append(x)
        elif k == "points" and r["n"] > 1:
            x = copy.deepcopy(r)
            x["grid"][0][1] += 1
            can.append(x)
        elif k == "product" and len(r["out"]) > 1:
            can.append(dict(r, out=r["out"][::-1]))
            can.append(dict(r, out=r["out"][1:]))
        elif k == "kernel":
            can.append(dict(r, sum=10**6))
            can.append(dict(r, ok=dict(r["ok"], finite=False)))
        elif k == "frame":
            can.append(dict(r, at=[1, 3, 2, 4]))
        n[k] += 1
    ck.judge("SimTrace", recs, can, cs)
    for k in n:
        ck.notes[k] = sum(1 for r in recs if r.get("kind") == k)
    return ck.finish("model_checking", "every history of three simulation calls (kind x seed or none) enumerated by TLC and longer random ones, against runs without the seeded calls; "
                     "point fields, coordinate products, kernels of every size to 33 (thorough 89) at six widths, noise and frames")
