import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Paths={%s} Most=%d Design="%s"
INVARIANT ReadsBack CallerUntouched MaskRestored
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Paths={"one","two"} Most=%d Design="sound"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
DTS = ["f8", "f4", ">f8", ">f4", "i2", "u2", "u1", "i4", "i8", ">i2", "u4"]
FORMS = ["c", "fortran", "view", "readonly", "shared", "hard"]
SHAPES = [[4, 5], [5, 4], [1, 6], [7], [3, 4, 2], [1, 1], [6, 3], [11, 2]]


def step(rng, k, cx, d, plainest=False):
    dt = str(rng.choice(DTS)) if not plainest else "f8"
    return dict(k=k, cx=bool(cx), dest=d, seed=int(rng.integers(1, 10**6)), dt=dt, form=str(rng.choice(FORMS)), shape=SHAPES[int(rng.integers(len(SHAPES)))])


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Store", MC % ('"one","two"', 3, "sound") if ck.quick else MC % ('"one","two"', 4, "sound"))
        for d, what in (("appends", "an older file's mask stays"), ("refuses", "an array without mask array is not stored"),
                        ("fills", "masked pixels lose their values"), ("inplace", "the caller's array is altered")):
            ck.model_expect_violation("Store", MC % ('"one"', 2, d), what)
        rng = np.random.default_rng(ck.seed * 18 + 18)
        cs = []
        gens = [(i, 2, g) for i, g in enumerate(ck.behaviours("StoreGen", GEN % 2))]
        if ck.quick:
            g3 = ck.behaviours("StoreGen", GEN % 3)
            gens += [(int(i), 3, g3[i]) for i in rng.permutation(len(g3))[:400]]
        else:
            gens += [(i, 3, g) for i, g in enumerate(ck.behaviours("StoreGen", GEN % 3))]
        for i, m, g in gens:
            cs.append(dict(id=f"stores{m}-{i}", kind="store", steps=[step(rng, *x) for x in g["hist"]]))
        for i, k in enumerate(["plain", "nomask", "empty", "partial"]):  # every pixel type, layout and shape
            for dt in DTS:
                for fo in FORMS:
                    for cx in (False, True):
                        s = step(rng, k, cx, ["one", "memory"][len(cs) % 2])
                        s.update(dt=dt, form=fo)
                        cs.append(dict(id=f"array-{k}-{dt}-{fo}-{cx}", kind="store", steps=[s]))
        for i in range(40 if ck.quick else 400):
            h = [step(rng, str(rng.choice(["plain", "nomask", "empty", "partial"])), rng.integers(2), str(rng.choice(["one", "two", "memory"]))) for _ in range(7)]
            cs.append(dict(id=f"long-{i}", kind="store", steps=h))
        for i in range(60 if ck.quick else 500):
            cs.append(dict(id=f"load-{i}", kind="load", shape=[[20, 25], [32, 32], [40, 17]][i % 3], frac=[0.0, 0.02, 0.2, 0.4, 0.5, 0.7][i % 6], corner=bool(i % 2),
                           bign=bool(i % 5 == 0), cx=bool(i % 4 == 1), how=["path", "memory"][(i // 3) % 2], seed=int(rng.integers(1, 10**6))))
        for i in range(120 if ck.quick else 1000):
            st = []
            for j in range(int(rng.integers(1, 6))):
                st.append(dict(dir=str(rng.choice(["a", "b"])), i=int(rng.choice([0, 1, 2, 10, 100])), jd=float(rng.integers(2415021, 2470000)), frac=float(rng.choice([0.0, 0.5, 0.4999999, rng.random(), rng.random()])),
                               scale=str(rng.choice(["utc", "utc", "tai", "tt"])), tform=str(rng.choice(["time", "float", "iso", "mjd"])), texp=float(rng.choice([1.0, 30, 0.001, 1800.5])), zero=float(rng.choice([0.0, 3.14, 25.123456, -2.5])),
                               seed=int(rng.integers(1, 10**6)), shape=SHAPES[int(rng.integers(3))], dt=str(rng.choice(DTS)), form=str(rng.choice(["c", "fortran", "view", "readonly"]))))
            cs.append(dict(id=f"exposure-{i}", kind="exposure", steps=st))
    recs = ck.run_cases("storew", cs)
    can = []
    n = dict(store=0, load=0, exposure=0)
    for r in recs:
        k = r.get("kind")
        if k is None or r.get("error") != "none" or n[k] > 25:
            continue
        n[k] += 1
        x = copy.deepcopy(r)
        if k == "store":
            d = x["arrays"][0]["dest"]
            v = x["views"][0][d]
            m = n[k] % 4
            if m == 0:
                v["pix"] = [v["pix"][0] + 1] + v["pix"][1:]
            elif m == 1:
                v["units"] = 3 - v["units"]
            elif m == 2:
                o = "one" if d != "one" else "two"
                x["views"][0][o] = dict(v)
            else:
                x["untouched"] = False
        elif k == "load":
            if not r["bad"]:
                continue
            x["loaded"] = [b for b in x["loaded"] if b != r["bad"][0]]
        else:
            f = x["final"][x["exps"][-1]["file"]]
            f[["jd", "time", "texp", "zero"][n[k] % 4]] = 100000
        can.append(x)
    ck.judge("StoreTrace", recs, can, cs)
    for k in n:
        ck.notes[k] = sum(1 for r in recs if r.get("kind") == k)
    return ck.finish("model_checking", "every history of two stores (array kind x complex x destination) and a sample of those of three (thorough: all), in every pixel type and memory layout, "
                     "read back after every step; loads with mask threshold 1; histories of exposures")
