import copy

import numpy as np

MC = """SPECIFICATION Spec
CONSTANTS Most=%d Design="%s"
INVARIANT OwnGridSuffices EachOnceInOrder RefusedUndrawn RefusedExactly
%s
CHECK_DEADLOCK FALSE
"""
GRID = """INIT Init
NEXT Stop
CONSTANTS Most=1 Design="sound"
INVARIANT GridsSuffice
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS Most=%d Design="sound"
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
PIC = """SPECIFICATION Spec
CONSTANTS Calls=%d Design="%s"
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
FORMS = dict(S=["plain", "float32", "masked", "nomask"], R=["plain", "float32", "masked", "nomask", "complex64", "complex128", "masked-complex"])
NAMES = [(None, ""), ("imshow", ""), ("autopsf", ""), ("autopsf_coef", ""), ("_private", "ValueError"), ("_secret", "ValueError"), ("__class__", "ValueError"), ("__init__", "ValueError"), ("__call__", "ValueError"),
         ("si", "ValueError"), ("DEFAULT_PLOT", "ValueError"), ("nothing", "ValueError"), ("Imshow", "ValueError"), ("imshow ", "ValueError"), ("get_variable_psf", "ValueError"),
         ("data", "ValueError")]


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Plots", MC % (12 if ck.quick else 40, "sound", "PROPERTY Ends"))
        ck.model_check("PlotsGrid", GRID)
        for d, what in (("narrow", "grid too small for a prime number of components"), ("late", "drawn on although refused"), ("from-zero", "titles count from 0")):
            ck.model_expect_violation("Plots", MC % (12, d, ""), what)
        inv = "ShowsItsImage LeavesNone AtMostOne"
        ck.model_check("Pictures", PIC % (4 if ck.quick else 6, "sound", inv))
        for d, what in (("late", "axes looked up after the figure was closed"), ("none", "no axes returned"), ("open", "figures left open")):
            ck.model_expect_violation("Pictures", PIC % (3, d, inv), what)
        hists = ck.behaviours("PicturesGen", PIC % (3, "sound", "Emit"))
        if not ck.quick:
            hists += ck.behaviours("PicturesGen", PIC % (4, "sound", "Emit"))
        gen = ck.behaviours("PlotsGen", GEN % (9 if ck.quick else 16))
        gen.sort(key=lambda g: (g["op"], g["n"], g["given"]))
        rng = np.random.default_rng(ck.seed * 13 + 16)
        cs = []

        def case(i, g, **kw):
            st = [[7, 7], [5, 9], [9, 5], [11, 6]][i % 4]
            return dict(dict(id=f"{g['op']}-{i}-{g['n']}-on-{g['given']}", kind="draw", op=g["op"], n=g["n"], given=g["given"], real=False, shape=[[64, 64], [60, 70], [72, 58]][i % 3], stamp=st,
                             loss=[None, 0.2, 0.01][i % 3], form=str(rng.choice(["grid", "list", "array", "bare"])), iso=[None, True, False][int(rng.integers(3))],
                             style=int(rng.integers(64)), call=bool(i % 2), seed=int(rng.integers(1, 10**6))), **kw)
        for i, g in enumerate(gen):
            cs.append(case(i, g))
        big = [11, 12, 13, 16, 17, 22, 23, 25, 29, 30, 31] if ck.quick else list(range(17, 64)) + [97, 210]
        for i, n in enumerate(big):
            cs.append(case(1000 + i, dict(op=["autopsf", "autopsf_coef"][i % 2], n=n, given=-1)))
        for i in range(12 if ck.quick else 80):
            c = case(2000 + i, dict(op=["autopsf", "autopsf_coef"][i % 2], n=0, given=-1 if i % 3 else int(rng.integers(9))), real=True)
            cs.append(dict(c, loss=[0.4, 0.25, 0.1, 0.05, 0.02][i % 5]))
        for i, (nm, pr) in enumerate(NAMES):
            for j in range(8):
                if (nm is None and (j & 4)) or (pr and j & 4):
                    continue
                cs.append(dict(id=f"name-{nm}-{j}", kind="name", name=nm, promised=pr, axes=bool(j & 1) and not pr, via="plot" if j & 2 else "image", method=bool(j & 4) and not pr,
                               keyword=bool(j & 1)))
        hists.sort(key=lambda h: str(h["hist"]))
        for i, h in enumerate(hists):
            calls = [dict(q, form=str(rng.choice(FORMS[q["op"]])), path=bool(rng.integers(2)), shape=[[40, 40], [33, 52], [64, 20]][int(rng.integers(3))]) for q in h["hist"]]
            cs.append(dict(id=f"pictures-{i}", kind="picture", calls=calls, seed=int(rng.integers(1, 10**6))))
        for op in FORMS:
            for j, f in enumerate(FORMS[op]):
                cs.append(dict(id=f"picture-{op}-{f}", kind="picture", seed=900 + j,
                               calls=[dict(op=op, nbook=bool(b), form=f, path=bool(p), shape=[30, 45]) for b in (0, 1) for p in (0, 1)]))
        top = 400 if ck.quick else 3000
        for lo in range(1, top, 50):
            cs.append(dict(id=f"grid-{lo}", kind="grid", lo=lo, hi=min(lo + 50, top)))
    recs = ck.run_cases("plotw", cs, case_timeout=300)
    can = []
    for r in recs:
        if r.get("kind") == "draw" and r["raised"] == "" and len(can) < 30:
            for k, v in (("draws", []), ("index", 0), ("sum", False), ("draws", [1, 1])):
                x = copy.deepcopy(r)
                x["axes"][r["n"] - 1][k] = v
                can.append(x)
            x = copy.deepcopy(r)
            x["axes"] = x["axes"][:r["n"] - 1]
            can.append(x)
        elif r.get("kind") == "draw" and r["raised"] and len(can) < 60:
            can.append(dict(r, raised=""))
            can.append(dict(r, nothing=False))
        elif r.get("kind") == "picture" and len(can) < 80:
            for k, v in (("axes", False), ("shown", False), ("limits", False), ("stored", not r["calls"][0]["path"])):
                x = copy.deepcopy(r)
                x["calls"][0][k] = v
                can.append(x)
        elif r.get("kind") == "name" and len(can) < 90:
            can.append(dict(r, raised="KeyError"))
    ck.judge("PlotsTrace", recs, can, cs)
    ok = [r for r in recs if r.get("kind") == "draw"]
    ck.notes.update(pictures=sum(len(r["calls"]) for r in recs if r.get("kind") == "picture"), plots=len(ok), refused=sum(r["raised"] != "" for r in ok), grids=sum(len(r["grids"]) for r in recs if r.get("kind") == "grid"))
    return ck.finish("model_checking", "every plot x component count x number of supplied axes enumerated by TLC, drawn with and without contours and styles and read back from the axes; "
                     "every component count to 400 (thorough 3000) asked for its grid; every plot name kind; every history of three (four) pictures of subtractions")
