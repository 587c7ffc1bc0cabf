import copy

import numpy as np

from pimv.core import MachineryError

MC = """SPECIFICATION Spec
CONSTANTS Images={1,2,3} Procs={%s} NameBy="%s" MaxLose=1 CleanBoth=%s
INVARIANT Private LeftNothing ReadsOwn
PROPERTY Implements
CHECK_DEADLOCK FALSE
"""
GEN = """INIT GInit
NEXT GNext
CONSTANTS Images={1,2,3,4} Procs={0,1,2} NameBy="unique" MaxLose=1 CleanBoth=TRUE MaxLen=%d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("StarDBNames", MC % ("0,1" if ck.quick else "0,1,2", "unique", "TRUE"))
        ck.model_expect_violation("StarDBNames", MC % ("0,1", "counter", "TRUE"), "names from state a forked process inherits")
        ck.model_expect_violation("StarDBNames", MC % ("0", "pixels", "TRUE"), "names from the pixels")
        ck.model_expect_violation("StarDBNames", MC % ("0", "unique", "FALSE"), "clean-up that stops at the first missing file")
        rng = np.random.default_rng(ck.seed * 5 + 7)
        hs = []
        for d in (8, 13, 18):
            bs = ck.behaviours("StarDBGen", GEN % d, extra=["-simulate", f"num={2500 if ck.quick else 12000}", "-depth", str(d + 2),
                                                            "-seed", str(ck.seed * 77 + d)], workers=1)
            two = [b for b in bs if any(e["op"] == "fork" for e in b)]
            one = [b for b in bs if not any(e["op"] == "fork" for e in b)]
            k = 70 if ck.quick else 500
            for pool in (two, one):
                hs += [pool[i] for i in rng.permutation(len(pool))[:k]]
        solo = ck.run_cases("stardb", [dict(id="content", mode="content", images=[1, 2, 3, 4, 5, 6, 7, 8])])[0]
        if "content" not in solo:
            raise MachineryError(f"stamps of single images: {solo}")
        content = [solo["content"][str(i)] for i in range(1, 9)]
        cs = [dict(id=f"hist-{i}", mode="play", hist=h, threads=bool(i % 2), early=bool(i % 3), reseed=i % 4 == 1 or i % 4 == 2, content=content) for i, h in enumerate(hs)]
        # two forked processes that do the same from the same inherited state
        for i, (same, th) in enumerate([(0, False), (1, False), (0, True), (1, True)]):
            a, b = (1, 2) if same else (3, 4)
            h = [dict(op="fork", i=1, x=""), dict(op="fork", i=2, x=""), dict(op="new", i=a, x="1"), dict(op="new", i=b, x="2"),
                 dict(op="cut", i=a, x=""), dict(op="cut", i=b, x=""), dict(op="read", i=a, x=""), dict(op="read", i=b, x=""),
                 dict(op="leave", i=b, x="end"), dict(op="read", i=a, x=""), dict(op="leave", i=a, x="ValueError")]
            cs.append(dict(id=f"twins-{i}", mode="play", hist=h, threads=th, early=True, content=content))
        for i in range(6 if ck.quick else 60):
            cs.append(dict(id=f"storm-{i}", mode="storm", procs=[2, 1, 4][i % 3], nthreads=[2, 8, 2][i % 3], reseed=bool(i % 2), content=content))
    recs = ck.run_cases("stardb", cs, case_timeout=300)
    can = []
    for r in recs:
        for k, e in enumerate(r.get("events", ())):
            if len(can) < 30 and e["op"] == "read":
                r2 = copy.deepcopy(r)
                r2["events"][k]["val"] += 1
                can.append(r2)
                break
            if len(can) < 30 and e["op"] == "leave" and e["gone"]:
                r2 = copy.deepcopy(r)
                r2["events"][k]["gone"] = []
                can.append(r2)
                r2 = copy.deepcopy(r)
                r2["events"][k]["gone"] = e["gone"] + [999]
                can.append(r2)
                break
    ck.judge("StarDBTrace", recs, can, cs, nstates=lambda r: len(r["events"]) + 1)
    ck.notes["operations"] = sum(len(r.get("events", ())) for r in recs)
    ck.notes["histories_with_processes"] = sum(1 for c in cs if c["mode"] == "play" and any(e["op"] == "fork" for e in c["hist"]))
    return ck.finish("model_checking", "random behaviours of the model (images over forked processes and threads, lost files, exceptions) replayed "
                     "serially, plus free-running storms of processes x threads; every file created, changed or removed is attributed to an operation")
