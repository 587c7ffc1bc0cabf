import copy

import numpy as np

MC = """SPECIFICATION LSpec
CONSTANTS Losses={1,2} Zps={%s} Shapes={%s}
CONSTANT Tracked <- %s
INVARIANT ReadsAreFresh
PROPERTY ShapeFixed
CHECK_DEADLOCK FALSE
"""
GEN = """INIT GInit
NEXT GNext
CONSTANTS Losses={%s} Zps={1,2} Shapes={%s} MaxLen=%d
CONSTANT Tracked <- FaithfulTracked
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""
KINDS = ["plain", "varpsf", "strict", "masked", "gauss", "varpsf", "masked", "strict", "shaped"]
SH = {"plain": [0, 9, 13], "varpsf": [0, 9, 15], "strict": [0, 13], "masked": [0, 9], "gauss": [0, 9], "shaped": [0, 9, 13]}


def histories(ck):
    """Simulated histories, biased towards change-then-read patterns."""
    out = []
    n = 60 if ck.quick else 400
    rng = np.random.default_rng(ck.seed * 101 + 9)
    for d in (4, 7, 12):
        bs = ck.behaviours("LifecycleGen", GEN % ("1,2,3", "0,9,13,15", d),
                           extra=["-simulate", f"num={n}", "-depth", str(d + 2), "-seed", str(ck.seed * 31 + d)], workers=1)
        # the generator prints every last step of each walk: keep some of each
        out += [bs[i] for i in sorted(rng.permutation(len(bs))[:n])]
    return out


def mutate(h, rng):
    """Every read is repeated after a parameter change: the histories in which
    staleness shows.  Still behaviours of the same specification."""
    h = [dict(e) for e in h]
    reads = [e for e in h if e["op"] == "read"]
    k = rng.integers(3)
    change = [dict(op="loss", x="", y=int(rng.integers(1, 4))), dict(op="zp", x="", y=int(rng.integers(1, 3))),
              dict(op="varpsf", x=str(int(rng.integers(0, 4))), y=int(rng.choice([0, 9])))][k]
    back = [dict(op="loss", x="", y=1), dict(op="zp", x="", y=1), dict(op="varpsf", x="1", y=0)][k]
    h += [change] + reads + ([back] + reads[:3] if rng.random() < .5 else [])
    return h[:18]


def main(ck):
    rng = np.random.default_rng(ck.seed * 17 + 3)
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("Lifecycle", MC % ("1,2", "0,9", "FaithfulTracked") if not ck.quick else MC % ("1,2", "0", "FaithfulTracked"))
        ck.model_expect_violation("Lifecycle", MC % ("1,2", "0,9", "OldTracked"), "products kept regardless of the parameters")
        hs = histories(ck)
        hs = [mutate(h, rng) if i % 3 else h for i, h in enumerate(hs)]
        # every ordered pair read-change-read is covered directly
        qs = ["basis", "fields", "normal", "s_hat", "s", "psf_sqnorm", "p_sqnorm", "psf_mid", "psf_edge", "cov", "stamps"]
        pairs = []
        for a in qs:
            for ch in (("loss", "", 2), ("zp", "", 2), ("varpsf", "2", 0), ("varpsf", "3", 0), ("varpsf", "0", 9), ("refresh", "", 0)):
                c = dict(op=ch[0], x=ch[1], y=ch[2])
                rest = [q for q in qs if q != a]
                b = [str(x) for x in rng.permutation(rest)[:3]]
                pairs.append([dict(op="read", x=a, y=0), c, dict(op="read", x=a, y=0)] + [dict(op="read", x=x, y=0) for x in b])
        # the pixels themselves, before and after everything else
        own = [[dict(op="read", x=x, y=0) for x in ("bkgsub", q, "pixels", "bkgsub", "noise")] for q in ("interped", "s", "psf_mid")]
        hs = pairs + own * 3 + hs
        # sources refreshed before they were ever asked for
        first = [dict(op="refresh", x="", y=0)] + [dict(op="read", x=x, y=0) for x in ("basis", "s", "positions")]
        hs = [first] * len(KINDS) + hs
        cs = []
        for i, h in enumerate(hs):
            kind = KINDS[i % len(KINDS)]
            ok = set(SH[kind])
            h2 = []
            for e in copy.deepcopy(h):
                if e["op"] == "varpsf":
                    if e["y"] not in ok:
                        e["y"] = SH[kind][-1]
                    if kind == "gauss":  # takes neither of these parameters
                        e["x"], e["y"] = "0", 0
                h2.append(e)
            cs.append(dict(id=f"hist-{i}-{kind}", kind=kind, iseed=3 + (ck.seed - 1) % 5, hist=h2, losses=[1, 2, 3], zps=[1, 2], shapes=SH[kind]))
    recs = ck.run_cases("lifecycle", cs, case_timeout=300)
    can = []
    for r in recs:
        if "events" not in r:
            continue
        rd = [i for i, e in enumerate(r["events"]) if e["op"] == "read"]
        if rd and len(can) < 12:
            r2 = copy.deepcopy({k: v for k, v in r.items() if k != "case"})
            r2["events"][rd[-1]]["v"] += 50
            can.append(r2)
            r3 = copy.deepcopy(r2)
            r3["events"][rd[-1]]["v"] -= 50
            r3["events"][0]["sshape"] += 1
            can.append(r3)
    ck.judge("LifecycleTrace", recs, can, cs, nstates=lambda r: len(r["events"]) + 1,
             cfg="CONSTANTS Losses={1,2,3} Zps={1,2} Shapes={0,9,13,15}\nCONSTANT Tracked <- FaithfulTracked\n")
    ck.notes["events"] = sum(len(r.get("events", ())) for r in recs)
    return ck.finish("model_checking", "histories generated by TLC from Lifecycle (random walks of length 4, 7, 12, some extended by "
                     "change-and-read-again suffixes) plus every quantity x parameter-change pair, replayed on six kinds of image; "
                     "every read must equal what fresh images report in the parameters the specification is then in")
