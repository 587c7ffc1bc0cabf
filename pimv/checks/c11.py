import copy

import numpy as np

from pimv.checks.match_common import MC, generated


def queries(ck, rng):
    cs = []
    for i in range(600 if ck.quick else 8000):
        dim = int(rng.choice([1, 2, 2, 2, 3]))
        n, m = int(rng.integers(0, 9 if i % 5 else 60)), int(rng.integers(0, 9 if i % 5 else 60))
        span = int(rng.choice([3, 8, 40, 400]))
        r2 = int(rng.choice([-1, 2, 3, 7, 30, 200]))
        p, s = rng.integers(-span, span, (n, dim)), rng.integers(-span, span, (m, dim))
        d = ((p[:, None] - s[None]) ** 2).sum(-1)
        if r2 > 0 and (d == r2).any():
            r2 = -1  # a point exactly on the radius is neither within nor beyond
        if dim == 0 or (n == 0 or m == 0) and i % 3:
            n = n or 1
        if len(p) == 0:
            continue
        cs.append(dict(id=f"query-{i}", kind="query", dim=dim, p=p.tolist(), s=s.tolist(), r2=r2, unit=[0, 0, 7, 10][i % 4], far=[0, 4000, -70000, 300000][(i // 4) % 4], lists=bool(i % 4 == 1 and len(s))))
    return cs


def idents(ck, rng):
    """Clumped catalogues named by numbers of any order, zero included."""
    cs = []
    for i in range(200 if ck.quick else 3000):
        span = int(rng.choice([20, 60, 200]))
        cats = [[dict(x=int(x), y=int(y)) for x, y in rng.integers(0, span, (int(rng.integers(1, 9)), 2))] for _ in range(2)]
        if i % 3 == 0:
            # the second catalogue is the first one, moved slightly and in another order
            o = rng.permutation(len(cats[0]))
            cats[1] = [dict(x=cats[0][j]["x"] + int(rng.integers(-4, 5)), y=cats[0][j]["y"] + int(rng.integers(-4, 5))) for j in o]
        cs.append(dict(id=f"ident-{i}", kind="ident", cats=cats, names=[int(v) for v in rng.permutation(12)[:len(cats[0])]], r2=int(rng.choice([26, 227, 402, 1003])),
                       far=[0, 0, 9000, -4000][i % 4], masked=bool(i % 2), bynumber=bool(i % 4 == 3)))
    return cs


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        inv = "OneToOne Symmetric ClosestPairFound"
        ck.model_check("MatchMC", MC % (*((3, 2) if ck.quick else (4, 3)), 6, "{0}", inv))
        ck.model_expect_violation("MatchMC", MC % (3, 2, 6, "{0}", "OneSidedIsNotOneToOne"), "one-sided nearest neighbours identify a star twice")
        cs = generated(ck, "label", 500 if ck.quick else 6000)
        cs += queries(ck, np.random.default_rng(ck.seed * 31 + 11))
        if ck.run_cases("matchw", [dict(id="probe", kind="probe")])[0].get("there"):
            cs += idents(ck, np.random.default_rng(ck.seed * 31 + 12))
        ck.notes["scenarios"] = len(cs)
    recs = ck.run_cases("matchw", cs)
    can = []
    for r in recs:
        if "crash" in r or len(can) > 30:
            continue
        if r["kind"] == "query" and len(r["s"]) > 1:
            can.append(dict(copy.deepcopy(r), ind=[(v + 1) % (len(r["s"]) + 1) for v in r["ind"]]))
        elif r["kind"] == "ident" and r["ids"]:
            can.append(dict(r, ids=[-1 - v for v in r["ids"]], flags=r["flags"]))
            if r["masked"]:
                can.append(dict(r, flags=[not f for f in r["flags"]]))
        elif r["kind"] == "label":
            x = copy.deepcopy(r)
            for c in x["calls"]:
                for lab in c["labels"]:
                    lab["pairs"].append(lab["pairs"][0] if lab["pairs"] else [1, 1])
                    lab["pairs"].append([1, 1])
                    lab["pairs"].append([1, 2])
            if any(c["labels"] for c in x["calls"]):
                can.append(x)
    ck.judge("MatchTrace", recs, can, cs)
    return ck.finish("model_checking", "identification rules checked for all pairs of small catalogues; random clumped catalogues and nearest-neighbour queries "
                     "with exact integer distances judged by the specification")
