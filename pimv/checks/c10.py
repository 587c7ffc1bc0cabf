import copy

from pimv.checks.match_common import MC, generated


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("MatchMC", MC % (0, 0, 2, "{0,1,3}" if ck.quick else "{0,1,3,7}", "NormalEquations"))
        cs = generated(ck, "zero", 500 if ck.quick else 6000)
        ck.notes["scenarios"] = len(cs)
    recs = ck.run_cases("matchw", cs)
    can = []
    for r in recs:
        if "crash" in r or len(can) > 24:
            continue
        k = [n for n, c in enumerate(r["calls"]) if len(c["zps"]) > 1 and len(c["mags"]) > 1]
        if not k:
            continue
        for change in ("zps", "mags", "rows", "drop"):
            x = copy.deepcopy(r)
            c = x["calls"][k[0]]
            if change in ("zps", "mags"):
                c[change][-1] += 300
            elif change == "rows":
                c["after"][0]["rows"] = c["after"][0]["rows"][1:]
            else:
                c["mags"] = c["mags"][1:]
            x["strict"] = True
            can.append(x)
    ck.judge("MatchTrace", recs, [c for c in can if clear(c)], cs)
    ck.notes["calls"] = sum(len(r.get("calls", [])) for r in recs)
    return ck.finish("model_checking", "random clumped catalogues and sequences of calls in changing roles generated by TLC; common stars, zero points and "
                     "magnitudes recomputed in integers by the specification")


def clear(r):
    """Only for canaries: no two candidates equally near."""
    for cats in [r["cats"]]:
        for a in cats:
            for b in cats:
                for s in a:
                    d = sorted((s["x"] - t["x"]) ** 2 + (s["y"] - t["y"]) ** 2 for t in b)
                    if 400 in d or len(set(d)) < len(d):
                        return False
    return True
