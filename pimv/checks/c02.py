from . import ingest_common as ic

CFG = """SPECIFICATION Spec
CONSTANTS H=2 W=3 Classes={"ok","zero"} MaskLevels={0,16} Sources={"array"} Givens={"array"} Faithful=TRUE
INVARIANT MaskAsPromised
PROPERTY GrowthMonotone
CHECK_DEADLOCK FALSE
"""


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("IngestMC", CFG)
        cs, ns = ic.cases(ck, "data", 3000 if ck.quick else 20000)
        ck.notes["scenarios"] = ns
    recs = ck.run_cases("ingest", cs)
    can = []
    for r in recs[:60]:
        if r.get("raised") == "":
            can += [dict(r, oval=[r["oval"][0] + 1] + r["oval"][1:], okind=[0] * len(r["okind"])),
                    dict(r, ogain2=r["ogain2"] + 1), dict(r, caller_ok=False), dict(r, oh=r["oh"] + 1)]
    ck.judge("IngestTrace", recs, can[:12], cs)
    ck.notes["images_windowed"] = sum(1 for r in recs if r.get("oh") and (r["oh"], r["ow"]) != (r["h"], r["w"]))
    return ck.finish("model_checking", "every configuration of source form x mask form x borders x crop (TLC, IngestGen) "
                     "with random pixels, pixel types, memory layouts, gains; pixel values compared one by one by IngestTrace")
