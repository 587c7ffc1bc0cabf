import numpy as np

from . import ingest_common as ic

CFG_DISPATCH = """SPECIFICATION Spec
CONSTANTS H=2 W=2 Classes={"ok","nan"} MaskLevels={0,16} Sources={"array","hdulist"} Givens={"none","array","file"} Faithful=TRUE
INVARIANT MaskAsPromised NoBadPixelFree CleanStaysClean
PROPERTY GrowthMonotone Terminates
CHECK_DEADLOCK FALSE
"""
CFG_GROW = """SPECIFICATION Spec
CONSTANTS H=3 W=4 Classes={"ok","nan"} MaskLevels={0} Sources={"array"} Givens={"none"} Faithful=TRUE
INVARIANT MaskAsPromised NoBadPixelFree CleanStaysClean
CHECK_DEADLOCK FALSE
"""
CFG_CLASSES = """SPECIFICATION Spec
CONSTANTS H=1 W=3 Classes={"ok","zero","nan","inf","low","lowedge","high","highedge"} MaskLevels={0,16} Sources={"path"} Givens={"none","array","file"} Faithful=TRUE
INVARIANT MaskAsPromised NoBadPixelFree CleanStaysClean
CHECK_DEADLOCK FALSE
"""
CFG_BROKEN = CFG_CLASSES.replace("Faithful=TRUE", "Faithful=FALSE").replace('"zero","nan","inf","low","lowedge","high","highedge"', '"nan"')


def main(ck):
    if ck.only:
        cs = [v["case"] for v in ck.only["violations"] if v.get("case")]
    else:
        ck.model_check("IngestMC", CFG_DISPATCH if not ck.quick else CFG_DISPATCH.replace(" Terminates", ""))
        ck.model_check("IngestMC", CFG_CLASSES if not ck.quick else CFG_CLASSES.replace('"inf",', "").replace('"zero",', ""))
        if not ck.quick:
            ck.model_check("IngestMC", CFG_GROW)
        ck.model_expect_violation("IngestMC", CFG_BROKEN, "invalid pixels only marked when no mask is supplied")
        cs, ns = ic.cases(ck, "mask", 3000 if ck.quick else 20000)
        ck.notes["scenarios"] = ns
    recs = ck.run_cases("ingest", cs)
    can = []
    for r in recs[:40]:
        if r.get("raised") == "" and not any(r["omask"]):
            r2 = dict(r, omask=[1] + r["omask"][1:])
            can.append(r2)
        elif r.get("raised") == "" and any(r["omask"]):
            r2 = dict(r, omask=[0] * len(r["omask"]))
            can.append(r2)
    ck.judge("IngestTrace", recs, can[:12], cs)
    ck.notes["images_with_masked_pixels"] = sum(1 for r in recs if any(r.get("omask", ())))
    return ck.finish("model_checking", "every configuration of source form x mask form x extension x threshold x guess x "
                     "borders x crop enumerated by TLC (IngestGen), filled with random pixels around the limits; the "
                     "constructed mask is judged pixel by pixel by IngestTrace")
