import copy

import numpy as np

MC = """INIT Init
NEXT Next
CONSTANTS Side=%d Rows=%d R2=%d Mags=%s
INVARIANT %s
CHECK_DEADLOCK FALSE
"""
GEN = """INIT Init
NEXT Next
CONSTANTS MaxStars=%d MaxImages=%d MaxCalls=%d Clumps=%d
INVARIANT Emit
CHECK_DEADLOCK FALSE
"""


def generated(ck, kind, n):
    out = []
    for stars, images, calls, clumps, num in [(5, 3, 3, 3, n), (14, 4, 4, 4, n // 2), (26, 5, 3, 4, n // 4), (70, 4, 3, 9, n // 8)]:
        g = ck.behaviours("MatchGen", GEN % (stars, images, calls, clumps), workers=1,
                          extra=["-simulate", f"num={num}", "-depth", str(stars * 2 + 30), "-seed", str(ck.seed * 13 + stars)])
        for j, b in enumerate(g):
            if len(b["cats"]) > 1 and all(len(c) > 0 for c in b["cats"]):
                out.append(dict(b, id=f"{kind}-{stars}-{j}", kind=kind, extra=bool(j % 3 == 1), kw=bool(j % 2), far=[0, 0, 20000][j % 3]))
    return out
