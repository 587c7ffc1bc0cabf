----------------------------- MODULE LifecycleGen -----------------------------
(* Histories of an image for replay on the implementation: every history of
   the length given, or a random sample under -simulate. *)
EXTENDS Lifecycle, Json
CONSTANTS MaxLen
VARIABLES hist
gvars == <<loss, zp, asked, shape, cut, kept, out, hist>>
GInit == LInit /\ loss = 1 /\ zp = 1 /\ hist = <<>>
Step(op, x, y, A) == A /\ hist' = Append(hist, [op |-> op, x |-> x, y |-> y])
GNext == /\ Len(hist) < MaxLen
         /\ \/ \E q \in Quantities : Step("read", q, 0, Read(q))
            \/ \E lo \in Losses \cup {0}, sh \in Shapes : Step("varpsf", ToString(lo), sh, VariablePsf(lo, sh))
            \/ \E lo \in Losses : Step("loss", "", lo, SetLoss(lo))
            \/ \E z \in Zps : Step("zp", "", z, SetZp(z))
            \/ Step("refresh", "", 0, Refresh)
Emit == Len(hist) = MaxLen => PrintT("@@GEN " \o ToJson(hist))
===============================================================================
