------------------------------- MODULE SubCall -------------------------------
(***************************************************************************)
(* One call of the subtraction and what it may touch (C13).  The two       *)
(* inputs come in some form; a form that is not already an image object of *)
(* the wanted PSF class is wrapped in a new object, which alone belongs to *)
(* the call.  Pixels, masks and star stamps of the caller's objects are    *)
(* read, never written; only their parameters (zero point, loss) move.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Design   \* "sound", "in-place" (new image rewritten), "late" (sizes checked after use), "first-mask" (mask of one input)
Forms == {"array", "fits", "hdu", "hdulist", "plain", "gauss"}
Sizes == {"same", "other"}
VARIABLES formr, formn, fitted, align, sizes, pc, own, wrote, used, mask, result
vars == <<formr, formn, fitted, align, sizes, pc, own, wrote, used, mask, result>>
Wanted(f) == f = (IF fitted THEN "gauss" ELSE "plain")
Init == /\ formr \in Forms /\ formn \in Forms /\ fitted \in BOOLEAN /\ align \in BOOLEAN /\ sizes \in Sizes
        /\ pc = "normalise" /\ own = {} /\ wrote = {} /\ used = FALSE /\ mask = {} /\ result = "none"
Normalise == /\ pc = "normalise" /\ pc' = "align"
             /\ own' = {x \in {"r", "n"} : ~Wanted(IF x = "r" THEN formr ELSE formn)}
             /\ UNCHANGED <<formr, formn, fitted, align, sizes, wrote, used, mask, result>>
Align == /\ pc = "align" /\ pc' = "check"
         /\ IF align THEN IF Design = "in-place" THEN wrote' = wrote \cup {"n"} /\ UNCHANGED own ELSE own' = own \cup {"n"} /\ UNCHANGED wrote
            ELSE UNCHANGED <<own, wrote>>
         /\ UNCHANGED <<formr, formn, fitted, align, sizes, used, mask, result>>
Check == /\ pc = "check"
         /\ IF sizes = "other" /\ ~align /\ Design # "late" THEN pc' = "done" /\ result' = "refused" ELSE pc' = "compute" /\ UNCHANGED result
         /\ UNCHANGED <<formr, formn, fitted, align, sizes, own, wrote, used, mask>>
Compute == /\ pc = "compute" /\ pc' = "done" /\ used' = TRUE
           /\ mask' = IF Design = "first-mask" THEN {"r"} ELSE {"r", "n"}
           /\ result' = IF sizes = "other" /\ ~align THEN "refused" ELSE "images"
           /\ UNCHANGED <<formr, formn, fitted, align, sizes, own, wrote>>
Next == Normalise \/ Align \/ Check \/ Compute
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
CallersIntact == wrote \subseteq own
RefusedBeforeUse == result = "refused" => ~used
RefusedExactly == pc = "done" => ((result = "refused") = (sizes = "other" /\ ~align))
MaskIsUnion == result = "images" => mask = {"r", "n"}
Ends == <>(pc = "done")
===============================================================================
