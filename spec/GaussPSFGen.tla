----------------------------- MODULE GaussPSFGen -----------------------------
EXTENDS GaussPSF, Json
(* families of skies: width tensors in hundredths of a pixel; most stars    *)
(* have the base shape, some (at most a few) a stray one                    *)
Shape == [xx : {130, 180, 300}, yy : {130, 180, 300}, xy : {-60, 0, 30}]
GInit == \E b \in Shape, o \in Shape, many \in 0..3 :
           /\ (many = 0 => o = b) /\ sky = <<b, o, many>> /\ fit = <<>> /\ kept = {} /\ pc = "fit"
GNext == FALSE /\ UNCHANGED vars
Emit == PrintT("@@GEN " \o ToJson([base |-> sky[1], stray |-> sky[2], many |-> sky[3]]))
==============================================================================
