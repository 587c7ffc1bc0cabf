-------------------------------- MODULE SkyGen --------------------------------
(* Scenarios for twins: where the bad pixels are, what is stored in them,   *)
(* and what is made of the image; and for the laws of the sky.              *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE s
Bads == {"columns", "rows", "isolated", "block", "edge", "half", "sprinkled"}
Hides == {"big", "nan", "inf", "low", "random", "zero", "stars"}
Routes == {"image", "gauss", "coadd", "coadd-align", "subtract", "subtract-fitted", "subtract-scale", "subtract-shift", "subtract-align"}
Laws == {"raised", "gain", "scaled", "truth"}
Init == \/ s \in [kind : {"twin"}, bad : Bads, hide : Hides, route : Routes, form : {"array", "file", "masked"}]
        \/ s \in [kind : {"law"}, bad : Bads \cup {"none"}, hide : Hides, law : Laws, level : {40, 300, 2000, 20000}, noise : {1, 4, 30}, slope : {"flat", "tilted"}, stars : {8, 25}]
Next == FALSE /\ UNCHANGED s
Emit == (s.kind = "twin" \/ ((s.law \in {"gain", "scaled"} => s.level < 20000) /\ (s.noise = 30 => s.level > 40))) => PrintT("@@GEN " \o ToJson(s))
===============================================================================
