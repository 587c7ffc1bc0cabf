------------------------------ MODULE StampsGen ------------------------------
(* Scenarios around the limits: how many candidates of each kind. *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES s
Counts == {<<n, g>> \in {1, 2, 14, 15, 16, 19, 20, 21, 22, 26, 34} \X {0, 1, 12, 13, 14, 15, 16, 17, 20, 21, 26, 30} : g <= n}
GInit == s \in [strict : BOOLEAN, count : Counts, shape : {0, 5, 9, 711, 1107, 10},
                bad : {"offset", "noise", "pair", "mix", "edge", "sharp", "dark"}, first : {"pos", "n", "cov", "cat"}]
GNext == FALSE /\ UNCHANGED s
Emit == PrintT("@@GEN " \o ToJson(s))
===============================================================================
