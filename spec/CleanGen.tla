------------------------------ MODULE CleanGen ------------------------------
EXTENDS Clean, Json
(* classes of the blocks of an image, row by row *)
GInit == cls \in [Line -> Classes] /\ (\E k \in Line : cls[k] = "good") /\ v = 0 /\ w = 0 /\ out = <<>> /\ outw = <<>> /\ pc = "clean"
Emit == PrintT("@@GEN " \o ToJson([cls |-> cls]))
Stay == UNCHANGED vars
===============================================================================
