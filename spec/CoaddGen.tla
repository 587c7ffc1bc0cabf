------------------------------- MODULE CoaddGen -------------------------------
(* Interleavings of the workers: in which order the images' contributions
   are handed out, and how many workers wait for one at the same time. *)
EXTENDS Coadd, Json
Emit == pc = "done" => PrintT("@@GEN " \o ToJson([n |-> n, k |-> k, order |-> order]))
===============================================================================
