------------------------------ MODULE ProperGen ------------------------------
(* Scenarios of a coaddition: which images, in which order and form, what was
   done with them before, how many workers and which information loss; and
   the pieces of the program that gives the expected images. *)
EXTENDS Proper, Json, FiniteSets
CONSTANTS Pool, MaxN, MaxK, Losses, Procs
VARIABLES imgs, loss, procs, st
vars == <<imgs, loss, procs, st>>
Before == {"nothing", "psf", "scomp", "sqnorm", "zp", "stars", "clean", "coadd", "subtract", "closed"}
Forms == {"object", "array"}
Init == imgs = <<>> /\ st = "pick" /\ loss \in Losses /\ procs \in Procs
Pick == /\ st = "pick" /\ Len(imgs) < MaxN
        /\ \E p \in Pool, b \in Before, f \in Forms :
             /\ \A j \in DOMAIN imgs : imgs[j].img # p
             /\ imgs' = Append(imgs, [img |-> p, before |-> IF f = "array" THEN "nothing" ELSE b, form |-> f])
        /\ UNCHANGED <<loss, procs, st>>
Go == st = "pick" /\ Len(imgs) > 0 /\ st' = "go" /\ UNCHANGED <<imgs, loss, procs>>
Next == Pick \/ Go
Emit == st = "go" => PrintT("@@GEN " \o ToJson([imgs |-> imgs, loss |-> loss, procs |-> procs]))
Final(n) == SubSeq(CoaddProgram([i \in 1..n |-> 1]), 2 * n + 1, 2 * n + 5)
(* once: the pieces *)
Pieces == PrintT("@@GEN " \o ToJson([pieces |-> [i \in 1..MaxN |-> [k \in 1..MaxK |-> ImageProgram(i, k)]], final |-> [n \in 1..MaxN |-> Final(n)]]))
EmitPieces == (st = "pick" /\ imgs = <<>>) => Pieces
===============================================================================
