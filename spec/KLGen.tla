-------------------------------- MODULE KLGen --------------------------------
(* Every spectrum and loss of the model, for replay on the implementation.
   Total is a power of two, so that nothing is rounded and equality of the
   residual and the loss is exact. *)
EXTENDS KL, Json
VARIABLE half
GInit == /\ half \in {0, 1} /\ p \in Spectra /\ loss \in (-1)..Total /\ i = 1 /\ pw = Total /\ cut = 1 /\ pc = "loop"
GNext == FALSE /\ UNCHANGED <<vars, half>>
Emit == PrintT("@@GEN " \o ToJson([p |-> p, loss2 |-> 2 * loss + half]))
===============================================================================
