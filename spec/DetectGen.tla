------------------------------ MODULE DetectGen ------------------------------
EXTENDS Detect, Json
GNext == FALSE /\ UNCHANGED vars
Emit == PrintT("@@GEN " \o ToJson([o |-> o, min |-> min]))
===============================================================================
