-------------------------------- MODULE SimGen --------------------------------
EXTENDS Sim, Json
Emit == Len(hist) = Most => PrintT("@@GEN " \o ToJson([hist |-> hist]))
===============================================================================
