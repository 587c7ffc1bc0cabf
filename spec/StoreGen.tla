------------------------------- MODULE StoreGen -------------------------------
EXTENDS Store, Json
Emit == Len(hist) = Most => PrintT("@@GEN " \o ToJson([hist |-> hist]))
===============================================================================
