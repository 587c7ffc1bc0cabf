---------------------------- MODULE PicturesGen ----------------------------
EXTENDS Pictures, Json
Emit == Len(hist) = Calls => PrintT("@@GEN " \o ToJson([hist |-> hist]))
=============================================================================
