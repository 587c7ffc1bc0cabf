------------------------------ MODULE ScoreGen ------------------------------
EXTENDS Score, Json
Emit == at = 0 => PrintT("@@GEN " \o ToJson([on |-> on, groups |-> Cardinality(Groups(on))]))
Stay == UNCHANGED vars
===============================================================================
