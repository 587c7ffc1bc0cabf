------------------------------ MODULE PlotsGen ------------------------------
EXTENDS Plots, Json
Emit == pc = "done" => PrintT("@@GEN " \o ToJson([op |-> op, n |-> n, given |-> given, result |-> result]))
===============================================================================
