------------------------------ MODULE SubCallGen ------------------------------
(* Scenarios: what relation of two calls is looked at, on inputs in which forms *)
EXTENDS SubCall, Json
Relations == {"swap", "self", "twin", "form", "sizes", "again", "history"}
Emit == pc = "done" /\ align =>
     PrintT("@@GEN " \o ToJson([rel |-> "align", formr |-> formr, formn |-> formn, fitted |-> fitted, expect |-> result, sizes |-> sizes]))
EmitPlain == pc = "done" /\ ~align =>
  \A rel \in (IF sizes = "other" THEN {"sizes"} ELSE Relations \ {"sizes"}) :
     PrintT("@@GEN " \o ToJson([rel |-> rel, formr |-> formr, formn |-> formn, fitted |-> fitted, expect |-> result]))
===============================================================================
