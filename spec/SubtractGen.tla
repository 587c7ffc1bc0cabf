----------------------------- MODULE SubtractGen -----------------------------
(* Scenarios of a subtraction: every option set, with what the minimiser is
   made to answer, and the program that gives the expected images. *)
EXTENDS Proper, Json, FiniteSets
VARIABLES o, ans, stage
Options == [fitted : BOOLEAN, beta : BOOLEAN, shift : BOOLEAN, iterative : BOOLEAN]
Answers == {"found", "edge", "failed", "own"}
Init == o \in Options /\ stage = "options" /\ ans = ""
Next == stage = "options" /\ stage' = "go" /\ UNCHANGED o
        /\ ans' \in (IF Asked(o) = "nothing" THEN {"own"} ELSE Answers)
Force(u) == <<u, IF ans # "failed" /\ \E j \in DOMAIN Unknowns(Asked(o)) : Unknowns(Asked(o))[j] = u THEN V("found_" \o u)
                 ELSE IF u = "b" THEN Div(V("zn"), V("zr")) ELSE K(0)>>
Emit == stage = "go" =>
  PrintT("@@GEN " \o ToJson([o |-> o, ans |-> ans, asked |-> Asked(o), unknowns |-> Unknowns(Asked(o)),
     lower |-> [j \in DOMAIN Unknowns(Asked(o)) |-> Lower(Unknowns(Asked(o))[j])],
     upper |-> [j \in DOMAIN Unknowns(Asked(o)) |-> Upper(Unknowns(Asked(o))[j])],
     program |-> <<Force("b"), Force("dy"), Force("dx")>> \o SubtractProgram, cost |-> CostProgram]))
===============================================================================
