------------------------------ MODULE StarDBTrace ------------------------------
(* Each record is the history of some images over threads and processes with, *)
(* for every operation, the files created, changed and removed by it.         *)
EXTENDS TraceLib
VARIABLES rec, l, st, owned
Images == 1..8
S == INSTANCE StarDB
Ev == Trace[rec].events
JInit == rec \in DOMAIN Trace /\ l = 1 /\ S!SInit

Broken(e) ==
  LET mine == owned[e.i]
      made == Range1(e.made)  gone == Range1(e.gone)  changed == Range1(e.changed)
  IN (IF e.op = "leave"
      THEN Clause("own-files-not-removed", mine \subseteq gone)
           \cup Clause("foreign-file-removed", gone \subseteq mine)
           \cup Clause("file-made-on-leaving", made = {})
           \cup Clause("exception-of-the-block-lost", e.out = e.x)
      ELSE IF e.op = "lose" THEN Clause("harness-lose", gone \subseteq mine)
      ELSE Clause("foreign-file-removed", gone \subseteq mine)
           \cup Clause("file-of-another-image-changed", changed \subseteq mine)
           \cup Clause("operation-failed", e.out = "")
           \cup (IF e.op \in {"read", "cut"} THEN Clause("foreign-stamps-read", e.val = Trace[rec].content[e.i]) ELSE {}))
     \cup Clause("foreign-file-changed", changed \subseteq mine)

(* Explained by a step of the ownership specification, or broken; either way *)
(* the observed files are taken over, so that the verdict is total.          *)
Explained(e) ==
  CASE e.op = "new" -> S!New(e.i)
    [] e.op = "cut" -> S!Cut(e.i, Range1(e.made))
    [] e.op = "read" -> S!Read(e.i)
    [] e.op = "drop" -> S!Drop(e.i)
    [] e.op = "leave" -> S!Leave(e.i)
    [] e.op = "lose" -> \E f \in Range1(e.gone) : S!Lose(e.i, f)
NextSt(e) == CASE e.op = "new" -> "live" [] e.op = "cut" -> "cut" [] e.op = "drop" -> "dropped"
               [] e.op = "leave" -> "left" [] OTHER -> st[e.i]
Move(e) ==
  /\ st' = [st EXCEPT ![e.i] = NextSt(e)]
  /\ owned' = [j \in Images |-> (owned[j] \ Range1(e.gone)) \cup (IF j = e.i THEN Range1(e.made) ELSE {})]

JNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED rec
         /\ Move(Ev[l])
         /\ LET b == Broken(Ev[l])
            IN Report(Trace[rec].id, IF b # {} THEN b ELSE Clause("not-a-step-of-the-specification", Explained(Ev[l])))
===============================================================================
