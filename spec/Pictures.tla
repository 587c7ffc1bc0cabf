------------------------------ MODULE Pictures ------------------------------
(***************************************************************************)
(* Histories of the pictures of subtractions, plot_S and plot_R (C16).     *)
(*                                                                         *)
(* A figure is the sequence of the calls drawn on it.  A call draws on the *)
(* current figure (the last one open), or on a new one; unless it is made  *)
(* for a notebook it closes that figure.  It returns axes.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Calls,  \* length of the histories
          Design  \* "sound", "late" (axes looked up after closing), "none" (nothing returned by plot_R), "open" (never closed)
Ops == {"S", "R"}
VARIABLES figs, got, hist
vars == <<figs, got, hist>>
Init == figs = <<>> /\ got = <<>> /\ hist = <<>>
Picture(op, nbook) ==
  LET k == Len(hist) + 1
      old == IF figs = <<>> THEN <<>> ELSE figs[Len(figs)]
      rest == IF figs = <<>> THEN <<>> ELSE SubSeq(figs, 1, Len(figs) - 1)
      new == Append(old, k)
      after == IF nbook \/ Design = "open" THEN Append(rest, new) ELSE rest
      (* looking up the current axes opens a figure if there is none *)
      late == IF after = <<>> THEN << <<>> >> ELSE after
  IN /\ Len(hist) < Calls
     /\ hist' = Append(hist, [op |-> op, nbook |-> nbook])
     /\ IF Design = "late" THEN figs' = late /\ got' = Append(got, late[Len(late)])
        ELSE figs' = after /\ got' = Append(got, IF Design = "none" /\ op = "R" THEN <<>> ELSE new)
Next == \E op \in Ops, nbook \in BOOLEAN : Picture(op, nbook)
Spec == Init /\ [][Next]_vars
(* the axes returned show what was given, on top of anything drawn before *)
ShowsItsImage == \A k \in DOMAIN got : got[k] # <<>> /\ got[k][Len(got[k])] = k
(* no figure is left behind except for a notebook *)
LeavesNone == hist # <<>> /\ ~hist[Len(hist)].nbook => figs = <<>>
AtMostOne == Len(figs) <= 1
=============================================================================
