---------------------------------- MODULE KL ----------------------------------
(***************************************************************************)
(* Truncation of the Karhunen-Loeve basis (C04).                           *)
(*                                                                         *)
(* power: the share of each component, in decreasing order, in integer     *)
(* units; Total is their sum up to rounding.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumTo(_, _)
SumTo(p, k) == IF k = 0 THEN 0 ELSE p[k] + SumTo(p, k - 1)

(* What is promised, declaratively: the shortest prefix whose residual is  *)
(* within the allowed loss; never empty; never longer than there are stars.*)
Residual(p, k) == SumTo(p, Len(p)) - SumTo(p, k)
Suffices(p, k, loss) == k = Len(p) \/ Residual(p, k) <= loss
Shortest(p, loss) ==
  CHOOSE k \in 1..Len(p) : Suffices(p, k, loss) /\ \A j \in 1..(k-1) : ~Suffices(p, j, loss)

(* the same up to tol units of rounding *)
AcceptableCount(p, k, loss, tol) ==
  /\ k \in 1..Len(p)
  /\ (k = Len(p) \/ Residual(p, k) <= loss + tol)
  /\ (k = 1 \/ Residual(p, k - 1) > loss - tol)

(* ----------------------- the loop, step by step ----------------------- *)
CONSTANTS N,        \* greatest number of stars
          Total,    \* units the powers sum up to
          Clamped   \* FALSE: the number of components may pass the number of stars
VARIABLES p, loss, i, pw, cut, pc
vars == <<p, loss, i, pw, cut, pc>>

Decreasing(s) == \A k \in 1..(Len(s)-1) : s[k] >= s[k+1]
Spectra == UNION {{s \in [1..n -> 0..Total] : Decreasing(s) /\ SumTo(s, n) = Total} : n \in 1..N}

Init == /\ p \in Spectra /\ loss \in (-1)..(Total + 1)   \* -1: rounding below zero
        /\ i = 1 /\ pw = Total /\ cut = 1 /\ pc = "loop"
Take == /\ pc = "loop" /\ i <= Len(p)
        /\ pw' = pw - p[i] /\ i' = i + 1
        /\ IF pw' > loss THEN cut' = cut + 1 /\ pc' = "loop"
           ELSE cut' = cut /\ pc' = "clamp"
        /\ UNCHANGED <<p, loss>>
Exhausted == /\ pc = "loop" /\ i > Len(p) /\ pc' = "clamp" /\ UNCHANGED <<p, loss, i, pw, cut>>
Clamp == /\ pc = "clamp" /\ pc' = "done"
         /\ cut' = IF Clamped /\ cut > Len(p) THEN Len(p) ELSE cut
         /\ UNCHANGED <<p, loss, i, pw>>
Next == Take \/ Exhausted \/ Clamp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

CutIsShortest == pc = "done" => cut = Shortest(p, loss)
CutInRange == pc = "done" => cut \in 1..Len(p)
LoopInvariant == pc = "loop" => /\ pw = Total - SumTo(p, i - 1) /\ cut = i
(* less loss, not fewer components *)
Monotone == pc = "done" => \A l2 \in (-1)..loss : Shortest(p, l2) >= cut
Terminates == <>(pc = "done")
(* AcceptableCount with no tolerance is exactly the shortest one *)
AcceptIsShortest == pc = "done" => \A k \in 0..(Len(p)+1) : AcceptableCount(p, k, loss, 0) <=> k = Shortest(p, loss)
===============================================================================
