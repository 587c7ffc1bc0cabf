-------------------------------- MODULE Plots --------------------------------
(***************************************************************************)
(* Plots of PSF components and coefficient fields (C16).                   *)
(*                                                                         *)
(* A call draws N items on axes it makes itself (given = -1) or on the     *)
(* given ones, or refuses without drawing anything.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Most,   \* greatest number of components
          Design  \* "sound", "narrow" (whole square root on both sides), "late" (axes counted after drawing), "from-zero" (titles from 0)
(* ------------------------- the grid of axes ---------------------------- *)
Divides(d, n) == n % d = 0
PrimeFactors(n) == {d \in 2..(n \div 2) : Divides(d, n) /\ \A e \in 2..(d - 1) : ~Divides(e, d)}
Greatest(S) == CHOOSE m \in S : \A x \in S : x <= m
Factor(n) == LET P == PrimeFactors(n) IN
  IF P = {} THEN n ELSE IF Cardinality(P) >= 4 THEN Greatest(P) * Greatest(P \ {Greatest(P)}) ELSE Greatest(P)
(* nearest whole number to the square root: r*(r-1) < n <= r*(r+1) *)
Root(n) == CHOOSE r \in 1..n : r * (r - 1) < n /\ n <= r * (r + 1)
Floor(n) == CHOOSE r \in 1..n : r * r <= n /\ n < (r + 1) * (r + 1)
Grid(n) == IF n = 3 THEN <<1, 3>>
           ELSE IF Factor(n) = n THEN (IF Design = "narrow" THEN <<Floor(n), Floor(n) + 1>> ELSE <<Root(n), Root(n) + 1>>)
           ELSE <<(n \div Factor(n)) + (n % Factor(n)), Factor(n)>>
Room(g) == g[1] * g[2]

(* ------------------------------ one call ------------------------------- *)
Ops == {"autopsf", "autopsf_coef"}
VARIABLES op, n, given, pc, k, drawn, titles, result
vars == <<op, n, given, pc, k, drawn, titles, result>>
Init == /\ op \in Ops /\ n \in 1..Most /\ given \in (-1)..(Most + 1)
        /\ pc = "data" /\ k = 1 /\ drawn = <<>> /\ titles = <<>> /\ result = "none"
Data == /\ pc = "data" /\ UNCHANGED <<op, n, given, k, drawn, titles>>
        /\ IF op = "autopsf_coef" /\ n = 1 THEN pc' = "done" /\ result' = "nodata" ELSE pc' = "axes" /\ UNCHANGED result
Axs == IF given = -1 THEN Room(Grid(n)) ELSE given
Axes == /\ pc = "axes" /\ UNCHANGED <<op, n, given, k, drawn, titles>>
        /\ IF Axs < n /\ Design # "late" THEN pc' = "done" /\ result' = "refused" ELSE pc' = "draw" /\ UNCHANGED result
Draw == /\ pc = "draw" /\ UNCHANGED <<op, n, given>>
        /\ IF k <= n /\ k <= Axs THEN drawn' = Append(drawn, k) /\ titles' = Append(titles, IF Design = "from-zero" THEN k - 1 ELSE k) /\ k' = k + 1 /\ UNCHANGED <<pc, result>>
           ELSE pc' = "done" /\ result' = (IF Axs < n THEN "refused" ELSE "axes") /\ UNCHANGED <<k, drawn, titles>>
Next == Data \/ Axes \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OwnGridSuffices == given = -1 => result # "refused"
Counted(m) == [i \in 1..m |-> i]
EachOnceInOrder == result = "axes" => drawn = Counted(n) /\ titles = Counted(n)
RefusedUndrawn == result \in {"refused", "nodata"} => drawn = <<>>
RefusedExactly == pc = "done" => /\ (result = "nodata") = (op = "autopsf_coef" /\ n = 1)
                                 /\ (result = "refused") = (result # "nodata" /\ given # -1 /\ given < n)
GridsSuffice == \A m \in 1..400 : Room(Grid(m)) >= m
Ends == <>(pc = "done")
===============================================================================
