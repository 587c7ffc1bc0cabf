-------------------------------- MODULE Clean --------------------------------
(***************************************************************************)
(* The cleaned image (C15) on a line of pixels, window reaching R pixels.  *)
(* Two runs are made side by side on the same good pixels but with other   *)
(* values stored in the bad ones.  "bad" is what was masked or not finite, *)
(* "ray" what the cosmic-ray detector says.  A value is <<sum, weight>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt
CONSTANTS N, R, Values,
          Design  \* "sound", "leak" (bad pixels enter the mean), "rays-kept", "holes" (windows without good pixels give no number), "smooth" (good pixels averaged too)
Classes == {"good", "bad", "ray"}
Line == 1..N
VARIABLES cls, v, w, out, outw, pc
vars == <<cls, v, w, out, outw, pc>>
Good == {k \in Line : cls[k] = "good"}
Replaced == IF Design = "rays-kept" THEN {k \in Line : cls[k] = "bad"} ELSE Line \ Good
Window(k) == {j \in Line : j - k \in (-R)..R}
(* pixels of the window outside the line count as zero sky *)
Outside(k) == (2 * R + 1) - Cardinality(Window(k))
Sum(S, x) == FoldSet(LAMBDA j, s : s + x[j], 0, S)
NoNumber == <<0, 0>>
Fill(k, x) ==
  LET src == IF Design = "leak" THEN Window(k) ELSE Window(k) \ Replaced
      n == Cardinality(src) + Outside(k) IN
  IF Design = "smooth" /\ cls[k] = "good" THEN <<Sum(src, x), n>>
  ELSE IF k \notin Replaced THEN <<x[k], 1>>
  ELSE IF n = 0 THEN (IF Design = "holes" THEN NoNumber ELSE <<0, 1>>)
  ELSE <<Sum(src, x), n>>
Init == /\ cls \in [Line -> Classes] /\ v \in [Line -> {x - 2 : x \in Values}] /\ w \in [Line -> {x - 2 : x \in Values}]
        /\ \E k \in Line : cls[k] = "good"
        /\ \A k \in Line : cls[k] = "good" => v[k] = w[k]
        /\ out = <<>> /\ outw = <<>> /\ pc = "clean"
Clean == /\ pc = "clean" /\ pc' = "done"
         /\ out' = [k \in Line |-> Fill(k, v)] /\ outw' = [k \in Line |-> Fill(k, w)] /\ UNCHANGED <<cls, v, w>>
Next == Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finite == pc = "done" => \A k \in Line : out[k][2] > 0
GoodKept == pc = "done" => \A k \in Good : out[k] = <<v[k], 1>>
Independent == pc = "done" => out = outw
Most(S) == CHOOSE m \in S : \A x \in S : x <= m
Hull(k) == {0} \cup {v[j] : j \in Window(k) \cap Good}
WithinRange == pc = "done" => \A k \in Line \ Good : LET h == Hull(k) IN
                 out[k][1] <= out[k][2] * Most(h) /\ out[k][1] >= -(out[k][2] * Most({-x : x \in h}))
Ends == <>(pc = "done")
===============================================================================
