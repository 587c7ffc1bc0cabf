------------------------------ MODULE StampSize ------------------------------
(***************************************************************************)
(* The usual size of a star stamp (C06): three times the square root of    *)
(* the 65th percentile of the sizes of the sources in use, whole, made     *)
(* odd, at least 5.  All arithmetic is on integers: percentiles times 20.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(* 65th percentile of an ascending sequence, times 20 *)
Pct20(s) ==
  LET h == 13 * (Len(s) - 1)  k == h \div 20  r == h % 20
  IN IF r = 0 THEN 20 * s[k + 1] ELSE s[k + 1] * (20 - r) + s[k + 2] * r
Least == 5
Odd(k) == IF k % 2 = 1 THEN k ELSE k + 1
Usual(k) == LET d == Odd(k) IN IF d < Least THEN Least ELSE d
(* k is the whole part of 3 sqrt(v / 20) *)
Whole(k, v) == 20 * k * k <= 9 * v /\ 20 * (k + 1) * (k + 1) > 9 * v
(* rounding may fall on either side of an exact root of an interpolation *)
WholeOrLess(k, v) == Whole(k, v) \/ 20 * (k + 1) * (k + 1) = 9 * v
SizeOK(d, v) == \E k \in {d - 1, d} \cup (IF d = Least THEN 0..Least ELSE {}) :
                   k >= 0 /\ WholeOrLess(k, v) /\ Usual(k) = d

CONSTANTS Sizes, Most, MakeOdd, FromStars
VARIABLES s, k, pc
vars == <<s, k, pc>>
Ascending(n) == {f \in [1..n -> Sizes] : \A i \in 1..(n-1) : f[i] <= f[i+1]}
Init == s \in UNION {Ascending(n) : n \in 1..Most} /\ k = 0 /\ pc = "grow"
V == IF FromStars THEN Pct20(s) ELSE 20 * s[Len(s)]
Next == \/ /\ pc = "grow" /\ 20 * (k + 1) * (k + 1) <= 9 * V /\ k' = k + 1 /\ UNCHANGED <<s, pc>>
        \/ /\ pc = "grow" /\ 20 * (k + 1) * (k + 1) > 9 * V
           /\ k' = (IF MakeOdd THEN Usual(k) ELSE IF k < Least THEN Least ELSE k) /\ pc' = "done" /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
HasCentre   == pc = "done" => k % 2 = 1 /\ k >= Least
AsPromised  == pc = "done" => SizeOK(k, Pct20(s))
(* never smaller than the promised width, and at most two pixels beyond    *)
Holds       == pc = "done" => 20 * (k + 1) * (k + 1) > 9 * Pct20(s) /\ (k > Least => 20 * (k - 1) * (k - 1) <= 9 * Pct20(s))
==============================================================================
