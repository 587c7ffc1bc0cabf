------------------------------- MODULE GaussPSF -------------------------------
(***************************************************************************)
(* The Gaussian PSF of an image (C20): mean shape of its stars.            *)
(*                                                                         *)
(* A star is [sx, sy, c, s]: two widths and the direction (c, s)/5 of the  *)
(* first.  The same star is also [sy, sx, -s, c]: which of the two a fit   *)
(* returns is not determined.  Its width tensor is the same either way.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Directions == {<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<4, -3>>, <<3, -4>>}
Other(p) == [sx |-> p.sy, sy |-> p.sx, c |-> -p.s, s |-> p.c]
(* width tensor times 25 *)
XX(p) == p.sx * p.c * p.c + p.sy * p.s * p.s
YY(p) == p.sx * p.s * p.s + p.sy * p.c * p.c
XY(p) == (p.sx - p.sy) * p.s * p.c

(* ------------------------------ clipping ------------------------------- *)
RECURSIVE SumOf(_, _)
SumOf(v, K) == IF K = {} THEN 0 ELSE LET i == CHOOSE i \in K : TRUE IN v[i] + SumOf(v, K \ {i})
Median2(v, K) ==   \* twice the median
  LET n == Cardinality(K)
      rank == TLCEval([i \in K |-> Cardinality({j \in K : v[j] < v[i] \/ (v[j] = v[i] /\ j < i)})])
      at(k) == v[CHOOSE i \in K : rank[i] = k]
  IN at((n - 1) \div 2) + at(n \div 2)
(* n^2 times the variance *)
Spread(v, K) ==
  LET n == Cardinality(K)  m == v[CHOOSE i \in K : TRUE]
      d == TLCEval([i \in K |-> v[i] - m])  q == TLCEval([i \in K |-> d[i] * d[i]])  t == SumOf(d, K)
  IN n * SumOf(q, K) - t * t
(* how far from the median, in the units of 36 Spread *)
Far(v, K) ==
  LET m == Median2(v, K)  n == Cardinality(K)
  IN [i \in K |-> (2 * v[i] - m) * (2 * v[i] - m) * n * n]
Beyond(v, K) ==
  LET b == TLCEval(36 * Spread(v, K))  f == TLCEval(Far(v, K)) IN {i \in K : f[i] > b}
Rounds == 5
RECURSIVE Kept(_, _, _)
Kept(v, K, rounds) ==
  LET out == TLCEval(Beyond(v, K))
  IN IF rounds = 0 \/ out = {} THEN K ELSE Kept(v, K \ out, rounds - 1)
(* no star so near the limit that rounding could decide, in any round      *)
RECURSIVE Decided(_, _, _)
Decided(v, K, rounds) ==
  LET w == TLCEval(Spread(v, K))  b == 36 * (w \div 100)  far == TLCEval(Far(v, K))  out == TLCEval(Beyond(v, K))
  IN /\ w > 100
     /\ \A i \in K : LET f == far[i] \div 100 IN f <= b - b \div 20 - 1 \/ f > b + b \div 20 + 1
     /\ (rounds = 0 \/ out = {} \/ Decided(v, K \ out, rounds - 1))

Column(F(_), stars) == TLCEval([i \in DOMAIN stars |-> F(stars[i])])
(* the stars that count: near the others in all three components           *)
Counted(cols) ==
  LET D == DOMAIN cols[1]
        kept_ == TLCEval([k \in DOMAIN cols |-> Kept(cols[k], D, Rounds)])
  IN {i \in D : \A k \in DOMAIN cols : i \in kept_[k]}
AllDecided(cols) == \A k \in DOMAIN cols : Decided(cols[k], DOMAIN cols[k], Rounds)

(* ------------------------------- the run ------------------------------- *)
BaseLong == <<5, 2>>
BaseRound == <<5, 5>>
CONSTANTS Widths, Base, Stars, Design
VARIABLES sky,    \* the true shapes
          fit,    \* what the fits returned so far
          kept, pc
vars == <<sky, fit, kept, pc>>
Shapes == {[sx |-> a, sy |-> b, c |-> d[1], s |-> d[2]] : a \in Widths, b \in Widths, d \in Directions}
BaseShapes == {[sx |-> Base[1], sy |-> Base[2], c |-> d[1], s |-> d[2]] : d \in Directions}
Init == /\ \E b \in BaseShapes, o \in Shapes, at \in {0, 1, Stars} :
             sky = [i \in 1..Stars |-> IF i = at THEN o ELSE b]
        /\ fit = <<>> /\ kept = {} /\ pc = "fit"
(* the fits fall on either branch; by symmetry only how many do matters    *)
Fit == /\ pc = "fit" /\ Len(fit) < Stars
       /\ LET p == sky[Len(fit) + 1]
          IN \/ fit' = Append(fit, p)
             \/ /\ (IF Len(fit) = 0 THEN TRUE ELSE fit[Len(fit)] = Other(sky[Len(fit)])) /\ fit' = Append(fit, Other(p))
       /\ UNCHANGED <<sky, kept, pc>>
Columns == TLCEval(IF Design = "parameters" THEN <<[i \in 1..Stars |-> 25 * fit[i].sx], [i \in 1..Stars |-> 25 * fit[i].sy]>>
           ELSE <<Column(XX, fit), Column(YY, fit), Column(XY, fit)>>)
Clip == /\ pc = "fit" /\ Len(fit) = Stars /\ pc' = "done"
        /\ kept' = IF Design = "no-clip" THEN 1..Stars
                   ELSE Counted(Columns)
        /\ UNCHANGED <<sky, fit>>
Next == Fit \/ Clip
Spec == Init /\ [][Next]_vars

(* the mean shape, as trace and squared difference of its widths, times n  *)
Tr == IF Design = "parameters" THEN SumOf(Columns[1], kept) + SumOf(Columns[2], kept)
      ELSE SumOf(Column(XX, fit), kept) + SumOf(Column(YY, fit), kept)
Diff2 == LET d == IF Design = "parameters" THEN SumOf(Columns[1], kept) - SumOf(Columns[2], kept)
                  ELSE SumOf(Column(XX, fit), kept) - SumOf(Column(YY, fit), kept)
             x == IF Design = "parameters" THEN 0 ELSE SumOf(Column(XY, fit), kept)
         IN d * d + 4 * x * x
Same == \A i, j \in 1..Stars : sky[i] = sky[j]
Lone == {i \in 1..Stars : \A j \in (1..Stars) \ {i} : sky[j] # sky[i]}
(* stars of one shape give that shape, whatever its direction              *)
SameStarsSameShape == (pc = "done" /\ Same) =>
  LET n == Cardinality(kept)  p == sky[1]
  IN n > 0 /\ Tr = 25 * n * (p.sx + p.sy) /\ Diff2 = 625 * n * n * (p.sx - p.sy) * (p.sx - p.sy)
(* a star of another shape among enough equal ones does not count          *)
Alike(p, r) == XX(p) = XX(r) /\ YY(p) = YY(r) /\ XY(p) = XY(r)
OutlierHarmless == (pc = "done" /\ Lone # {} /\ Stars > 11) =>
  kept = {i \in 1..Stars : i \notin Lone \/ Alike(sky[i], sky[(i % Stars) + 1])}
BranchFree == pc = "done" => kept = Counted(<<Column(XX, sky), Column(YY, sky), Column(XY, sky)>>)
===============================================================================
