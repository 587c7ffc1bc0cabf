------------------------------- MODULE MatchMC -------------------------------
EXTENDS Match
CONSTANTS Side, Rows, R2, Mags
VARIABLES a, b, m, st
Spot == [x : 0..Side, y : 0..1]
Cats == UNION {[1..n -> Spot] : n \in 0..Rows}
Init == /\ st = "start" /\ a \in Cats /\ b = <<>> /\ m = <<>>
Next == \/ /\ st = "start" /\ st' = "match" /\ b' \in Cats /\ UNCHANGED <<a, m>>
        \/ /\ st = "start" /\ a = <<>> /\ st' = "fit" /\ UNCHANGED <<a, b>>
           /\ \E p \in 1..3, q \in 1..2 : m' \in [1..p -> [1..q -> Mags]]
Converse(ps) == {<<p[2], p[1]>> : p \in ps}
Matched == st = "match" /\ Clear(a, b, R2)
OneToOne == Matched => IsMatching(Pairs(a, b, R2))
Symmetric == st = "match" => Pairs(b, a, R2) = Converse(Pairs(a, b, R2))
OneSidedIsNotOneToOne == Matched => IsMatching(OneSided(a, b, R2))
(* two mutual nearest stars exist whenever any two lie within the radius *)
ClosestPairFound == Matched /\ (\E i \in DOMAIN a, k \in DOMAIN b : D2(a[i], b[k]) < R2) => Pairs(a, b, R2) # {}
(* the stated solution leaves residuals that sum to nothing over every image
   and every star: it is the least-squares one *)
NormalEquations == st = "fit" =>
  LET p == Len(m) q == Len(m[1]) IN
  /\ \A j \in 1..p : SumOver(q, LAMBDA n : p * q * m[j][n] - Fitted(m, j, n)) = 0
  /\ \A n \in 1..q : SumOver(p, LAMBDA j : p * q * m[j][n] - Fitted(m, j, n)) = 0
  /\ \A j \in 1..p, n \in 1..q : Fitted(m, j, n) - Fitted(m, 1, n) = ZpDiff(m, j)
===============================================================================
