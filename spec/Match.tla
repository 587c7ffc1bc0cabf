-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Star identification between catalogues (C11) and the relative zero      *)
(* points of a set of images (C10).  Positions in tenths of a pixel,       *)
(* magnitudes in thousandths; a catalogue is a sequence of rows.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

D2(a, b) == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
Least(S) == CHOOSE m \in S : \A k \in S : m <= k
(* indices of the rows of B nearest to a among those within the radius *)
Near(a, B, r2) == LET S == {k \in DOMAIN B : D2(a, B[k]) < r2} IN
                  IF S = {} THEN {} ELSE LET m == Least({D2(a, B[k]) : k \in S}) IN {k \in S : D2(a, B[k]) = m}
Clear(A, B, r2) == /\ \A i \in DOMAIN A : Cardinality(Near(A[i], B, r2)) <= 1
                   /\ \A k \in DOMAIN B : Cardinality(Near(B[k], A, r2)) <= 1
                   /\ \A i \in DOMAIN A, k \in DOMAIN B : D2(A[i], B[k]) # r2
(* v evaluated once *)
With(v, Op(_)) == CHOOSE y \in {Op(x) : x \in {v}} : TRUE
Nears(A, B, r2) == [i \in DOMAIN A |-> Near(A[i], B, r2)]
Pairs(A, B, r2) ==
  With(<<TLCEval(Nears(A, B, r2)), TLCEval(Nears(B, A, r2))>>, LAMBDA n : UNION {{<<i, k>> : k \in {k \in n[1][i] : i \in n[2][k]}} : i \in DOMAIN A})
OneSided(A, B, r2) == {p \in (DOMAIN A) \X (DOMAIN B) : p[1] \in Near(B[p[2]], A, r2)}
IsMatching(ps) == \A p, q \in ps : (p[1] = q[1]) = (p[2] = q[2])

(* the rows of the first catalogue found in every other one *)
Radius2 == 400
AllPairs(cats) == TLCEval([j \in DOMAIN cats |-> IF j = 1 THEN {<<i, i>> : i \in DOMAIN cats[1]} ELSE Pairs(cats[1], cats[j], Radius2)])
CommonIn(P) == {i \in {q[1] : q \in P[1]} : \A j \in DOMAIN P : \E r \in P[j] : r[1] = i}
Common(cats) == With(AllPairs(cats), LAMBDA P : CommonIn(P))
(* m[j][i] : magnitude in catalogue j of the i-th common star (in the order of the first catalogue) *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == Least(S) IN <<m>> \o Sorted(S \ {m})
MagnitudesIn(cats, P) ==
  With(TLCEval(Sorted(CommonIn(P))), LAMBDA c : TLCEval([j \in DOMAIN cats |-> [n \in DOMAIN c |-> cats[j][(CHOOSE p \in P[j] : p[1] = c[n])[2]].mag]]))
Magnitudes(cats) == With(AllPairs(cats), LAMBDA P : MagnitudesIn(cats, P))
SumOver(n, f(_)) == FoldSet(LAMBDA i, a : a + f(i), 0, 1..n)
RowSum(m, j) == SumOver(Len(m[j]), LAMBDA n : m[j][n])
ColSum(m, n) == SumOver(Len(m), LAMBDA j : m[j][n])
AllSum(m) == SumOver(Len(m), LAMBDA j : RowSum(m, j))
(* the least-squares solution, in units of 1/(p q): zero points relative to the first image, and fitted magnitudes *)
ZpDiff(m, j) == Len(m) * (RowSum(m, j) - RowSum(m, 1))
Fitted(m, j, n) == Len(m) * RowSum(m, j) + Len(m[1]) * ColSum(m, n) - AllSum(m)
===============================================================================
