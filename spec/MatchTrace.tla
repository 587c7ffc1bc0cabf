------------------------------ MODULE MatchTrace ------------------------------
EXTENDS TraceLib
M == INSTANCE Match
VARIABLES rec, done
Rows(cats, o) == [j \in DOMAIN o |-> cats[o[j]]]
(* catalogues of a call, first one first *)
Called(r, c) == Rows(r.cats, IF c.master = 0 THEN c.images ELSE <<c.master>> \o c.images)
Unclear(cs) == \E j \in 2..Len(cs) : ~M!Clear(cs[1], cs[j], M!Radius2)
Tol == 40   \* 1e-5 magnitudes
(* observed rows carry the number of the catalogue's original row *)
Kept(r, c) == \A j \in DOMAIN c.after : c.after[j].intact /\ Len(c.after[j].rows) = Len(r.cats[c.after[j].image])
                 /\ Range1(c.after[j].rows) = DOMAIN r.cats[c.after[j].image]
ZpJudged(c, m) ==
  LET q == Len(m[1]) p == Len(m) IN
  Clause("one-zero-point-per-image", Len(c.zps) = p)
  \cup (IF q = 0 THEN Clause("zero-points-without-common-stars", \A j \in DOMAIN c.zps : c.zps[j] = 100000) \cup Clause("no-magnitudes", Len(c.mags) = 0)
        ELSE Clause("one-magnitude-per-common-star", Len(c.mags) = q)
             \cup (IF Len(c.mags) # q \/ Len(c.zps) # p THEN {} ELSE
                   Clause("zero-point-differences", \A j \in 1..p : Abs(q * (c.zps[j] - c.zps[1]) - 100 * (M!RowSum(m, j) - M!RowSum(m, 1))) <= q * Tol)
                   \cup Clause("star-magnitudes", \A n \in 1..q : Abs(p * (c.mags[n] - c.mags[1]) - 100 * (M!ColSum(m, n) - M!ColSum(m, 1))) <= p * Tol)
                   \cup Clause("fitted-magnitudes", Abs(p * q * (c.zps[1] + c.mags[1] - 2000000) - 100 * M!Fitted(m, 1, 1)) <= p * q * Tol)))
ZpFails(r, c) ==
  LET cs == Called(r, c) IN IF Unclear(cs) THEN {} ELSE M!With(M!Magnitudes(cs), LAMBDA m : ZpJudged(c, m))
LabelFails(r, c) ==
  LET cs == Called(r, c) IN
  UNION {LET A == cs[1] B == cs[1 + c.labels[j].at]
             got == {<<c.labels[j].pairs[n][1], c.labels[j].pairs[n][2]>> : n \in DOMAIN c.labels[j].pairs} IN
         Clause("identified-twice", M!IsMatching(got) /\ Cardinality(got) = Len(c.labels[j].pairs))
         \cup (IF M!Clear(A, B, M!Radius2) THEN Clause("mutual-nearest", got = M!Pairs(A, B, M!Radius2)) ELSE {})
         : j \in DOMAIN c.labels}
(* nearest neighbour queries: squared distances and radius are exact integers *)
QD2(a, b) == FoldSeq(LAMBDA i, s : s + i, 0, [n \in DOMAIN a |-> (a[n] - b[n]) * (a[n] - b[n])])
QueryFails(r) ==
  Clause("one-answer-per-point", Len(r.ind) = Len(r.p) /\ Len(r.dist) = Len(r.p)) \cup
  (IF Len(r.ind) # Len(r.p) \/ Len(r.dist) # Len(r.p) THEN {} ELSE
   Clause("nearest-neighbour",
     \A i \in DOMAIN r.p : LET S == {k \in DOMAIN r.s : r.r2 < 0 \/ QD2(r.p[i], r.s[k]) < r.r2} IN
        IF S = {} THEN r.dist[i] = "inf" /\ r.ind[i] = Len(r.s)
        ELSE /\ r.ind[i] + 1 \in S /\ \A k \in S : QD2(r.p[i], r.s[r.ind[i] + 1]) <= QD2(r.p[i], r.s[k])
             /\ r.dist[i] = ToString(QD2(r.p[i], r.s[r.ind[i] + 1])))
   \cup Clause("points-left-alone", r.untouched))
(* one call of the identification: names[i] is the name of row i of the first catalogue; ids, flags per row of the second *)
IdentFails(r) ==
  LET A == r.cats[1] B == r.cats[2]
      got == {<<i, k>> \in (DOMAIN A) \X (DOMAIN r.ids) : r.ids[k] = r.names[i]} IN
  IF Len(r.ids) # Len(B) THEN {"one-answer-per-row"} ELSE
  Clause("identified-twice", M!IsMatching(got))
  \cup Clause("unknown-name", \A k \in DOMAIN r.ids : r.ids[k] < 0 \/ \E i \in DOMAIN A : r.ids[k] = r.names[i])
  \cup Clause("flag-says-identified", r.masked => Len(r.flags) = Len(r.ids) /\ \A k \in DOMAIN r.ids : r.flags[k] = (r.ids[k] >= 0))
  \cup (IF M!Clear(A, B, r.r2) THEN Clause("mutual-nearest", got = M!Pairs(A, B, r.r2)) ELSE {})
  \cup Clause("catalogues-left-alone", r.untouched)
Fails(r) ==
  CASE r.kind = "zero" -> UNION {ZpFails(r, r.calls[n]) \cup Clause("catalogue-rows", Kept(r, r.calls[n])) : n \in DOMAIN r.calls}
    [] r.kind = "label" -> UNION {LabelFails(r, r.calls[n]) : n \in DOMAIN r.calls}
    [] r.kind = "ident" -> IdentFails(r)
    [] r.kind = "query" -> QueryFails(r)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
