------------------------------ MODULE ScoreTrace ------------------------------
(* Judges catalogues.  v: pixel values, integers in units of 1/r.unit;      *)
(* sg: significance of every pixel in thousandths; thr likewise.            *)
EXTENDS TraceLib
M == INSTANCE Score WITH H <- 0, W <- 0, Design <- "merge", on <- {}, lab <- <<>>, at <- 0, nextlab <- 0
VARIABLES rec, done
On(r) == {c \in (0..(r.h - 1)) \X (0..(r.w - 1)) : r.sg[c[1] + 1][c[2] + 1] > r.thr}
V(r, c) == r.v[c[1] + 1][c[2] + 1]
(* centre of a group: <<sum of values, sum of value*row, sum of value*column>> *)
Sums(r, g) == FoldSet(LAMBDA c, s : <<s[1] + V(r, c), s[2] + V(r, c) * c[1], s[3] + V(r, c) * c[2]>>, <<0, 0, 0>>, g)
(* e: entry <<column, row, significance>> in thousandths, s: sums; 0.002 of a pixel *)
AtCentre(r, e, s) == Abs(e[1] * s[1] - 1000 * s[3]) <= 2 * Abs(s[1]) /\ Abs(e[2] * s[1] - 1000 * s[2]) <= 2 * Abs(s[1])
(* fraction dropped; a centre computed in floating point may fall short of a whole number *)
Whole(r, a, s) == IF r.exact THEN {a \div s} ELSE {(1000 * a - 2 * s) \div (1000 * s), (1000 * a + 2 * s) \div (1000 * s)}
Pixel(r, s) == {<<y, x>> \in Whole(r, s[2], s[1]) \X Whole(r, s[3], s[1]) : TRUE}
SigOk(r, e, s) == \E p \in Pixel(r, s) : p[1] >= 0 /\ p[2] >= 0 /\ p[1] < r.h /\ p[2] < r.w /\ Abs(e[3] - r.sg[p[1] + 1][p[2] + 1]) <= 2 + Abs(e[3]) \div 100000
Judge(r, gs) ==
  LET sums == TLCEval({<<g, Sums(r, g)>> : g \in gs}) IN
  Clause("one-entry-per-group", Len(r.cat) = Cardinality(gs))
  \cup Clause("group-without-entry", \A s \in sums : \E k \in DOMAIN r.cat : AtCentre(r, r.cat[k], s[2]))
  \cup Clause("entry-without-group", \A k \in DOMAIN r.cat : \E s \in sums : AtCentre(r, r.cat[k], s[2]))
  \cup Clause("significance", \A k \in DOMAIN r.cat : LET m == {s \in sums : AtCentre(r, r.cat[k], s[2])} IN m = {} \/ \E s \in m : SigOk(r, r.cat[k], s[2]))
  \cup Clause("map-altered", r.untouched)
  \cup Clause("entry-shape", r.triples)
Fails(r) == UNION {Judge(r, gs) : gs \in {M!Groups(On(r))}}
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
