----------------------------- MODULE StampsTrace -----------------------------
(***************************************************************************)
(* Judges observed star selections.  Each candidate comes with the         *)
(* measurements of its stamp; whether it must be or may not be used is     *)
(* decided here, with a margin within which either is right.               *)
(***************************************************************************)
EXTENDS TraceLib
FewStars == 20
KeepStars == 15
S == INSTANCE Stamps WITH FewLimit <- FewStars, KeepLimit <- KeepStars, MaxCand <- 0, Kinds <- {}, Guarded <- TRUE,
       cands <- <<>>, strict <- FALSE, k <- 0, pos <- <<>>, store <- <<>>, todel <- {}, cat <- <<>>, cut <- FALSE,
       asked <- FALSE, reads <- 0
VARIABLES rec, done

(* measurements in 1e-6: distances in units of the stamp size *)
Limit == [peak |-> 200000, sd |-> 150000, top |-> 500000, sig |-> 200000]
Margin == 20
MustReject(c) ==
  \/ c.peak > Limit.peak + Margin \/ c.sd > Limit.sd + Margin \/ c.top > Limit.top + Margin
  \/ (c.nmaxlo > 1 /\ c.nmaxhi > 1)
  \/ (c.nmaxlo = 1 /\ c.nmaxhi = 1 /\ c.sig > Limit.sig + Margin)
MustAccept(c) ==
  /\ c.peak < Limit.peak - Margin /\ c.sd < Limit.sd - Margin /\ c.top < Limit.top - Margin
  /\ c.nmaxlo <= 1 /\ c.nmaxhi <= 1
  /\ (c.nmaxlo = c.nmaxhi) /\ (c.nmaxlo = 1 => c.sig < Limit.sig - Margin)

Fails(r) ==
  LET n == Len(r.cands)
      eff == S!Effective(r.strict, n)
      picked == Range1(r.picked)
  IN Clause("unknown-position", \A i \in DOMAIN r.picked : r.picked[i] \in 1..n)
     \cup Clause("catalogue-order", \A i \in 1..(Len(r.picked)-1) : r.picked[i] < r.picked[i+1])
     \cup Clause("count-is-number-of-positions", r.n = Len(r.picked))
     \cup Clause("count-is-number-of-stamps", r.nstore = Len(r.picked))
     \cup (IF eff
           THEN Clause("accepted-one-to-reject", \A i \in 1..n : MustReject(r.cands[i]) => i \notin picked)
                \cup Clause("rejected-one-to-accept", \A i \in 1..n : MustAccept(r.cands[i]) => i \in picked)
           ELSE Clause("every-source-used", picked = 1..n))
     \cup Clause("catalogue-afterwards", r.cat = S!CatalogueAfter(r.strict, [i \in 1..n |-> "x"], r.picked))
     \cup Clause("stamp-is-normalised-cut-out", \A i \in DOMAIN r.stampres : r.stampres[i] <= 1000)
     \cup Clause("stamp-unit-sum", \A i \in DOMAIN r.stampsum : r.stampsum[i] <= 1000)
     \cup Clause("stamp-shape", r.shapeok)
     \cup Clause("stamps-cut-once", r.again)
     \cup Clause("image-left-alone", r.untouched)

JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
