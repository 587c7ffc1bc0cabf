---------------------------- MODULE GaussPSFTrace ----------------------------
EXTENDS TraceLib
G == INSTANCE GaussPSF WITH Widths <- {}, Base <- <<>>, Stars <- 0, Design <- "sound", sky <- <<>>, fit <- <<>>, kept <- {}, pc <- ""
VARIABLES rec, done

(* stars: width tensors in hundredths of a pixel; seen: ten-thousandths     *)
Near(obs, v, K, tol) == Abs(obs * Cardinality(K) - 100 * G!SumOf(v, K)) <= tol * Cardinality(K)
Played(r) ==
  LET K == G!Counted(r.stars)
  IN Clause("shape-of-the-stars", G!AllDecided(r.stars) => \A k \in 1..3 : Near(r.seen[k], r.stars[k], K, 3))
     \cup Clause("shape-between-stars", \A k \in 1..3 : \E i, j \in DOMAIN r.stars[k] :
                   100 * r.stars[k][i] - 3 <= r.seen[k] /\ r.seen[k] <= 100 * r.stars[k][j] + 3)
Fails(r) ==
  Clause("single-component", r.single)
  \cup Clause("rendered-shape", r.render <= 100000)
  \cup Clause("unit-peak-centred-odd", r.centred)
  \cup Clause("same-when-asked-again", r.again)
  \cup Clause("image-untouched", r.untouched)
  \cup (IF r.kind = "played" THEN Played(r) ELSE {})
  \cup (IF r.kind = "sky" THEN Clause("shape-of-the-stars", r.off <= r.tolerance) ELSE {})
FitFails(r) == Clause("fit-recovers-gaussian", r.fit <= 1000) \cup Clause("stamp-untouched", r.untouched)

JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec
         /\ Report(Trace[rec].id, IF Trace[rec].kind = "fit" THEN FitFails(Trace[rec]) ELSE Fails(Trace[rec]))
==============================================================================
