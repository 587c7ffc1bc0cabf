---------------------------- MODULE SubtractTrace ----------------------------
EXTENDS TraceLib
P == INSTANCE Proper
VARIABLES rec, done
Tol == 2000        \* 1e-9 of the largest value
TolScore == 20000
TolCost == 200
SameUnknowns(r) == \A j \in DOMAIN r.calls : r.calls[j].nd = Len(r.unknowns)
Bounded(r) == \A j \in DOMAIN r.calls : r.calls[j].lo = r.lower /\ r.calls[j].hi = r.upper
Fails(r) ==
  Clause("difference-image", r.d <= Tol) \cup Clause("difference-psf", r.p <= Tol) \cup Clause("corrected-score", r.s <= TolScore)
  \cup Clause("mask", r.mask) \cup Clause("real-images", r.real)
  \cup Clause("minimiser-asked", IF r.asked = "nothing" THEN r.ncalls = 0 ELSE r.ncalls >= 1)
  \cup (IF r.ncalls = 0 THEN {} ELSE
          Clause("unknowns", r.asked = "nothing" \/ SameUnknowns(r))
          \cup Clause("bounds", r.asked = "nothing" \/ Bounded(r))
          \cup Clause("inside-bounds", \A j \in DOMAIN r.calls : r.calls[j].inside)
          \cup Clause("masked-residual", \A j \in DOMAIN r.costs : r.costs[j] <= TolCost)
          \cup Clause("residual-not-reduced", r.improved))
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
