----------------------------- MODULE ProperTrace -----------------------------
EXTENDS TraceLib
VARIABLES rec, done
Tol == 3000        \* 1e-9 of the largest value
TolOrder == 100000 \* other order: zero points of an iterative fit
Fails(r) ==
  Clause("coadd", r.r <= Tol) \cup Clause("coadd-psf", r.p <= Tol) \cup Clause("psf-unit-sum", r.sum <= Tol)
  \cup Clause("order-matters", r.order <= TolOrder /\ r.ordp <= TolOrder)
  \cup Clause("mask", r.mask) \cup Clause("inputs-altered", r.pixels) \cup Clause("list-altered", r.list) \cup Clause("old-name-warns", r.warned)
JInit == rec \in DOMAIN Trace /\ done = FALSE
JNext == done = FALSE /\ done' = TRUE /\ UNCHANGED rec /\ Report(Trace[rec].id, Fails(Trace[rec]))
===============================================================================
